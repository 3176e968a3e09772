//! C09: LLVM output is well-formed and means the same.

use super::util::*;
use crate::api::{build, Opts};
use crate::ensure;
use crate::exec::*;
use crate::gen::*;
use crate::llvm::{self, LTy, LVal, Module};
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::text;
use koopa::back::LlvmGenerator;
use koopa::ir::builder_traits::*;
use koopa::ir::Program;

pub fn check() -> Check {
  Check {
    id: "C09",
    rule: "programs from text and through the API (clashing and missing names, shared constants, \
           detached items, blocks in any order, unreachable blocks) are printed as LLVM IR, read by \
           a reader that checks names, types, phi entries and dominance, and every function is run \
           on both sides on up to three inputs; non-trivial = a program of six instructions or more with \
           a run of at least three calls or instructions whose end is compared",
    quick: 120_000,
    thorough: 4_800_000,
    tape: 700,
    run,
    fixed: None,
    assumptions: &[
      "executions are compared up to the first operation whose result is undefined, and up to a \
       bounded number of blocks",
    ],
  }
}

pub fn print_llvm(p: &Program) -> Result<String, String> {
  let mut g = LlvmGenerator::new(Vec::new());
  g.generate_on(p).map_err(|e| format!("generator failed: {e}"))?;
  String::from_utf8(g.writer()).map_err(|_| "output is not UTF-8".into())
}

fn same_const(c: &Const, v: &LVal) -> bool {
  match (c, v) {
    (Const::Int(i), LVal::Int(j)) => *i as i64 == *j,
    (Const::Int(0) | Const::Zero(_), LVal::Zero) => true,
    (Const::Zero(Ty::I32), LVal::Int(0)) => true,
    (Const::Zero(Ty::Arr(b, _)), LVal::Agg(es)) => {
      es.iter().all(|e| same_const(&Const::Zero((**b).clone()), &e.1))
    }
    (Const::Undef(_), LVal::Undef) => true,
    (Const::Agg(es, _), LVal::Agg(fs)) => {
      es.len() == fs.len() && es.iter().zip(fs).all(|(e, f)| same_const(e, &f.1))
    }
    _ => false,
  }
}

/// The name a linker sees, if the given one is kept.
fn linkage(n: &str) -> String {
  match n.strip_prefix('@') {
    Some(r) => r.to_string(),
    None => format!("${}", &n[1..]),
  }
}

/// Whether a name of a global or function must not be cut or changed.
fn kept(n: &str, s: &Spec) -> bool {
  let n = linkage(n);
  let near = |o: &str| {
    let o = linkage(o);
    o.len() > 500 && n.len() > 500 && o[..500] == n[..500]
  };
  let others = s.globals.iter().filter_map(|g| g.name.as_deref()).chain(s.funcs.iter().map(|f| f.name.as_str()));
  n.len() <= 512 && (n.len() <= 500 || others.filter(|o| near(o)).count() == 1)
}

/// The interface: globals and functions, in order.
fn interface(s: &Spec, m: &Module) -> Result<(), String> {
  if s.globals.len() != m.globals.len() || s.funcs.len() != m.funcs.len() {
    return Err(format!(
      "{} globals and {} functions, not {} and {}",
      m.globals.len(),
      m.funcs.len(),
      s.globals.len(),
      s.funcs.len()
    ));
  }
  for (g, l) in s.globals.iter().zip(&m.globals) {
    if l.ty != LTy::of(&g.init.ty()) || !same_const(&g.init, &l.init) {
      return Err(format!("global @{} is {:?} {:?}, not {:?}", l.name, l.ty, l.init, g.init));
    }
    if let Some(n) = &g.name {
      if kept(n, s) && !is_temp(n) && l.name != linkage(n) {
        return Err(format!("global {n} is named @{}", l.name));
      }
    }
  }
  for (f, l) in s.funcs.iter().zip(&m.funcs) {
    let tys: Vec<LTy> = f.params.iter().map(|p| LTy::of(&p.1)).collect();
    let ltys: Vec<LTy> = l.params.iter().map(|p| p.1.clone()).collect();
    if tys != ltys || LTy::of(&f.ret) != l.ret {
      return Err(format!("function {}: {:?} {:?}, not {:?} {:?}", f.name, ltys, l.ret, tys, f.ret));
    }
    if f.is_decl() != l.blocks.is_empty() {
      return Err(format!("function {}: definition or declaration", f.name));
    }
    if kept(&f.name, s) && l.name != linkage(&f.name) {
      return Err(format!("function {} is named @{}", f.name, l.name));
    }
  }
  Ok(())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut it = t.fork(60);
  let large = it.below(2500) == 2499;
  let from_text = !large && it.chance(30);
  let mut cfg = if from_text { Cfg::text() } else { Cfg::api() };
  cfg.huge = false;
  cfg.runnable = it.chance(80);
  cfg.unreachable = !from_text && it.chance(60);
  cfg.max_globals = 3;
  cfg.max_funcs = 4;
  let mut s = if large { gen_big(t) } else { gen_spec(t, &cfg) };
  c.class_if(large, "thousands of entities");
  let opts = Opts { share_consts: it.chance(40), global_consts: false, decl_as_def: it.chance(30) };
  let seed = it.raw() as u64;
  let p = if from_text {
    let src = text::random(t, &s);
    s.canon_blocks();
    or("text rejected", parse(&src), &src)?
  } else {
    let (mut p, h) = build(&s, opts);
    if it.chance(25) {
      c.class("detached items");
      detach(&mut it, &s, &mut p, &h);
    }
    if it.chance(20) {
      c.class("named values without a name in the text");
      name_others(&mut it, &s, &mut p, &h);
    }
    p
  };
  let src = match no_panic(|| print_llvm(&p)) {
    Ok(r) => or("print", r, "")?,
    Err(e) => return fail("printing panics", format!("{e}\n{s:#?}")),
  };
  c.describe(src.clone());
  c.class_if(s.funcs.iter().flat_map(|f| &f.blocks).any(|b| !b.params.is_empty()), "phi");
  let m = match llvm::read(&src) {
    Ok(m) => m,
    Err(e) => return fail("not well-formed", format!("{e}\n{src}")),
  };
  or("interface", interface(&s, &m), &src)?;
  let lm = Lm::new(&m);
  let mut good = false;
  for (fi, f) in s.funcs.iter().enumerate().take(50) {
    if f.is_decl() {
      continue;
    }
    for round in 0..if f.params.is_empty() { 1 } else { 3u64 } {
      let sd = seed ^ (round << 20) ^ ((fi as u64) << 8);
      let mut w = World::new(sd, 300);
      init_spec(&s, &mut w);
      let mut x = World::new(sd, 900);
      if let Err(e) = lm.init(&mut x) {
        return fail("globals", format!("{e:?}\n{src}"));
      }
      let shapes: Vec<Sh> = f.params.iter().map(|p| Sh::of(&p.1)).collect();
      let args: Vec<V> = shapes.iter().map(|s| w.fresh(s, 2)).collect();
      let args2: Vec<V> = shapes.iter().map(|s| x.fresh(s, 2)).collect();
      let a = call_spec(&s, &mut w, fi, args.clone());
      let b = lm.call(&mut x, fi, args2.clone());
      if let Err(Stop::Broken(e)) = &b {
        return fail("wrong run", format!("{}: {e}\n{src}", f.name));
      }
      assert!(!matches!(a, Err(Stop::Broken(_))), "{a:?}");
      let n = w.events.len();
      let at = w.events.iter().zip(&x.events).position(|(p, q)| p != q);
      ensure!(
        at.is_none() && n <= x.events.len(),
        "other calls",
        "{}({args:?}): call #{at:?} of {n}: {:?} and {:?} (then {a:?} and {b:?})\n{src}",
        f.name,
        at.map(|i| &w.events[i]),
        at.map(|i| &x.events[i])
      );
      match &a {
        Ok(v) => {
          ensure!(
            a == b,
            "other result",
            "{}({args:?}) returns {v:?}, in LLVM IR {b:?}\n{src}",
            f.name
          );
          ensure!(
            w.mem == x.mem && n == x.events.len(),
            "other memory",
            "{}({args:?}): {:?} and {:?}\n{src}",
            f.name,
            w.mem,
            x.mem
          );
          c.class("finished");
          good |= n + f.blocks[0].insts.len() >= 3;
          c.class_if(n > 1, "finished with calls");
        }
        Err(Stop::Undefined(w)) => {
          c.class("undefined");
          c.class(w);
        }
        Err(_) => {
          c.class("endless");
          // blocks correspond one to one, so both stop at the same point
          let blocks = |n: usize, m: usize| n == m;
          if s.funcs.iter().zip(&m.funcs).all(|(f, l)| blocks(f.blocks.len(), l.blocks.len())) {
            let mut y = World::new(sd, 300);
            let _ = lm.init(&mut y);
            let args: Vec<V> = shapes.iter().map(|s| y.fresh(s, 2)).collect();
            let r = lm.call(&mut y, fi, args);
            ensure!(
              r == a && y.mem == w.mem,
              "other memory",
              "{}({args2:?}) after 300 blocks: {:?} and {:?}\n{src}",
              f.name,
              w.mem,
              y.mem
            );
            good |= n + f.blocks[0].insts.len() >= 3;
          }
        }
      }
    }
  }
  c.nontrivial = good && s.n_insts() >= 6;
  Ok(())
}

/// Adds items that are not in the layout.
fn detach(it: &mut Tape, s: &Spec, p: &mut Program, h: &crate::api::Handles) {
  for (i, f) in s.funcs.iter().enumerate() {
    if f.is_decl() {
      continue;
    }
    for _ in 0..it.range(1, 3) {
      let dfg = p.func_mut(h.funcs[i]).dfg_mut();
      let n = if it.chance(50) { None } else { Some(it.pick(&["%x", "@y", "%0", "%entry"]).to_string()) };
      match it.below(4) {
        0 => {
          dfg.new_bb().basic_block(n);
        }
        1 => {
          let v = dfg.new_value().integer(it.int());
          dfg.set_value_name(v, n);
        }
        _ => {
          // a jump to a block, with undefined arguments
          let b = it.below(f.blocks.len());
          let bb = h.blocks[i][b];
          let tys: Vec<_> = f.blocks[b].params.iter().map(|p| crate::api::ty(&p.1)).collect();
          let args = tys.into_iter().map(|t| dfg.new_value().undef(t)).collect();
          dfg.new_value().jump_with_args(bb, args);
        }
      }
    }
  }
}
