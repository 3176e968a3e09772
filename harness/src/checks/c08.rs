//! C08: programs built through the API print as valid text.

use super::util::*;
use crate::api::{build, local_const, ty, Opts};
use crate::ensure;
use crate::extract::{check_types, check_uses, extract};
use crate::gen::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use koopa::back::KoopaGenerator;
use koopa::ir::builder_traits::*;
use std::collections::HashMap;

pub fn check() -> Check {
  Check {
    id: "C08",
    rule: "programs built through the API with missing, clashing, temporary-looking and unique \
           names, shared or separate constants, blocks in any order, unreachable and detached \
           blocks, and detached values, some printed again by the same generator; the printed text is parsed again and compared with the \
           model; non-trivial = at least four instructions and two entities of equal or \
           temporary-looking name",
    quick: 225_000,
    thorough: 9_000_000,
    tape: 700,
    run,
    fixed: None,
    assumptions: &[
      "operands are constants that the text can express",
      "where functions call later ones, declarations are put in front of the printed text to parse it",
    ],
  }
}

/// All names of a function's scope, with how often they occur.
fn scope_names(s: &Spec, f: Option<&Func>) -> HashMap<String, usize> {
  let mut m: HashMap<String, usize> = HashMap::new();
  let mut add = |n: &Option<String>| {
    if let Some(n) = n {
      *m.entry(n.clone()).or_default() += 1;
    }
  };
  for g in &s.globals {
    add(&g.name);
  }
  for f in &s.funcs {
    add(&Some(f.name.clone()));
  }
  if let Some(f) = f {
    f.params.iter().for_each(|p| add(&p.0));
    for b in &f.blocks {
      add(&b.name);
      b.params.iter().for_each(|p| add(&p.0));
      b.insts.iter().for_each(|i| add(&i.name));
    }
  }
  m
}

/// Must a name be kept, given the names of its scope?
fn kept(n: &str, all: &HashMap<String, usize>) -> bool {
  if is_temp(n) || all.get(n).copied().unwrap_or(0) > 1 {
    return false;
  }
  // a name made up for a clashing one may look like this one
  for (i, _) in n.match_indices('_') {
    if n[i..].chars().all(|c| c.is_ascii_digit() || c == '_') && all.contains_key(&n[..i]) {
      return false;
    }
  }
  true
}

fn names(want: &Spec, got: &Spec, full: &Spec) -> Result<usize, String> {
  let mut n = 0;
  let mut one = |w: &Option<String>, g: &Option<String>, all: &HashMap<String, usize>| match w {
    Some(x) if kept(x, all) => {
      n += 1;
      if g.as_ref() == Some(x) {
        Ok(())
      } else {
        Err(format!("the unique name {x} became {g:?}"))
      }
    }
    _ => Ok(()),
  };
  let all = scope_names(full, None);
  for (w, g) in want.globals.iter().zip(&got.globals) {
    one(&w.name, &g.name, &all)?;
  }
  for (i, (w, g)) in want.funcs.iter().zip(&got.funcs).enumerate() {
    one(&Some(w.name.clone()), &Some(g.name.clone()), &all)?;
    let all = scope_names(full, Some(&full.funcs[i]));
    for (w, g) in w.params.iter().zip(&g.params) {
      one(&w.0, &g.0, &all)?;
    }
    for (w, g) in w.blocks.iter().zip(&g.blocks) {
      one(&w.name, &g.name, &all)?;
      for (w, g) in w.params.iter().zip(&g.params) {
        one(&w.0, &g.0, &all)?;
      }
      for (w, g) in w.insts.iter().zip(&g.insts) {
        one(&w.name, &g.name, &all)?;
      }
    }
  }
  Ok(n)
}

/// A program whose functions call declarations instead of each other: first
/// come declarations of all functions, and then those that have a body, by
/// other names.
pub fn with_decls(s: &Spec) -> Spec {
  let mut r = s.clone();
  let mut funcs = s.funcs.clone();
  for f in &mut funcs {
    f.blocks.clear();
    f.params.iter_mut().for_each(|p| p.0 = None);
  }
  for (i, f) in r.funcs.drain(..).enumerate() {
    if !f.is_decl() {
      funcs.push(Func { name: format!("@kv_def{i}"), ..f });
    }
  }
  r.funcs = funcs;
  r
}

/// The printed text of a program, made so that it can be parsed even if
/// functions are called before their definitions (see `with_decls`).
fn declared(printed: &str, s: &Spec) -> Result<String, String> {
  let (mut top, mut out) = (String::new(), String::new());
  let mut n = 0;
  for l in printed.lines() {
    if l.starts_with("fun ") || l.starts_with("decl ") {
      let f = s.funcs.get(n).ok_or("too many functions")?;
      n += 1;
      if let Some(l) = l.strip_prefix("fun ") {
        if f.is_decl() {
          return Err(format!("{} has a body", f.name));
        }
        let (name, rest) = l.split_once('(').ok_or("no parameters")?;
        let tys: Vec<String> = f.params.iter().map(|p| p.1.show()).collect();
        let ret = if f.ret.is_unit() { String::new() } else { format!(": {}", f.ret.show()) };
        top.push_str(&format!("decl {name}({}){ret}\n", tys.join(", ")));
        out.push_str(&format!("fun @kv_def{}({rest}\n", n - 1));
      } else {
        top.push_str(l);
        top.push('\n');
      }
      continue;
    }
    out.push_str(l);
    out.push('\n');
  }
  Ok(top + &out)
}

/// Programs of thousands of entities.
fn big(t: &mut Tape, c: &mut Case) -> Res {
  let s = gen_big(t);
  c.describe(format!("{} globals, {} functions, {} blocks in the last, {} instructions", s.globals.len(), s.funcs.len(), s.funcs[s.funcs.len() - 1].blocks.len(), s.n_insts()));
  c.nontrivial = true;
  c.class("thousands of entities");
  let (p, _) = build(&s, Opts::default());
  let printed = or("print", print(&p), "")?;
  let again = or("print", print(&p), "")?;
  ensure!(again == printed, "printing twice differs", "");
  let (src, mut want) = (or("functions are missing", declared(&printed, &s), "")?, with_decls(&s));
  let q = or("printed text rejected", parse(&src), "")?;
  let mut got = or("invalid program", extract(&q), "")?;
  or("bad use lists", check_uses(&q), "")?;
  want.canon_blocks();
  want.strip_local_names();
  got.strip_local_names();
  ensure!(want == got, "other program", "{:?}", diff(&want, &got));
  Ok(())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut it = t.fork(40);
  if it.below(2500) == 2499 {
    return big(t, c);
  }
  let mut cfg = Cfg::api();
  let forward = it.chance(20);
  (cfg.forward_calls, cfg.text_ops, cfg.unreachable) = (forward, true, true);
  let mut s = gen_spec(t, &cfg);
  let opts = Opts {
    share_consts: it.chance(40),
    global_consts: false,
    decl_as_def: it.chance(30),
  };
  for f in &mut s.funcs {
    if f.is_decl() {
      f.params.iter_mut().for_each(|p| p.0 = None);
    }
  }
  let (mut p, h) = build(&s, opts);
  // things that are not in the layout are not part of the program text
  if it.chance(35) {
    c.class("detached items");
    for (i, f) in s.funcs.iter().enumerate() {
      if f.is_decl() {
        continue;
      }
      let func = h.funcs[i];
      for _ in 0..it.range(0, 2) {
        let n = if it.chance(50) { None } else { Some(it.pick(&["%x", "@y", "%0", "%entry"]).to_string()) };
        match it.below(4) {
          0 => {
            p.func_mut(func).dfg_mut().new_bb().basic_block(n);
          }
          1 => {
            p.func_mut(func).dfg_mut().new_bb().basic_block_with_param_names(
              n,
              vec![(Some("%x".into()), ty(&Ty::I32)), (None, ty(&Ty::I32))],
            );
          }
          2 => {
            let v = local_const(&mut p, func, &Const::Int(it.int()));
            p.func_mut(func).dfg_mut().set_value_name(v, n);
          }
          _ => {
            let v = p.func_mut(func).dfg_mut().new_value().alloc(ty(&Ty::I32));
            p.func_mut(func).dfg_mut().set_value_name(v, n);
          }
        }
      }
    }
    if it.chance(50) {
      p.new_value().integer(it.int());
    }
  }
  // names of values that have no value to name
  if it.chance(25) {
    c.class("named values without a name in the text");
    name_others(&mut it, &s, &mut p, &h);
  }
  let src = match no_panic(|| print(&p)) {
    Ok(r) => or("print", r, "")?,
    Err(e) => return fail("printing panics", format!("{e}\n{s:#?}")),
  };
  c.describe(src.clone());
  let mut temp = false;
  for f in &s.funcs {
    let m = scope_names(&s, Some(f));
    temp |= m.iter().any(|(k, v)| *v > 1 || is_temp(k));
  }
  c.class_if(temp, "clashing or temporary-looking names");
  c.class_if(opts.share_consts, "shared constants");
  c.nontrivial = s.n_insts() >= 4 && temp;
  let printed = src;
  let orig = s;
  let (src, s) = match forward {
    true => (or("functions are missing", declared(&printed, &orig), &printed)?, with_decls(&orig)),
    false => (printed.clone(), orig.clone()),
  };
  c.class_if(forward, "calls of later functions");
  let q = or("printed text rejected", parse(&src), &src)?;
  let got = or("invalid program", extract(&q), &src)?;
  or("ill typed", check_types(&got), &src)?;
  or("bad use lists", check_uses(&q), &src)?;
  let mut want = s.clone();
  want.canon_blocks();
  let bare = |s: &Spec| {
    let mut s = s.clone();
    s.strip_local_names();
    s.strip_global_names();
    for f in &mut s.funcs {
      f.name.clear();
    }
    s
  };
  let (x, y) = (bare(&want), bare(&got));
  ensure!(x == y, "other program", "{:?}\n{src}", diff(&x, &y));
  let n = or("name lost", names(&want, &got, &s), &src)?;
  c.class_if(n > 3, "unique names");
  // functions and globals keep their names in any case, as they are distinct
  for (w, g) in want.funcs.iter().zip(&got.funcs) {
    ensure!(w.name == g.name, "function name", "{} became {}\n{src}", w.name, g.name);
  }
  let again = or("print", print(&p), "")?;
  ensure!(again == printed, "printing twice differs", "first:\n{printed}\nsecond:\n{again}");
  // one generator for the program twice: each text is the program
  if it.chance(12) {
    c.class("one generator, several times");
    let out = Shared::default();
    let mut g = match it.chance(50) {
      true => KoopaGenerator::new(out.clone()),
      false => KoopaGenerator::with_visitor(out.clone(), Default::default()),
    };
    let mut from = 0;
    for k in 0..3 {
      if let Err(e) = g.generate_on(&p) {
        return fail("generator fails when used again", format!("{e}\n{src}"));
      }
      let part = out.0.borrow()[from..].to_vec();
      from += part.len();
      let part = String::from_utf8_lossy(&part).into_owned();
      ensure!(k > 0 || part == printed, "printing twice differs", "first:\n{printed}\nsecond:\n{part}");
      let part = match forward {
        true => or("functions are missing", declared(&part, &orig), &part)?,
        false => part,
      };
      let q = or("text of a generator used again rejected", parse(&part), &part)?;
      let got = or("invalid program", extract(&q), &part)?;
      let y = bare(&got);
      ensure!(x == y, "other program", "generator used again: {:?}\n{part}", diff(&x, &y));
      or("name lost", names(&want, &got, &s), &part)?;
    }
  }
  Ok(())
}
