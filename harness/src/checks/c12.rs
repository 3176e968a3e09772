//! C12: malformed raw programs are refused with the documented error.

use super::util::*;
use crate::api::{build, Opts};
use crate::ensure;
use crate::extract::{check_uses, extract};
use crate::gen::*;
use crate::raw::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use std::collections::HashSet;
use std::ptr::null;

pub fn check() -> Check {
  Check {
    id: "C12",
    rule: "raw programs built by hand (types and constants shared or not, across functions and \
           with the initializers of globals, or not) or by the raw builder; a third are left \
           well formed and must convert to the model, the rest get one defect at a random place \
           and must be refused with its code, the output untouched, and accepted again after the \
           repair; non-trivial = a defect, or at least three instructions",
    quick: 240_000,
    thorough: 9_600_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["defects without a documented code are not injected"],
  }
}

const UTF8: i32 = 1;
const KIND: i32 = 7;
const NULL: i32 = 8;
const MISMATCH: i32 = 9;
const NUM: i32 = 10;

enum Site {
  /// A slice and the kind it must have.
  Slice(*mut Slice, &'static str),
  Name(*mut *const std::ffi::c_char, &'static str),
  Func(*mut FuncD),
}

fn ty_sites(p: *const TyD, seen: &mut HashSet<*const TyD>, out: &mut Vec<Site>) {
  if !seen.insert(p) {
    return;
  }
  unsafe {
    let d = p as *mut TyD;
    match (*d).tag {
      2 => ty_sites((*d).u.arr.base, seen, out),
      3 => ty_sites((*d).u.ptr, seen, out),
      4 => {
        let f = (*d).u.fun;
        out.push(Site::Slice(&raw mut (*d).u.fun.params, "function type"));
        for i in 0..f.params.len as usize {
          ty_sites(*f.params.buf.add(i) as *const TyD, seen, out);
        }
        ty_sites(f.ret, seen, out);
      }
      _ => {}
    }
  }
}

/// Every place of a raw program whose damage has a documented error code.
fn sites(raw: &mut Prog) -> Vec<Site> {
  let mut out = vec![];
  let mut tys = HashSet::new();
  let mut vals: HashSet<*const ValD> = HashSet::new();
  fn each<T>(s: &Slice) -> Vec<*mut T> {
    (0..s.len as usize).map(|i| unsafe { *s.buf.add(i) as *mut T }).collect()
  }
  fn val(p: *const ValD, vals: &mut HashSet<*const ValD>, tys: &mut HashSet<*const TyD>, out: &mut Vec<Site>) {
    if p.is_null() || !vals.insert(p) {
      return;
    }
    let v = p as *mut ValD;
    unsafe {
      match (*v).tag {
        1 | 2 => ty_sites((*v).ty, tys, out),
        3 => {
          out.push(Site::Slice(&raw mut (*v).u.agg, "aggregate"));
          each::<ValD>(&(*v).u.agg).iter().for_each(|e| val(*e, vals, tys, out));
        }
        6 => ty_sites((*v).ty, tys, out),
        7 | 8 | 16 => val((*v).u.one, vals, tys, out),
        9..=11 => (*v).u.two.iter().for_each(|e| val(*e, vals, tys, out)),
        12 => {
          val((*v).u.bin.l, vals, tys, out);
          val((*v).u.bin.r, vals, tys, out);
        }
        13 => {
          val((*v).u.br.cond, vals, tys, out);
          out.push(Site::Slice(&raw mut (*v).u.br.ta, "arguments of the true target"));
          out.push(Site::Slice(&raw mut (*v).u.br.fa, "arguments of the false target"));
          each::<ValD>(&(*v).u.br.ta).iter().for_each(|e| val(*e, vals, tys, out));
          each::<ValD>(&(*v).u.br.fa).iter().for_each(|e| val(*e, vals, tys, out));
        }
        14 => {
          out.push(Site::Slice(&raw mut (*v).u.jump.args, "arguments of a jump"));
          each::<ValD>(&(*v).u.jump.args).iter().for_each(|e| val(*e, vals, tys, out));
        }
        15 => {
          out.push(Site::Slice(&raw mut (*v).u.call.args, "arguments of a call"));
          each::<ValD>(&(*v).u.call.args).iter().for_each(|e| val(*e, vals, tys, out));
        }
        _ => {}
      }
      if (*v).tag >= 6 && !matches!((*v).tag, 9 | 13 | 14 | 16) {
        out.push(Site::Name(&raw mut (*v).name, "value"));
      }
    }
  }
  for g in each::<ValD>(&raw.values) {
    val(g, &mut vals, &mut tys, &mut out);
  }
  for f in each::<FuncD>(&raw.funcs) {
    unsafe {
      out.push(Site::Func(f));
      out.push(Site::Name(&raw mut (*f).name, "function"));
      ty_sites((*f).ty, &mut tys, &mut out);
      out.push(Site::Slice(&raw mut (*f).params, "parameters"));
      if (*f).bbs.len == 0 {
        continue;
      }
      out.push(Site::Slice(&raw mut (*f).bbs, "blocks"));
      for p in each::<ValD>(&(*f).params) {
        out.push(Site::Name(&raw mut (*p).name, "parameter"));
      }
      for b in each::<BlockD>(&(*f).bbs) {
        out.push(Site::Name(&raw mut (*b).name, "block"));
        out.push(Site::Slice(&raw mut (*b).params, "block parameters"));
        out.push(Site::Slice(&raw mut (*b).insts, "instructions"));
        for p in each::<ValD>(&(*b).params) {
          out.push(Site::Name(&raw mut (*p).name, "block parameter"));
          ty_sites((*p).ty, &mut tys, &mut out);
        }
        for i in each::<ValD>(&(*b).insts) {
          val(i, &mut vals, &mut tys, &mut out);
        }
      }
    }
  }
  out.push(Site::Slice(&raw mut raw.values, "globals"));
  out.push(Site::Slice(&raw mut raw.funcs, "functions"));
  out
}

fn accepted(raw: &Prog, want: &Spec, text: &str, what: &str) -> Res {
  let q = match generate(raw) {
    Ok(q) => q,
    Err(e) => return fail("well-formed refused", format!("error code {e} ({what})")),
  };
  let g = or("invalid program", extract(q.get()), what)?;
  ensure!(g == *want, "wrong program", "{what}: {:?}", diff(want, &g));
  or("bad use lists", check_uses(q.get()), what)?;
  let got = or("print", no_panic(|| print(q.get())).and_then(|r| r), what)?;
  ensure!(got == text, "wrong text", "{what}\n{text}\n--- became ---\n{got}");
  Ok(())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut it = t.fork(40);
  let mut cfg = Cfg::api();
  cfg.unreachable = it.chance(20);
  let s = gen_spec(t, &cfg);
  let by_hand = !it.chance(30);
  let st = style(&mut it);
  let mut arena = Arena::default();
  let b = Builder::new();
  let plain = build(&s, Opts::default()).0;
  let text = or("print", print(&plain), "")?;
  let mut raw = if by_hand { arena.write(&s, st) } else { b.build(&plain) };
  c.class_if(by_hand, "built by hand");
  c.class_if(by_hand && st.share_consts == 2, "constants shared across functions");
  let good = it.chance(33);
  c.describe(format!("{s:?} {st:?}"));
  c.nontrivial = s.n_insts() >= 3 || !good;
  // the model must come out first: the defect is then the only reason to refuse
  accepted(&raw, &s, &text, "before any damage")?;
  if good {
    c.class("well formed");
    return Ok(());
  }
  let mut ss = sites(&mut raw);
  let n = it.below(ss.len());
  // aim at a kind of place first, so that rare ones get their share
  let names = it.chance(40);
  let order: Vec<usize> = (0..ss.len()).map(|i| (i + n) % ss.len()).collect();
  let pick = order
    .iter()
    .copied()
    .find(|i| matches!((&ss[*i], names), (Site::Name(..), true) | (Site::Slice(..) | Site::Func(_), false)))
    .unwrap_or(n);
  let bad: &[&[u8]] = &[b"%\xff", b"@\xc3", b"%a\x80b", b"@\xed\xa0\x80", b"%\xf0\x9f\x98"];
  let (what, code, undo): (String, i32, Box<dyn FnOnce()>) = match ss.swap_remove(pick) {
    Site::Slice(p, w) => unsafe {
      let old = (*p).kind;
      let mut k = it.below(5) as u32;
      if k == old {
        k = (k + 1) % 5;
      }
      (*p).kind = k;
      c.class("slice kind");
      (format!("kind of {w} is {k}, not {old}"), KIND, Box::new(move || (*p).kind = old))
    },
    Site::Name(p, w) => unsafe {
      let old = *p;
      *p = arena.bytes(it.pick(bad));
      c.class("name is not UTF-8");
      (format!("name of a {w} is not UTF-8"), UTF8, Box::new(move || *p = old))
    },
    Site::Func(f) => unsafe {
      let def = (*f).bbs.len > 0;
      match it.below(if def { 4 } else { 2 }) {
        0 => {
          let old = (*f).name;
          (*f).name = null();
          c.class("function without a name");
          ("function without a name".into(), NULL, Box::new(move || (*f).name = old))
        }
        1 => {
          let old = (*f).ty;
          let ty = match it.below(4) {
            0 => Ty::I32,
            1 => Ty::Unit,
            2 => Ty::arr(Ty::I32, 3),
            _ => Ty::ptr(Ty::fun(vec![], Ty::I32)),
          };
          (*f).ty = arena.ty(&ty, st);
          c.class("function of another type");
          (
            format!("function of type {}", ty.show()),
            MISMATCH,
            Box::new(move || (*f).ty = old),
          )
        }
        k => {
          let old = (*f).params;
          let n = old.len as usize;
          let ps: Vec<_> = (0..n).map(|i| *old.buf.add(i) as *const ValD).collect();
          if k == 2 && n > 0 {
            // too few
            let m = it.below(n);
            (*f).params.len = m as u32;
          } else {
            let mut ps = ps.clone();
            let i32t = arena.ty(&Ty::I32, st);
            let extra = Box::leak(Box::new(ValD {
              ty: i32t,
              name: null(),
              used_by: Slice { buf: null(), len: 0, kind: VALUE },
              tag: 4,
              u: ValU { index: n },
            }));
            arena.vals.push(extra);
            ps.push(extra);
            (*f).params = arena.slice(ps, VALUE);
          }
          c.class("number of parameters");
          ("wrong number of parameters".into(), NUM, Box::new(move || (*f).params = old))
        }
      }
    },
  };
  c.text.push_str(&format!("\n{what}"));
  match generate(&raw) {
    Ok(_) => return fail("malformed accepted", what),
    Err(e) if e <= -1000 => return fail("output written", format!("{what}: error code {}", -1000 - e)),
    Err(e) => ensure!(e == code, "wrong error code", "{what}: error code {e}, not {code}"),
  }
  undo();
  accepted(&raw, &s, &text, "after the repair")
}
