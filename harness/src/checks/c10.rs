//! C10: raw programs mirror the program they are built from.

use super::util::*;
use crate::api::{build, Opts};
use crate::ensure;
use crate::extract::extract;
use crate::gen::*;
use crate::raw::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use koopa::ir::builder_traits::*;
use koopa::ir::Program;

pub fn check() -> Check {
  Check {
    id: "C10",
    rule: "one to three generated programs (built through the API or parsed, some edited: blocks \
           moved, entities renamed, instructions taken out or never placed), given to one or two \
           raw builders, some of them twice; the raw form is read pointer by pointer through \
           mirrors of the C structures and compared with the model, and read again after later \
           builds; one case in 1000 has thousands of blocks, functions or instructions; non-trivial = at least six instructions in all",
    quick: 160_000,
    thorough: 6_400_000,
    tape: 700,
    run,
    fixed: None,
    assumptions: &["a program is not edited between two builds with one raw builder"],
  }
}

/// Edits a program a little.
pub fn tweak(t: &mut Tape, p: &mut Program) {
  let fs = p.func_layout().to_vec();
  for f in fs {
    let fd = p.func_mut(f);
    for _ in 0..t.below(4) {
      let bbs: Vec<_> = fd.layout().bbs().keys().copied().collect();
      if bbs.is_empty() {
        break;
      }
      let bb = *t.pick(&bbs);
      let insts: Vec<_> = fd.layout().bbs()[&bb].insts().keys().copied().collect();
      match t.below(5) {
        // a block moves to the end
        0 if Some(bb) != fd.layout().entry_bb() => {
          let bs = fd.layout_mut().bbs_mut();
          let (k, v) = bs.remove(&bb).unwrap();
          let _ = (k, v);
          bs.push_key_back(bb).unwrap();
          for i in insts {
            fd.layout_mut().bb_mut(bb).insts_mut().push_key_back(i).unwrap();
          }
        }
        // an instruction that is never placed
        1 => {
          let v = insts.iter().copied().find(|v| fd.dfg().value(*v).ty().is_i32());
          if let Some(v) = v {
            fd.dfg_mut().new_value().binary(koopa::ir::BinaryOp::Add, v, v);
          }
        }
        // an unused instruction leaves its block
        2 => {
          let v = insts.iter().copied().find(|v| {
            let d = fd.dfg().value(*v);
            d.used_by().is_empty() && !d.ty().is_unit()
          });
          if let Some(v) = v {
            let keep = t.chance(50);
            fd.layout_mut().bb_mut(bb).insts_mut().remove(&v);
            if !keep {
              fd.dfg_mut().remove_value(v);
            }
          }
        }
        3 => {
          let v = insts.iter().copied().find(|v| !fd.dfg().value(*v).ty().is_unit());
          if let Some(v) = v {
            let n = *t.pick(&[None, Some("%renamed"), Some("@v")]);
            fd.dfg_mut().set_value_name(v, n.map(|s| s.into()));
          }
        }
        _ => {
          let n = *t.pick(&[None, Some("%moved"), Some("%0")]);
          fd.dfg_mut().bb_mut(bb).set_name(n.map(|s| s.into()));
        }
      }
    }
  }
}

/// A program and its model.
pub fn program(t: &mut Tape, c: &mut Case, names: Names) -> Result<(Program, Spec), Fail> {
  let mut it = t.fork(60);
  let parsed = it.chance(25);
  let mut cfg = if parsed { Cfg::text() } else { Cfg::api() };
  if !parsed {
    cfg.names = names;
  }
  cfg.unreachable = it.chance(30);
  let s = gen_spec(t, &cfg);
  if parsed {
    let src = crate::text::random(t, &s);
    let p = or("text rejected", parse(&src), &src)?;
    let s = or("invalid program", extract(&p), &src)?;
    c.class("parsed");
    return Ok((p, s));
  }
  let o = Opts {
    share_consts: it.chance(40),
    global_consts: it.chance(15),
    decl_as_def: it.chance(15),
  };
  c.class_if(o.share_consts, "shared constants");
  c.class_if(o.global_consts, "global constants in functions");
  let (mut p, _) = build(&s, o);
  let mut want = s;
  if it.chance(35) {
    tweak(&mut it, &mut p);
    c.class("edited");
    want = or("invalid program", extract(&p), "")?;
  } else if o.decl_as_def {
    want = or("invalid program", extract(&p), "")?;
  }
  Ok((p, want))
}

/// Programs of thousands of blocks, functions or instructions.
fn big(t: &mut Tape, c: &mut Case) -> Res {
  let s = gen_big(t);
  c.describe(format!("{} functions, {} blocks in the first, {} instructions", s.funcs.len(), s.funcs[0].blocks.len(), s.n_insts()));
  c.nontrivial = true;
  c.class("thousands of entities");
  usual_stack(|| {
    let (p, _) = build(&s, Opts::default());
    let b = Builder::new();
    let raw = b.build(&p);
    let v = or("broken raw program", read(&raw), "")?;
    ensure!(v.spec == s, "raw program differs", "{:?}", diff(&s, &v.spec));
    or("identity", Ident::default().walk(&p, &v), "")
  })
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  if t.below(1000) == 999 {
    return big(t, c);
  }
  let n = 1 + t.weighted(&[3, 2, 1]);
  let two = t.chance(20);
  let again = t.chance(40);
  let mut progs = vec![];
  for _ in 0..n {
    if n == 1 {
      progs.push(program(t, c, Names::Api)?);
    } else {
      let mut sub = t.fork(300.max(t.rest() / 4));
      progs.push(program(&mut sub, c, Names::Api)?);
    }
  }
  let total: usize = progs.iter().map(|p| p.1.n_insts()).sum();
  c.describe(format!("{:?}", progs.iter().map(|p| &p.1).collect::<Vec<_>>()));
  c.nontrivial = total >= 6;
  c.class_if(n > 1, "several programs");
  c.class_if(again, "built again");
  let builders = [Builder::new(), Builder::new()];
  let mut ids = [Ident::default(), Ident::default()];
  let mut raws = vec![];
  for (i, (p, _)) in progs.iter().enumerate() {
    let b = if two { i % 2 } else { 0 };
    raws.push((i, b, builders[b].build(p)));
    if again {
      let j = t.below(i + 1);
      raws.push((j, b, builders[b].build(&progs[j].0)));
    }
    // everything built so far is as it was
    for (k, b, r) in &raws {
      let (p, want) = &progs[*k];
      let v = or("broken raw program", read(r), "")?;
      ensure!(v.spec == *want, "raw program differs", "{:?}", diff(want, &v.spec));
      or("identity", ids[*b].walk(p, &v), "")?;
      for (a, x) in &v.tys {
        for (b, y) in &v.tys {
          ensure!(a == b || x != y, "identity", "the type {} is two raw types", x.show());
        }
      }
    }
  }
  Ok(())
}
