//! C11: raw programs convert back into the same program.

use super::c10::program;
use super::util::*;
use crate::api::{build, Opts};
use crate::ensure;
use crate::extract::{check_types, check_uses, extract};
use crate::gen::*;
use crate::raw::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C11",
    rule: "generated programs (built through the API or parsed, some edited), turned into raw form \
           and back, once or twice, the original dropped before or after; the text must be the \
           same byte for byte and the structure equal to the model's; one case in 1000 has thousands of blocks, functions or instructions; non-trivial = at least four \
           instructions",
    quick: 120_000,
    thorough: 4_800_000,
    tape: 600,
    run,
    fixed: None,
    assumptions: &[],
  }
}

/// Programs of thousands of blocks, functions or instructions.
fn big(t: &mut Tape, c: &mut Case) -> Res {
  let s = gen_big(t);
  c.describe(format!("{} functions, {} blocks in the first, {} instructions", s.funcs.len(), s.funcs[0].blocks.len(), s.n_insts()));
  c.nontrivial = true;
  c.class("thousands of entities");
  usual_stack(|| {
    let (p, _) = build(&s, Opts::default());
    let b = Builder::new();
    let q = match generate(&b.build(&p)) {
      Ok(q) => q,
      Err(e) => return fail("refused", format!("error code {e}")),
    };
    let g = or("invalid program", extract(q.get()), "")?;
    ensure!(g == s, "structure differs", "{:?}", diff(&s, &g));
    let (a, b) = (or("print", print(&p), "")?, or("print", print(q.get()), "")?);
    ensure!(a == b, "text differs", "text of a program of {} instructions", s.n_insts());
    Ok(())
  })
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  if t.below(1000) == 999 {
    return big(t, c);
  }
  let early = t.chance(50);
  let times = 1 + t.below(3);
  let names = if t.chance(50) { Names::Api } else { Names::Text };
  let (p, mut want) = program(t, c, names)?;
  // what is not in the raw form: names of the parameters of a body that is empty
  for f in &mut want.funcs {
    if f.is_decl() {
      f.params.iter_mut().for_each(|p| p.0 = None);
    }
  }
  c.describe(format!("{want:?}"));
  c.nontrivial = want.n_insts() >= 4;
  // global constants in functions cannot be printed
  let printable = !c.classes.contains(&"global constants in functions");
  let text = if printable { Some(or("print", print(&p), "")?) } else { None };
  let b = Builder::new();
  let raw = b.build(&p);
  let mut p = Some(p);
  if early {
    p = None;
  }
  let mut q = match generate(&raw) {
    Ok(q) => q,
    Err(e) => return fail("refused", format!("error code {e}")),
  };
  if !early {
    // the original is as it was
    let p = p.as_ref().unwrap();
    let s = or("original damaged", extract(p), "")?;
    let mut s1 = s.clone();
    for f in &mut s1.funcs {
      if f.is_decl() {
        f.params.iter_mut().for_each(|p| p.0 = None);
      }
    }
    ensure!(s1 == want, "original damaged", "{:?}", diff(&want, &s1));
  }
  drop(b);
  for k in 0..times {
    if k > 0 {
      let b = Builder::new();
      let raw = b.build(q.get());
      q = match generate(&raw) {
        Ok(q) => q,
        Err(e) => return fail("refused", format!("error code {e}, conversion {k}")),
      };
    }
    let g = or("invalid program", extract(q.get()), "")?;
    ensure!(g == want, "structure differs", "conversion {k}: {:?}", diff(&want, &g));
    or("bad use lists", check_uses(q.get()), "")?;
    or("ill typed", check_types(&g), "")?;
    let t1 = or("print", print(q.get()), "")?;
    if let Some(t0) = &text {
      ensure!(*t0 == t1, "text differs", "conversion {k}\n{t0}\n--- became ---\n{t1}");
    }
  }
  Ok(())
}
