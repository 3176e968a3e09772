//! C01: parsing and printing the text form are mutually inverse.

use super::util::*;
use crate::extract::extract;
use crate::gen::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::{ensure, text};

pub fn check() -> Check {
  Check {
    id: "C01",
    rule: "programs decoded from a random tape (globals, declarations, control flow with block \
           parameters, every instruction and type) rendered in a random legal layout; non-trivial \
           = at least one function body with two instructions",
    quick: 200_000,
    thorough: 8_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &[],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let cfg = Cfg::text();
  let s = gen_spec(t, &cfg);
  let src = text::random(t, &s);
  c.describe(src.clone());
  c.nontrivial = s.funcs.iter().any(|f| f.blocks.iter().any(|b| b.insts.len() >= 2));
  c.class_if(s.funcs.iter().any(|f| f.blocks.len() > 1), "several blocks");
  c.class_if(s.funcs.iter().flat_map(|f| &f.blocks).any(|b| !b.params.is_empty()), "block parameters");
  let p1 = or("text rejected", parse(&src), &src)?;
  let mut want = s.clone();
  want.canon_blocks();
  want.strip_temp_names();
  let s1 = or("invalid program", extract(&p1), &src)?;
  ensure!(s1 == want, "parse mismatch", "{:?}\n{src}", diff(&want, &s1));
  let t1 = or("print", print(&p1), "")?;
  let p2 = or("printed text rejected", parse(&t1), &t1)?;
  let s2 = or("invalid program", extract(&p2), &src)?;
  ensure!(s2 == want, "round trip mismatch", "{:?}\n{t1}", diff(&want, &s2));
  let t2 = or("print", print(&p2), "")?;
  ensure!(t1 == t2, "no fixpoint", "first print:\n{t1}\nsecond print:\n{t2}");
  Ok(())
}
