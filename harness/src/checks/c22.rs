//! C22: program-level edits.

use crate::hist::{history, Weights};
use crate::runner::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C22",
    rule: "edit histories of up to 60 steps, mostly of the program (add, name and remove globals, \
           constants and functions in every form), mixed with edits inside functions; after each \
           step the whole program is compared with a model; non-trivial = at least 12 logged steps",
    quick: 500_000,
    thorough: 20_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["global values used by a removed function may still list its values"],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let steps = t.range(10, 60);
  history(t, c, &Weights { values: 6, layout: 1, program: 10, wild: 15, steps })
}
