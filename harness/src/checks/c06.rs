//! C06: order and parents under edits of the layout.

use crate::hist::{history, Weights};
use crate::runner::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C06",
    rule: "edit histories of up to 70 steps, mostly of the layout (push, insert, pop, remove, clear \
           and move blocks and instructions, through lists and cursors), mixed with edits of values; \
           after each step the whole layout is compared with lists; non-trivial = at least 12 \
           logged steps",
    quick: 500_000,
    thorough: 20_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["an instruction is only inserted into a block while it is in no other block"],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let steps = t.range(10, 70);
  history(t, c, &Weights { values: 3, layout: 12, program: 1, wild: 4, steps })
}
