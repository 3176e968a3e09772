//! C05: definitions and uses under edits of the data flow graph.

use crate::hist::{history, Weights};
use crate::runner::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C05",
    rule: "edit histories of up to 60 steps (new, copied, replaced, updated, removed values and \
           blocks, names, parameters, over several functions and globals) decoded from a random \
           tape; after each step every value, block and user set is compared with a model; \
           non-trivial = at least 12 logged steps",
    quick: 600_000,
    thorough: 24_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["no value uses itself", "block and function parameters are not replaced"],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let steps = t.range(10, 60);
  history(t, c, &Weights { values: 12, layout: 1, program: 2, wild: 8, steps })
}
