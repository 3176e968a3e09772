//! C07: builders accept exactly the well-typed requests.

use crate::hist::{history, Weights};
use crate::runner::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C07",
    rule: "histories of up to 50 builder requests over operands of every type, most with at least \
           one doubtful operand, name, target or count; the verdict and the type are compared with \
           the documented rules, and the program with a model after each request; non-trivial = \
           at least 12 logged requests",
    quick: 500_000,
    thorough: 20_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["names of block parameters are valid"],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let steps = t.range(10, 50);
  history(t, c, &Weights { values: 10, layout: 0, program: 4, wild: 65, steps })
}
