//! C16: structural equality of values.

use crate::hist::{equal_pairs, Eng};
use crate::runner::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C16",
    rule: "values of all kinds grown by random requests and by near-copies (a copy of a value with \
           operands replaced by equal ones, and at most one field changed); all pairs are compared \
           with a comparison of the model's trees; non-trivial = at least 8 values, with two \
           different ones equal and a near-copy unequal",
    quick: 960_000,
    thorough: 38_400_000,
    tape: 360,
    run,
    fixed: None,
    assumptions: &["values do not use each other in a cycle"],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut e = Eng::new(t, c);
  let r = equal_pairs(&mut e);
  e.finish();
  r
}
