//! C04: exactly the well-formed programs are accepted.

use super::util::*;
use crate::extract::{check_types, check_uses, extract};
use crate::gen::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::{ensure, mutate, reff, text};
use koopa::front::span::Span;

pub fn check() -> Check {
  Check {
    id: "C04",
    rule: "token lists of well-formed programs with 0-3 mutations (symbols exchanged, tokens, \
           list elements, types, statements and items dropped, repeated, replaced or moved), in a \
           random layout; the verdict and the program are compared with an independent reference \
           front end; non-trivial = the text scans into at least 12 tokens and was mutated",
    quick: 480_000,
    thorough: 19_200_000,
    tape: 400,
    run,
    fixed: None,
    assumptions: &["the reference front end (reff.rs) decides what is well-formed"],
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut mt = t.fork(40);
  let mut cfg = Cfg::text();
  cfg.unreachable = true;
  cfg.max_funcs = 3;
  cfg.max_blocks = 5;
  cfg.max_insts = 5;
  let s = gen_spec(t, &cfg);
  let mut k = text::tokens(t, &s).0;
  let n = mt.weighted(&[1, 6, 3, 1]);
  for _ in 0..n {
    c.class(mutate::mutate(&mut mt, &mut k));
  }
  let style = if mt.chance(50) { 1 } else { 0 };
  let (src, _) = text::layout(t, &k, style);
  c.describe(src.clone());
  c.nontrivial = n > 0 && k.len() >= 12;
  let want = reff::front(src.as_bytes());
  let (got, n_err, n_warn) = quiet(|| {
    let r = parse(&src);
    (r, Span::error_num(), Span::warning_num())
  });
  compare(c, &src, want, got, n_err, n_warn)
}

pub fn compare(
  c: &mut Case,
  src: &str,
  want: reff::R<reff::Outcome>,
  got: Result<koopa::ir::Program, String>,
  n_err: usize,
  n_warn: usize,
) -> Res {
  match (want, got) {
    (Err(_), Err(_)) => {
      c.class("rejected");
      ensure!(n_err > 0, "rejected without error", "no error was counted\n{src}");
    }
    (Ok(_), Err(m)) => return fail("rejects legal", format!("a legal program is rejected: {m}\n{src}")),
    (Err(m), Ok(_)) => return fail("accepts illegal", format!("accepted, but: {m}\n{src}")),
    (Ok(w), Ok(p)) => {
      c.class("accepted");
      let e = or("invalid program", extract(&p), src)?;
      or("invalid program", check_types(&e), src)?;
      or("bad use lists", check_uses(&p), src)?;
      ensure!(e == w.spec, "wrong program", "{:?}\n{src}", diff(&w.spec, &e));
      ensure!(
        n_warn == w.unreachable.len(),
        "wrong warnings",
        "{n_warn} warnings for {} unreachable blocks\n{src}",
        w.unreachable.len()
      );
    }
  }
  Ok(())
}
