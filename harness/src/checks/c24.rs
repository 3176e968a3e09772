//! C24: what printers do with the writer they are given.

use super::util::*;
use crate::api::{build, Opts};
use crate::checks::c09::print_llvm;
use crate::ensure;
use crate::gen::*;
use crate::runner::*;
use crate::tape::Tape;
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::ir::Program;
use std::io::{Error, ErrorKind, Write};

pub fn check() -> Check {
  Check {
    id: "C24",
    rule: "generated programs printed in both forms to writers that take a few bytes at a time and \
           report interruptions, and to writers that fail (with an error of a random kind, or by taking \
           nothing) once or for ever after a random number of bytes, the first and the last ones more often; the outcome and \
           the bytes written are compared with the whole text; non-trivial = a failure after at least one byte \
           in a text of at least 100 bytes",
    quick: 400_000,
    thorough: 16_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["a writer that failed is not used again by the same generator"],
  }
}

#[derive(Debug, Clone, Copy)]
enum How {
  Never,
  Err(ErrorKind),
  Nothing,
}

struct W {
  got: Shared,
  /// Bytes taken per call, in turn.
  steps: Vec<usize>,
  calls: usize,
  interrupts: bool,
  fail_at: usize,
  how: How,
  /// Fails only once.
  once: bool,
  failed: usize,
}

impl Write for W {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if self.interrupts && self.calls % 3 == 1 {
      return Err(Error::from(ErrorKind::Interrupted));
    }
    if b.is_empty() {
      return Ok(0);
    }
    let have = self.got.0.borrow().len();
    let mut n = b.len();
    if !self.steps.is_empty() {
      n = n.min(self.steps[self.calls % self.steps.len()]);
    }
    if !matches!(self.how, How::Never) && !(self.once && self.failed > 0) {
      if have >= self.fail_at {
        self.failed += 1;
        return match self.how {
          How::Err(k) => Err(Error::new(k, "planned")),
          _ => Ok(0),
        };
      }
      n = n.min(self.fail_at - have);
    }
    self.got.0.borrow_mut().extend(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

fn go(p: &Program, ll: bool, w: W) -> std::io::Result<()> {
  if ll {
    LlvmGenerator::new(w).generate_on(p)
  } else {
    KoopaGenerator::new(w).generate_on(p)
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut it = t.fork(30);
  let ll = it.chance(50);
  let mut cfg = Cfg::api();
  (cfg.max_funcs, cfg.max_blocks, cfg.max_insts) = (3, 4, 5);
  if it.chance(30) {
    cfg.names = Names::Text;
  }
  let s = gen_spec(t, &cfg);
  let (p, _) = build(&s, Opts { share_consts: it.chance(40), ..Opts::default() });
  let full = or("print", if ll { print_llvm(&p) } else { print(&p) }, "")?.into_bytes();
  let shown = String::from_utf8_lossy(&full).into_owned();
  let n = full.len();
  // the operands of phi functions come in no particular order
  let same = |got: &[u8]| got.len() <= n && (ll && shown.contains(" phi ") || got == &full[..got.len()]);
  let steps: Vec<usize> =
    if it.chance(60) { (0..it.range(1, 4)).map(|_| it.range(1, 9)).collect() } else { vec![] };
  let interrupts = it.chance(30);
  let how = match it.weighted(&[2, 6, 2]) {
    0 => How::Never,
    1 => How::Err(*it.pick(&[
      ErrorKind::Other,
      ErrorKind::BrokenPipe,
      ErrorKind::StorageFull,
      ErrorKind::WouldBlock,
      ErrorKind::PermissionDenied,
      ErrorKind::UnexpectedEof,
    ])),
    _ => How::Nothing,
  };
  let fail_at = match it.below(5) {
    0 => it.below(20).min(n),
    1 => n.saturating_sub(it.below(6)),
    _ => it.below(n + 1),
  };
  let once = it.chance(50);
  c.describe(format!("llvm={ll} steps={steps:?} interrupts={interrupts} {how:?} at {fail_at} of {n} once={once}\n{shown}"));
  let out = Shared::default();
  let w = W { got: out.clone(), steps, calls: 0, interrupts, fail_at, how, once, failed: 0 };
  let r = go(&p, ll, w);
  let got = out.0.borrow().clone();
  let bad = !matches!(how, How::Never) && fail_at < n;
  c.nontrivial = bad && fail_at > 0 && n >= 100;
  c.class(if ll { "LLVM" } else { "Koopa" });
  c.class_if(interrupts, "interruptions");
  if !bad {
    c.class("no failure");
    ensure!(r.is_ok(), "refused", "{r:?}\n{shown}");
    ensure!(
      got.len() == n && same(&got),
      "other text",
      "{shown}\n--- became ---\n{}",
      String::from_utf8_lossy(&got)
    );
    return Ok(());
  }
  c.class_if(matches!(how, How::Nothing), "writers that take nothing");
  let kind = match how {
    How::Err(k) => k,
    _ => ErrorKind::WriteZero,
  };
  match r {
    Ok(()) => return fail("failure lost", format!("the writer failed after {fail_at} of {n} bytes\n{shown}")),
    Err(e) => ensure!(
      e.kind() == kind,
      "other error",
      "{:?} instead of {kind:?} after {fail_at} of {n} bytes\n{shown}",
      e.kind()
    ),
  }
  ensure!(
    got.len() == fail_at && same(&got),
    "other bytes",
    "{} bytes written, failed after {fail_at}\n{shown}\n--- written ---\n{}",
    got.len(),
    String::from_utf8_lossy(&got)
  );
  Ok(())
}
