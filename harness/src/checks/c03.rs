//! C03: the in-memory program is what the text says.

use super::util::*;
use crate::extract::{check_types, check_uses, extract};
use crate::gen::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::{ensure, text};
use koopa::front::span::Span;

pub fn check() -> Check {
  Check {
    id: "C03",
    rule: "legal programs with unreachable blocks, blocks in any order and integer literals in \
           any spelling (leading zeros, wrapping values), in a random layout; the program built \
           is compared with the generated model; non-trivial = at least four instructions and a \
           branch, an aggregate, a call or an unreachable block",
    quick: 240_000,
    thorough: 9_600_000,
    tape: 600,
    run,
    fixed: None,
    assumptions: &["the generated model is the meaning of the generated text"],
  }
}

/// Programs of thousands of entities.
fn big(t: &mut Tape, c: &mut Case) -> Res {
  let mut s = super::c08::with_decls(&gen_big(t));
  s.strip_local_names();
  c.nontrivial = true;
  c.class("thousands of entities");
  let toks = text::tokens(t, &s).0;
  let (src, _) = {
    let style = t.below(2);
    text::layout(t, &toks, style)
  };
  c.describe(format!("{} globals, {} functions, {} instructions", s.globals.len(), s.funcs.len(), s.n_insts()));
  let p = or("text rejected", parse(&src), "")?;
  let mut got = or("invalid program", extract(&p), "")?;
  or("ill typed", check_types(&got), "")?;
  or("bad use lists", check_uses(&p), "")?;
  s.canon_blocks();
  got.strip_local_names();
  ensure!(got == s, "wrong program", "{:?}", diff(&s, &got));
  ensure!(Span::warning_num() == 0, "wrong warnings", "{} warnings", Span::warning_num());
  Ok(())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut it = t.fork(40);
  if it.below(6000) == 5999 {
    return big(t, c);
  }
  let mut cfg = Cfg::text();
  cfg.unreachable = true;
  if it.chance(20) {
    (cfg.max_blocks, cfg.max_insts) = (24, 4);
  }
  let s = gen_spec(t, &cfg);
  let mut toks = text::tokens(t, &s).0;
  // other spellings of the same 32-bit integers
  let mut prev = String::new();
  for k in &mut toks {
    let is_len = prev == ",";
    if let Ok(v) = k.s.parse::<i32>() {
      // array lengths stay as they are (a comma and a closing bracket around)
      let pos = it.below(12);
      if !is_len || v <= 0 {
        k.s = match pos {
          9 => format!("{}", v as i64 + (1i64 << 32)),
          10 => format!("{}", v as i64 - (1i64 << 32) * 3),
          11 if v >= 0 => format!("00{v}"),
          11 => format!("-0{}", -(v as i64)),
          _ => k.s.clone(),
        };
      }
    }
    prev = k.s.clone();
  }
  let (src, _) = text::layout(t, &toks, 1);
  c.describe(src.clone());
  let dead: usize = s.funcs.iter().map(|f| f.blocks.len() - f.bfs().len()).sum();
  let calls = s
    .funcs
    .iter()
    .flat_map(|f| &f.blocks)
    .flat_map(|b| &b.insts)
    .any(|i| matches!(i.kind, Kind::Call(..) | Kind::Br(..)));
  c.nontrivial = s.n_insts() >= 4 && (dead > 0 || calls);
  c.class_if(dead > 0, "unreachable blocks");
  c.class_if(calls, "calls or branches");
  let p = or("text rejected", parse(&src), &src)?;
  let nw = Span::warning_num();
  let got = or("invalid program", extract(&p), &src)?;
  or("ill typed", check_types(&got), &src)?;
  or("bad use lists", check_uses(&p), &src)?;
  let mut want = s.clone();
  want.canon_blocks();
  want.strip_temp_names();
  ensure!(got == want, "wrong program", "{:?}\n{src}", diff(&want, &got));
  ensure!(nw == dead, "wrong warnings", "{nw} warnings for {dead} unreachable blocks\n{src}");
  Ok(())
}
