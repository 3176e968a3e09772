//! C20: tokens and their positions.

use crate::reff::{self, T};
use crate::gen::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::{ensure, mutate, text};
use koopa::front::lexer::Lexer;
use koopa::front::token::TokenKind;

pub fn check() -> Check {
  Check {
    id: "C20",
    rule: "token lists (legal programs, damaged ones and soups) laid out with random white space \
           and comments, and byte noise; tokens and spans are compared with the layout that placed \
           them and with an independent scanner, also after lexical errors; non-trivial = at least 10 tokens",
    quick: 900_000,
    thorough: 36_000_000,
    tape: 300,
    run,
    fixed: None,
    assumptions: &["outside of comments texts have no letters or digits that are not ASCII"],
  }
}

fn word(k: &TokenKind) -> T {
  match k {
    TokenKind::Int(i) => T::Int(*i),
    TokenKind::Symbol(s) => T::Sym(s.clone()),
    TokenKind::Keyword(k) => T::Word(k.to_string()),
    TokenKind::BinaryOp(b) => T::Word(b.to_string()),
    TokenKind::Other(c) => T::Ch(*c),
    TokenKind::End => T::End,
  }
}

fn span(s: (u32, u32), e: (u32, u32)) -> String {
  format!("{}:{}-{}:{}", s.0, s.1, e.0, e.1)
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut mt = t.fork(60);
  let syms: Vec<String> =
    ["@a", "%b", "%0", "%12", "@main", "%entry_1", "@_", "%x9Z"].map(String::from).to_vec();
  let mut laid = None;
  let src: Vec<u8> = match mt.weighted(&[4, 3, 2]) {
    0 => {
      c.class("programs");
      let mut cfg = Cfg::text();
      (cfg.max_funcs, cfg.max_blocks) = (2, 4);
      let s = gen_spec(t, &cfg);
      let mut k = text::tokens(t, &s).0;
      if mt.chance(50) {
        mutate::mutate(&mut mt, &mut k);
      }
      let (s, pos) = text::layout(t, &k, 1);
      laid = Some((k, pos));
      s.into_bytes()
    }
    1 => {
      c.class("soups");
      let n = mt.below(60) * t.growth(20);
      let k: Vec<_> = (0..n)
        .map(|_| text::Tok { s: mutate::random_tok(&mut mt, &syms), sp: text::Sp::Any })
        .collect();
      let (s, pos) = text::layout(t, &k, 1);
      laid = Some((k, pos));
      s.into_bytes()
    }
    _ => {
      c.class("bytes");
      let n = t.below(120) * t.growth(20);
      (0..n)
        .map(|_| match t.below(4) {
          0 => *t.pick(b" \t\n\r/**/@%-_()"),
          1 => *t.pick(b"01239"),
          2 => *t.pick(b"abiZz_"),
          // white space and signs of Latin-1, control characters
          3 if t.chance(10) => *t.pick(&[0x85, 0xa0, 0xa9, 0xd7, 0x80, 0, 7, 0x7f, 0x1b]),
          _ => t.range(9, 126) as u8,
        })
        .collect()
    }
  };
  let shown = String::from_utf8_lossy(&src).into_owned();
  c.describe(shown.clone());
  let mut lx = Lexer::new(std::io::Cursor::new(&src[..]));
  let mut n = 0;
  let mut errs = 0;
  let mut toks = vec![];
  let mut sc = reff::Scan::new(&src);
  loop {
    let from = sc.i;
    let Some(k) = sc.next() else { break };
    // an error may end inside of what was a comment
    let odd = |b: &u8| !b.is_ascii() && (*b as char).is_alphanumeric();
    if errs > 0 && src[from..src.len().min(sc.i + 1)].iter().any(odd) {
      return Ok(());
    }
    let g = lx.next_token();
    let k = match k {
      Ok(k) => k,
      Err((msg, at)) => {
        ensure!(g.is_err(), "accepts bad token", "no error for {msg} at {at:?}\n{shown}");
        errs += 1;
        continue;
      }
    };
    match g {
      Ok(g) => {
        ensure!(
          word(&g.kind) == k.t,
          "wrong token",
          "token #{n} is {:?}, not {:?}\n{shown}",
          g.kind,
          k.t
        );
        let w = span(k.start, k.end);
        let got = format!("{:?}", g.span);
        ensure!(w == got, "wrong span", "token #{n} ({:?}) is at {got}, not {w}\n{shown}", k.t);
      }
      Err(_) => return fail("rejects token", format!("token #{n} ({:?}) is an error\n{shown}", k.t)),
    }
    n += 1;
    toks.push(k);
  }
  c.nontrivial = n >= 10;
  c.class_if(errs > 0, "lexical errors");
  c.class_if(errs > 0 && n > 10, "tokens besides lexical errors");
  // the layout knows where each token is, independently of the scanner
  if let Some((k, pos)) = laid.filter(|_| errs == 0) {
    let real = toks.len() - 1;
    if real == k.len() {
      for (i, p) in pos.iter().enumerate() {
        ensure!(
          (toks[i].start, toks[i].end) == *p,
          "scanner mismatch",
          "harness: token #{i} {:?} placed at {p:?}, scanned at {:?}\n{shown}",
          k[i],
          toks[i]
        );
      }
    }
  }
  for _ in 0..2 {
    let k = lx.next_token();
    ensure!(
      k.as_ref().is_ok_and(|k| k.kind == TokenKind::End),
      "end not stable",
      "no end of file after the end of file\n{shown}"
    );
  }
  Ok(())
}
