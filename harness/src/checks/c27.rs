//! C27: items are understood one by one.

use crate::cap::capture;
use crate::ensure;
use crate::gen::*;
use crate::runner::*;
use crate::serve::{answer, Answer};
use crate::tape::Tape;
use crate::{mutate, text};
use koopa::front::ast::AstKind;
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{FileType, Span};
use std::collections::{HashMap, HashSet};

pub fn check() -> Check {
  Check {
    id: "C27",
    rule: "two to four programs without common names, each with 0-3 mutations of its tokens a small correct \
           item before and after each, one after the other in one text; diagnostics (messages, positions, counts) and program are compared with \
           those of the parts alone; non-trivial = at least two parts with more than these items, \
           of which all but the last end where an item can begin",
    quick: 400_000,
    thorough: 16_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &[],
  }
}

/// A diagnostic: line, column, and what is said.
type Diag = (u32, u32, String);

/// The diagnostics with a position, and the number of those without.
fn diags(err: &str) -> Result<(Vec<Diag>, usize), String> {
  let lines: Vec<&str> = err.lines().collect();
  let mut v = vec![];
  let mut bare = 0;
  for (i, l) in lines.iter().enumerate() {
    if !(l.starts_with("error: ") || l.starts_with("warning: ")) {
      continue;
    }
    if l.contains("too many errors") {
      bare += 1;
      continue;
    }
    let at = lines.get(i + 1).and_then(|a| a.strip_prefix("  at <buffer>:")?.split_once(':'));
    let Some((a, b)) = at.and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))) else {
      return Err(format!("no position after {l:?}"));
    };
    v.push((a, b, l.to_string()));
  }
  Ok((v, bare))
}

/// Renames what is global in some part.
fn rename(toks: &mut [text::Tok], global: &HashSet<String>, n: usize) {
  for k in toks {
    if k.s.len() > 1 && k.s.starts_with(['@', '%']) && global.contains(&k.s) {
      k.s.insert_str(1, &format!("zq{n}_"));
    }
  }
}

/// Repeats, removes or moves an item, or gives it the name of another.
fn items(t: &mut Tape, toks: &mut Vec<text::Tok>) {
  let mut starts: Vec<usize> =
    (0..toks.len()).filter(|i| matches!(toks[*i].s.as_str(), "global" | "fun" | "decl")).collect();
  if starts.is_empty() {
    return;
  }
  starts.push(toks.len());
  let n = starts.len() - 1;
  let (i, j) = (t.below(n), t.below(n + 1));
  let (from, to) = (starts[i], starts[i + 1]);
  match t.below(4) {
    0 | 1 => {
      let item = toks[from..to].to_vec();
      toks.splice(starts[j]..starts[j], item);
    }
    2 => _ = toks.drain(from..to),
    _ => {
      if let (Some(k), true) = (toks.get(starts[j.min(n - 1)] + 1).cloned(), from + 1 < to) {
        toks[from + 1] = k;
      }
    }
  }
}

/// Does the text begin with something the scanner accepts, and does it end
/// where an item can begin?
fn ends_well(src: &str) -> (bool, bool) {
  let text = format!("{src}global @zq_end = alloc i32, 0\n");
  capture(|| {
    Span::reset(FileType::Buffer);
    let Ok(mut p) = Parser::new(Lexer::new(text.as_bytes())) else { return (false, false) };
    // the last two items
    let mut last = (false, false);
    loop {
      match p.parse_next() {
        Err(_) => return (true, false),
        Ok(a) => match &a.kind {
          AstKind::End(_) => return (true, last == (true, true)),
          AstKind::GlobalDef(g) => last = (last.1, g.name == "@zq_end"),
          AstKind::FunDef(f) => last = (last.1, f.name.starts_with("@zq") && f.name.ends_with("_t")),
          AstKind::FunDecl(f) => last = (last.1, f.name.starts_with("@zq") && f.name.ends_with("_t")),
          _ => last = (false, false),
        },
      }
    }
  })
  .0
}

/// The globals of a printed program, and everything else.  Temporary names
/// are counted anew in each function.
fn split(text: &str) -> (Vec<String>, Vec<String>) {
  let mut globals = vec![];
  let mut funcs = vec![];
  let mut temps: HashMap<&str, usize> = HashMap::new();
  for l in text.lines() {
    if l.starts_with("global ") {
      globals.push(l.to_string());
    } else if !l.is_empty() {
      if l.starts_with("fun ") {
        temps.clear();
      }
      let mut s = String::new();
      let mut parts = l.split('%');
      s.push_str(parts.next().unwrap());
      for p in parts {
        let word = p.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(p.len());
        if p[..word].bytes().all(|b| b.is_ascii_digit()) {
          let n = temps.len();
          s.push_str(&format!("%{}{}", temps.entry(&p[..word]).or_insert(n), &p[word..]));
        } else {
          s.push_str(&format!("%{p}"));
        }
      }
      funcs.push(s);
    }
  }
  (globals, funcs)
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let n = t.range(2, 4);
  let mut parts: Vec<String> = vec![];
  let mut full = 0;
  let mut whole_ends = true;
  let mut lists = vec![];
  let mut firsts: Vec<Vec<text::Tok>> = vec![];
  let mut global = HashSet::new();
  for i in 0..n {
    let mut mt = t.fork(45);
    let mut pt = t.fork(t.rest() / (n - i));
    let mut cfg = Cfg::text();
    (cfg.max_funcs, cfg.max_blocks, cfg.max_insts, cfg.unreachable) = (2, 4, 4, true);
    let s = gen_spec(&mut pt, &cfg);
    let mut toks = text::tokens(&mut pt, &s).0;
    if !lists.is_empty() && mt.chance(40) {
      // the same program, with the same local names
      toks = firsts[mt.below(firsts.len())].clone();
    }
    firsts.push(toks.clone());
    for _ in 0..mt.weighted(&[12, 2, 1]) {
      items(&mut mt, &mut toks);
    }
    for _ in 0..mt.weighted(&[4, 4, 2, 1]) {
      mutate::mutate(&mut mt, &mut toks);
    }
    full += !toks.is_empty() as usize;
    if mt.chance(4) {
      for k in 0..mt.range(8, 18) {
        for s in ["global", &format!("@bad{k}"), "=", "alloc", "i32", ",", "{"] {
          toks.push(text::Tok { s: s.into(), sp: text::Sp::Any });
        }
      }
    }
    // (what the scanner rejects in between is skipped)
    let mut next = false;
    for k in &toks {
      if k.s.starts_with(['@', '%']) && next {
        global.insert(k.s.clone());
      }
      next &= !matches!(k.s.as_str(), "=" | "(");
      next |= matches!(k.s.as_str(), "global" | "fun" | "decl");
    }
    lists.push((toks, pt, mt.chance(50), mt.chance(40)));
  }
  for (i, (mut toks, mut pt, style, tail)) in lists.into_iter().enumerate() {
    rename(&mut toks, &global, i);
    let (src, _) = text::layout(&mut pt, &toks, style as usize);
    // parts begin and end with something that is correct
    let src = format!("decl @zq{i}_d()\n{src}");
    let src = src + &if tail { format!("\nfun @zq{i}_t() {{\n%e:\n  ret\n}}\n") } else { format!("\ndecl @zq{i}_t()\n") };
    let (begins, ends) = ends_well(&src);
    if !begins {
      break;
    }
    parts.push(src);
    if !ends {
      whole_ends = false;
      break;
    }
  }
  let whole: String = parts.concat();
  c.describe(whole.clone());
  if parts.len() < 2 {
    c.class("one part");
    return Ok(());
  }
  c.nontrivial = full >= 2;
  let ask = |s: &str| -> Result<(Answer, Vec<Diag>, usize), Fail> {
    let (a, err) = capture(|| answer(s.as_bytes()));
    match diags(&err) {
      Ok((d, bare)) => Ok((a, d, bare)),
      Err(e) => fail("no position", format!("{e}\n{s}\n--- printed ---\n{err}")),
    }
  };
  let (all, got, bare) = ask(&whole)?;
  let mut rest = &got[..];
  let (mut lines, mut es, mut ws) = (0, 0, 0);
  let (mut globals, mut funcs) = (vec![], vec![]);
  let mut oks = 0;
  for (i, p) in parts.iter().enumerate() {
    let (a, mut want, stopped) = ask(p)?;
    for d in &mut want {
      d.0 += lines;
    }
    lines += p.bytes().filter(|b| *b == b'\n').count() as u32;
    let errors = want.iter().filter(|d| d.2.starts_with("error")).count();
    let over = es + errors > 20;
    es += errors;
    ws += want.len() - errors;
    let n = want.len().min(rest.len());
    let (mut x, mut y) = (want.clone(), rest[..n].to_vec());
    x.sort();
    y.sort();
    if over || stopped > 0 {
      // given up somewhere inside of this part
      c.class("given up");
      let mut left = x.clone();
      for d in &y {
        match left.iter().position(|l| l == d) {
          Some(i) => _ = left.remove(i),
          None => return fail("diagnostics differ", format!("{d:?} is not said about part {i} alone, {x:#?}\n{whole}")),
        }
      }
      let told = got.iter().filter(|d| d.2.starts_with("error")).count();
      ensure!(told > 20, "given up early", "given up after {told} errors\n{whole}");
      // the last part may also end at something that is no item
      ensure!(bare == 1 || !whole_ends, "not given up", "{told} errors, {bare} times given up\n{whole}");
      ensure!(n == rest.len(), "diagnostics differ", "{:?} is said later\n{whole}", &rest[n..]);
      return Ok(());
    }
    ensure!(
      x == y,
      "diagnostics differ",
      "about part {i} alone:\n{x:#?}\nin the whole text:\n{y:#?}\n{whole}"
    );
    rest = &rest[n..];
    oks += a.ok as usize;
    let (g, f) = split(&a.text);
    if a.ok {
      globals.extend(g);
      funcs.extend(f);
    }
    c.class_if(errors > 0 && i + 1 < parts.len(), "errors before another part");
    c.class_if(errors > 0 && i > 0, "errors behind another part");
  }
  ensure!(rest.is_empty(), "diagnostics differ", "said in addition: {rest:#?}\n{whole}");
  ensure!(bare == 0, "given up early", "given up after {es} errors\n{whole}");
  ensure!(
    (all.errors, all.warnings) == (es as u32, ws as u32),
    "wrong counts",
    "{} errors and {} warnings, but {es} and {ws} alone\n{whole}",
    all.errors,
    all.warnings
  );
  ensure!(all.ok == (oks == parts.len()), "verdict", "accepted: {}, alone {oks} of {}\n{whole}", all.ok, parts.len());
  c.class_if(all.ok, "accepted");
  if all.ok {
    let (g, f) = split(&all.text);
    ensure!(
      g == globals && f == funcs,
      "program differs",
      "{}\nbut alone\n{}\n{}\n{whole}",
      all.text,
      globals.join("\n"),
      funcs.join("\n")
    );
  }
  Ok(())
}
