//! C21: diagnostics count and point at what is wrong, and the front end built
//! without its logger decides alike.

use super::util::ask_variant;
use crate::cap::capture;
use crate::gen::*;
use crate::runner::*;
use crate::serve::{job, Job, answer, Client};
use crate::tape::Tape;
use crate::{ensure, mutate, reff, text};
use std::cell::RefCell;

pub fn check() -> Check {
  Check {
    id: "C21",
    rule: "legal programs (some with unreachable blocks), and programs with 1-4 token mutations, \
           in a random layout, from strings, files and readers that fail; everything printed to standard error is captured and compared with \
           the counters and with the positions an independent front end computes, and the same \
           text is given to a process whose front end is built with `no-front-logger` (the messages of its scanner included); \
           non-trivial = at least one diagnostic",
    quick: 240_000,
    thorough: 9_600_000,
    tape: 350,
    run,
    fixed: None,
    assumptions: &[],
  }
}

thread_local! {
  static NOLOG: RefCell<Option<Client>> = const { RefCell::new(None) };
}

pub fn nolog(src: &[u8], job: Job) -> Result<crate::serve::Answer, String> {
  ask_variant(&NOLOG, "KV_NOLOG", src, job)
}

fn pos(l: &str) -> Option<(u32, u32)> {
  let r = l.trim().strip_prefix("at <buffer>:")?;
  let (l, c) = r.split_once(':')?;
  Some((l.parse().ok()?, c.parse().ok()?))
}

/// The lines of a file as they are shown, and what is shown below them.
struct Shown<'a> {
  lines: Vec<&'a str>,
}

impl<'a> Shown<'a> {
  fn new(src: &'a str) -> Self {
    let mut lines: Vec<&str> =
      src.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    if src.is_empty() || src.ends_with('\n') {
      lines.pop();
    }
    Shown { lines }
  }
  fn line(&self, n: u32) -> String {
    self.lines.get(n as usize - 1).unwrap_or(&"").replace('\t', "  ")
  }
  fn ascii(&self, from: u32, to: u32) -> bool {
    (from..=to).all(|n| self.lines.get(n as usize - 1).is_none_or(|l| l.is_ascii()))
  }
  /// The column at which a column of the text is shown.
  fn col(&self, n: u32, c: u32) -> usize {
    let l = self.lines.get(n as usize - 1).unwrap_or(&"");
    let c = (c as usize).min(l.len());
    c + l.as_bytes()[..c].iter().filter(|b| **b == b'\t').count()
  }
  /// Where a range that is shown to end at the given column may end.
  fn ends(&self, n: u32, shown: usize) -> Vec<(u32, u32)> {
    let l = self.lines.get(n as usize - 1).unwrap_or(&"").as_bytes();
    let mut v = vec![];
    let mut at = 0;
    for c in 0..=l.len() + 2 {
      if c > 0 && c <= l.len() {
        at += if l[c - 1] == b'\t' { 2 } else { 1 };
      }
      if at == shown {
        v.push((n, c as u32));
      }
    }
    v
  }
}

/// What is shown of a file below a diagnostic at the given position: checks
/// it, and returns the possible ends of the range that is marked.
fn snippet(f: &Shown, at: (u32, u32), out: &[&str]) -> Result<Option<Vec<(u32, u32)>>, String> {
  if out.is_empty() {
    return Ok(None);
  }
  if at.1 == 0 {
    return Err("a snippet without a column".into());
  }
  let digits = |n: u32| n.to_string().len();
  let (start, from) = at;
  let lead = f.col(start, from);
  if out.len() == 3 {
    let w = digits(start);
    let marks = out[2].trim_start_matches(|c| c == ' ' || c == '|').len();
    let want = [
      format!("{:w$} |", ""),
      format!("{start:w$} | {}", f.line(start)),
      format!("{:w$} | {}{}", "", " ".repeat(lead.saturating_sub(1)), "^".repeat(marks.max(1))),
    ];
    if f.ascii(start, start) && out != want {
      return Err(format!("shows {out:#?} and not {want:#?}"));
    }
    if !f.ascii(start, start) {
      return Ok(None);
    }
    return Ok(Some(f.ends(start, lead.max(1) + marks.max(1) - 1)));
  }
  if out.len() < 5 {
    return Err(format!("shows {} lines", out.len()));
  }
  let end: u32 = out[out.len() - 2]
    .trim()
    .split(' ')
    .next()
    .and_then(|n| n.parse().ok())
    .ok_or("no number on the last line")?;
  if end <= start {
    return Err("the last line is not below the first".into());
  }
  if !f.ascii(start, end) {
    return Ok(None);
  }
  let w = digits(end);
  let mid = |n: u32| format!("{n:w$} | | {}", f.line(n));
  let mut want = vec![
    format!("{:w$} |", ""),
    format!("{start:w$} |   {}", f.line(start)),
    format!("{:w$} |  {}^", "", "_".repeat(lead)),
  ];
  if end - start - 1 <= 4 {
    want.extend((start + 1..end).map(mid));
  } else {
    want.extend((start + 1..start + 3).map(mid));
    want.push(format!("{} | |", ".".repeat(w)));
    want.push(mid(end - 1));
  }
  want.push(mid(end));
  let marks = out[out.len() - 1].matches('_').count();
  want.push(format!("{:w$} | |{}^", "", "_".repeat(marks)));
  if out != want {
    return Err(format!("shows {out:#?} and not {want:#?}"));
  }
  Ok(Some(f.ends(end, marks)))
}

/// A message, its position, and the ends of the range it marks.
type Diag = (String, (u32, u32), Option<Vec<(u32, u32)>>);

/// The diagnostics about a file.
fn of_file(src: &str, path: &str, err: &str) -> Result<Vec<Diag>, String> {
  let shown = Shown::new(src);
  let lines: Vec<&str> = err.split('\n').collect();
  let mut v = vec![];
  let mut i = 0;
  while i < lines.len() {
    let l = lines[i];
    i += 1;
    if !(l.starts_with("error: ") || l.starts_with("warning: ")) || l.contains("too many errors") {
      continue;
    }
    let at = lines
      .get(i)
      .and_then(|a| a.strip_prefix("  at ")?.strip_prefix(path)?.strip_prefix(':'))
      .and_then(|p| {
        let (a, b) = p.split_once(':')?;
        Some((a.parse().ok()?, b.parse().ok()?))
      })
      .ok_or_else(|| format!("no position in {path} after {l:?}"))?;
    let from = i + 1;
    i = from;
    while i < lines.len() && !lines[i].is_empty() {
      i += 1;
    }
    let ends = snippet(&shown, at, &lines[from..i]).map_err(|e| format!("{l}\n{at:?}: {e}"))?;
    v.push((l.to_string(), at, ends));
  }
  Ok(v)
}

fn plural(n: u32, w: &str) -> String {
  format!("{n} {w}{}", if n == 1 { "" } else { "s" })
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut mt = t.fork(60);
  let mut cfg = Cfg::text();
  (cfg.max_funcs, cfg.max_blocks, cfg.max_insts, cfg.unreachable) = (3, 5, 5, true);
  let s = gen_spec(t, &cfg);
  let mut toks = text::tokens(t, &s).0;
  for _ in 0..mt.weighted(&[2, 5, 2, 2, 1]) {
    mutate::mutate(&mut mt, &mut toks);
  }
  if mt.chance(10) {
    // an error per item: enough for the limit
    let n = mt.range(15, 30);
    for i in 0..n {
      let bad = if mt.chance(50) { "x" } else { "{" };
      for s in ["global", &format!("@bad{i}"), "=", "alloc", "i32", ",", bad] {
        toks.push(text::Tok { s: s.into(), sp: text::Sp::Any });
      }
    }
  }
  if mt.chance(6) {
    // more warnings than the limit of errors
    let n = mt.range(15, 30);
    for s in ["fun", "@manywarnings", "(", ")", "{", "%entry", ":", "ret"] {
      toks.push(text::Tok { s: s.into(), sp: text::Sp::Any });
    }
    for i in 0..n {
      toks.push(text::Tok { s: format!("%dead{i}"), sp: text::Sp::Newline });
      for s in [":", "ret"] {
        toks.push(text::Tok { s: s.into(), sp: text::Sp::Any });
      }
    }
    toks.push(text::Tok { s: "}".into(), sp: text::Sp::Newline });
  }
  let file = mt.chance(30);
  let style = if mt.chance(60) { 1 } else { 0 };
  let (src, _) = text::layout(t, &toks, style);
  c.describe(src.clone());
  let (a, err) = capture(|| answer(src.as_bytes()));
  let show = || format!("{src}\n--- printed ---\n{err}");
  // counters and printed diagnostics
  let lines: Vec<&str> = err.lines().collect();
  let es = lines.iter().filter(|l| l.starts_with("error: ")).count() as u32;
  let ws = lines.iter().filter(|l| l.starts_with("warning: ")).count() as u32;
  ensure!(
    (es, ws) == (a.errors, a.warnings),
    "wrong counts",
    "{es} errors and {ws} warnings printed, {} and {} counted\n{}",
    a.errors,
    a.warnings,
    show()
  );
  ensure!(a.ok == (es == 0), "verdict", "accepted: {} with {es} errors\n{}", a.ok, show());
  c.nontrivial = es + ws > 0;
  c.class_if(es > 0, "errors");
  c.class_if(ws > 0, "warnings");
  c.class_if(es > 20, "too many errors");
  c.class_if(ws > 20, "many warnings");
  let aborted = lines.iter().any(|l| l.contains("too many errors"));
  // every diagnostic has its position in the text
  let mut ats = vec![];
  let n_lines = src.bytes().filter(|b| *b == b'\n').count() as u32 + 1;
  let widths: Vec<u32> = src.split('\n').map(|l| l.len() as u32).collect();
  for (i, l) in lines.iter().enumerate() {
    let warn = l.starts_with("warning: ");
    if !(l.starts_with("error: ") || warn) || l.contains("too many errors") {
      continue;
    }
    let Some(p) = lines.get(i + 1).and_then(|l| pos(l)) else {
      return fail("no position", format!("no position after {l:?}\n{}", show()));
    };
    ensure!(
      p.0 >= 1 && p.0 <= n_lines && p.1 <= widths[p.0 as usize - 1] + 1,
      "position outside",
      "{p:?} is outside the text\n{}",
      show()
    );
    ats.push((warn, p, *l));
  }
  // the same text from a file: the same diagnostics, and the text they are about
  let mut marked: Vec<Diag> = vec![];
  if file {
    let path = std::env::temp_dir().join(format!("kv-c21-{}", std::process::id()));
    let name = path.display().to_string();
    std::fs::write(&path, &src).unwrap();
    let (f, ferr) = capture(|| {
      koopa::front::Driver::from_path(&path).map(crate::serve::answer_of)
    });
    let _ = std::fs::remove_file(&path);
    let Ok(f) = f else {
      return fail("no file", "cannot open an existing file");
    };
    ensure!(f == a, "file differs", "{f:?} from a file, but {a:?}\n{}", show());
    marked = match of_file(&src, &name, &ferr) {
      Ok(v) => v,
      Err(e) => return fail("wrong snippet", format!("{e}\n{src}\n--- printed ---\n{ferr}")),
    };
    let mut x: Vec<_> = marked.iter().map(|m| (m.1, m.0.as_str())).collect();
    let mut y: Vec<_> = ats.iter().map(|m| (m.1, m.2)).collect();
    x.sort();
    y.sort();
    ensure!(x == y, "file differs", "{x:?}\nfrom a file, but\n{y:?}\n{}", show());
    c.class_if(marked.iter().any(|m| m.2.is_some()), "snippets");
  }
  let ends_at = |m: &Diag, end: (u32, u32)| m.2.as_ref().is_none_or(|e| e.contains(&end));
  let first_marked = marked.iter().find(|m| m.0.starts_with("error"));
  let first = ats.iter().find(|x| !x.0).map(|x| x.1);
  match reff::diagnose(src.as_bytes()) {
    Ok(o) => {
      let mut want: Vec<_> = o.unreachable.iter().map(|u| u.1 .0).collect();
      let mut got: Vec<_> = ats.iter().filter(|x| x.0).map(|x| x.1).collect();
      want.sort();
      got.sort();
      ensure!(
        es == 0 && want == got,
        "wrong warnings",
        "unreachable blocks at {want:?}, warnings at {got:?}\n{}",
        show()
      );
      for m in &marked {
        let b = o.unreachable.iter().find(|u| u.1 .0 == m.1).unwrap();
        ensure!(
          ends_at(m, b.1 .1),
          "wrong end",
          "the block is at {:?}, but {:?} to {:?} is marked\n{}",
          b.1,
          m.1,
          m.2,
          show()
        );
      }
      for (n, p) in &o.unreachable {
        ensure!(
          ats.iter().any(|x| x.0 && x.1 == p.0 && x.2.contains(&format!("'{n}'"))),
          "wrong warnings",
          "no warning names {n} at {p:?}\n{}",
          show()
        );
      }
    }
    Err(w) => {
      let Some(p) = first else {
        return fail("no error", format!("{}, but no error\n{}", w.msg(), show()));
      };
      match w {
        reff::Wrong::Syntax { msg, rg, scanner } => {
          c.class("syntax errors");
          if let (Some(m), false) = (first_marked, scanner) {
            ensure!(
              ends_at(m, rg.1),
              "wrong end",
              "{msg} at {rg:?}, but {:?} to {:?} is marked\n{}",
              m.1,
              m.2,
              show()
            );
          }
          ensure!(
            p == rg.0,
            "syntax error misplaced",
            "first error is at {p:?}; {msg} at {rg:?}\n{}",
            show()
          );
        }
        reff::Wrong::Semantic { problems, item } => {
          c.class("semantic errors");
          ensure!(
            item.0 <= p && p <= item.1,
            "semantic error misplaced",
            "first error is at {p:?}; {} in {item:?}\n{}",
            problems[0].msg,
            show()
          );
          // every complaint about the first wrong item has a reason
          let here: Vec<_> =
            ats.iter().filter(|x| !x.0).take_while(|x| item.0 <= x.1 && x.1 <= item.1).collect();
          for x in &here {
            ensure!(
              problems.iter().any(|q| if q.exact {
                q.rg.0 == x.1
              } else {
                q.rg.0 <= x.1 && x.1 <= q.rg.1
              }),
              "semantic error misplaced",
              "nothing is wrong at {:?} ({})\n{}",
              x.1,
              x.2,
              show()
            );
          }
          for m in marked
            .iter()
            .filter(|m| m.0.starts_with("error"))
            .take_while(|m| item.0 <= m.1 && m.1 <= item.1)
          {
            let fits = |q: &reff::Problem| {
              if q.exact {
                q.rg.0 == m.1 && ends_at(m, q.rg.1)
              } else {
                q.rg.0 <= m.1
                  && m.1 <= q.rg.1
                  && m.2.as_ref().is_none_or(|e| e.iter().any(|e| m.1 <= *e && *e <= q.rg.1))
              }
            };
            ensure!(
              problems.iter().any(fits),
              "wrong end",
              "nothing is wrong from {:?} to {:?} ({})\n{}",
              m.1,
              m.2,
              m.0,
              show()
            );
          }
          // and everything that is wrong with it is complained about
          for q in problems.iter().filter(|q| q.primary) {
            ensure!(
              here.iter().any(|x| q.within.0 <= x.1 && x.1 <= q.within.1),
              "error not reported",
              "no error in {:?}, but {}\n{}",
              q.within,
              q.msg,
              show()
            );
          }
        }
      }
    }
  }
  // the summary
  let sum: Vec<&&str> = lines.iter().filter(|l| l.ends_with(" emitted")).collect();
  if !aborted && es + ws > 0 && !sum.is_empty() {
    let mut w = vec![];
    if es > 0 {
      w.push(plural(es, "error"));
    }
    if ws > 0 {
      w.push(plural(ws, "warning"));
    }
    let w = format!("{} emitted", w.join(" and "));
    ensure!(sum.len() == 1 && *sum[0] == w, "wrong summary", "{sum:?}, not {w:?}\n{}", show());
  }
  ensure!(es + ws > 0 || err.is_empty(), "noise", "printed without a diagnostic\n{}", show());
  // without the logger
  match nolog(src.as_bytes(), Job::Parse) {
    Err(e) => return fail("nolog dies", format!("the front end without logger dies: {e}\n{src}")),
    Ok(b) => {
      ensure!(
        (b.ok, b.errors, b.warnings) == (a.ok, a.errors, a.warnings),
        "nolog differs",
        "with logger: {:?}\nwithout: {:?}\n{src}",
        (a.ok, a.errors, a.warnings),
        (b.ok, b.errors, b.warnings)
      );
      ensure!(!a.ok || a.text == b.text, "nolog program", "{}\nvs\n{}\n{src}", a.text, b.text);
    }
  }
  if mt.chance(10) {
    c.class("broken readers");
    broken(&src, mt.below(src.len() + 2) as u32)?;
  }
  if mt.chance(10) {
    c.class("scanner without logger");
    lexed(&src)?;
  }
  Ok(())
}

/// A reader that fails: one more error, and no program.
fn broken(src: &str, at: u32) -> Res {
  let (a, err) = capture(|| job(src.as_bytes(), Job::Broken(at)));
  let show = || format!("reader fails after {at} bytes\n{src}\n--- printed ---\n{err}");
  let es = err.lines().filter(|l| l.starts_with("error: ")).count() as u32;
  let ws = err.lines().filter(|l| l.starts_with("warning: ")).count() as u32;
  ensure!((es, ws) == (a.errors, a.warnings), "wrong counts", "{es} errors and {ws} warnings printed, {a:?}\n{}", show());
  ensure!(a.ok == (es == 0), "verdict", "accepted: {} with {es} errors\n{}", a.ok, show());
  if at as usize <= src.len() {
    // unless it stops earlier for another error, the failure is reported
    let hit = err.lines().any(|l| l == "error: broken");
    ensure!(!a.ok && (hit || es > 0), "failure lost", "the failure of the reader is not reported\n{}", show());
  }
  match nolog(src.as_bytes(), Job::Broken(at)) {
    Err(e) => return fail("nolog dies", format!("the front end without logger dies: {e}\n{}", show())),
    Ok(b) => ensure!(
      (b.ok, b.errors, b.warnings) == (a.ok, a.errors, a.warnings),
      "nolog differs",
      "with logger: {:?}\nwithout: {:?}\n{}",
      (a.ok, a.errors, a.warnings),
      (b.ok, b.errors, b.warnings),
      show()
    ),
  }
  Ok(())
}

/// The errors returned without the logger say what is printed with it.
fn lexed(src: &str) -> Res {
  // texts with something wrong in them
  let src: String = src
    .chars()
    .enumerate()
    .map(|(i, c)| if i % 37 == 11 && !c.is_whitespace() { ['@', '-', '/', 'q'][i % 4] } else { c })
    .collect();
  let (a, err) = capture(|| job(src.as_bytes(), Job::Lex));
  let show = || format!("scanned\n{src}\n--- printed ---\n{err}");
  let lines: Vec<&str> = err.lines().collect();
  let mut want = vec![];
  for (i, l) in lines.iter().enumerate() {
    if let Some(m) = l.strip_prefix("error: ") {
      let Some(p) = lines.get(i + 1).and_then(|l| pos(l)) else {
        return fail("no position", format!("no position after {l:?}\n{}", show()));
      };
      want.push(format!("<buffer>:{}:{}: {m}", p.0, p.1));
    }
  }
  ensure!(want.len() as u32 == a.errors, "wrong counts", "{} printed, {} counted\n{}", want.len(), a.errors, show());
  match nolog(src.as_bytes(), Job::Lex) {
    Err(e) => fail("nolog dies", format!("the front end without logger dies: {e}\n{}", show())),
    Ok(b) => {
      ensure!(
        (b.errors, b.warnings, b.text.lines().count()) == (a.errors, a.warnings, a.text.lines().count()),
        "nolog differs",
        "{a:?}\nand without logger\n{b:?}\n{}",
        show()
      );
      for (w, l) in want.iter().zip(b.text.lines()) {
        let w = format!("false Normal({w:?})");
        ensure!(w == l, "other message", "{w} with the logger, {l} without\n{}", show());
      }
      Ok(())
    }
  }
}
