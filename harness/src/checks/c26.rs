//! C26: positions, ranges, and what is printed about them.

use super::c21::nolog;
use crate::cap::capture;
use crate::ensure;
use crate::runner::*;
use crate::serve::Job;
use crate::spans::*;
use crate::tape::Tape;

pub fn check() -> Check {
  Check {
    id: "C26",
    rule: "histories of up to 40 calls (up to 160 on long tapes) that advance positions, combine ranges and log about \
           them, while the files they are about are written and removed; lines around powers of ten, \
           tabs, carriage returns, bytes that are no text, columns behind the line and lines behind the file; \
           everything returned and everything printed is compared with a model, and the returned values also \
           in a front end built without logger; non-trivial = at least one range logged",
    quick: 120_000,
    thorough: 9_600_000,
    tape: 220,
    run,
    fixed: None,
    assumptions: &["no range that is logged ends before it starts"],
  }
}

/// The lines of a file, and whether they are all ASCII.
struct Lines(Vec<Vec<u8>>);

impl Lines {
  fn new(text: &[u8]) -> Lines {
    let mut v: Vec<Vec<u8>> = text.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    if v.last().is_some_and(|l| l.is_empty()) {
      v.pop();
    }
    for l in &mut v {
      if l.last() == Some(&b'\r') {
        l.pop();
      }
    }
    Lines(v)
  }
  fn raw(&self, n: u32) -> &[u8] {
    self.0.get(n as usize - 1).map_or(&[], |l| l)
  }
  fn line(&self, n: u32) -> String {
    String::from_utf8_lossy(self.raw(n)).replace('\t', "  ")
  }
  /// How many columns there are up to the given one, as shown; `None` if
  /// that is not settled.
  fn col(&self, n: u32, c: u32) -> Option<usize> {
    let l = self.raw(n);
    let l = l.get(..c as usize)?;
    l.is_ascii().then(|| l.len() + l.iter().filter(|b| **b == b'\t').count())
  }
}

/// What is printed: lines given, or of marks that are not settled.
enum Out {
  Is(String),
  Marks,
}

fn snippet(f: &Lines, (from, to): (At, At)) -> Vec<Out> {
  let w = to.0.to_string().len();
  let mut v = vec![Out::Is(format!("{:w$} |", ""))];
  if from.0 == to.0 {
    v.push(Out::Is(format!("{:w$} | {}", from.0, f.line(from.0))));
    v.push(match (f.col(from.0, from.1), f.col(to.0, to.1)) {
      (Some(a), Some(b)) => {
        Out::Is(format!("{:w$} | {}{}", "", " ".repeat(a - 1), "^".repeat(b - a + 1)))
      }
      _ => Out::Marks,
    });
    return v;
  }
  let marks = |lead: &str, c: Option<usize>| match c {
    Some(c) => Out::Is(format!("{:w$} {lead}{}^", "", "_".repeat(c))),
    None => Out::Marks,
  };
  let mid = |n: u32| Out::Is(format!("{n:w$} | | {}", f.line(n)));
  v.push(Out::Is(format!("{:w$} |   {}", from.0, f.line(from.0))));
  v.push(marks("|  ", f.col(from.0, from.1)));
  if to.0 - from.0 <= 5 {
    v.extend((from.0 + 1..to.0).map(mid));
  } else {
    v.extend((from.0 + 1..from.0 + 3).map(mid));
    v.push(Out::Is(format!("{} | |", ".".repeat(w))));
    v.push(mid(to.0 - 1));
  }
  v.push(mid(to.0));
  v.push(marks("| |", f.col(to.0, to.1)));
  v
}

fn plural(n: u32, w: &str) -> Option<String> {
  (n > 0).then(|| format!("{n} {w}{}", if n > 1 { "s" } else { "" }))
}

/// Everything a history prints.
fn printed(ops: &[Op], paths: &Paths, c: &mut Case) -> Vec<Out> {
  let mut m = Model::default();
  let mut files: [Option<Lines>; 3] = [None, None, None];
  let mut about = About::Buffer;
  let (mut es, mut ws) = (0, 0);
  let mut out = vec![];
  for op in ops {
    m.step(op);
    let (level, span, msg) = match op {
      Op::Write(f, text) => {
        files[*f] = Some(Lines::new(text));
        continue;
      }
      Op::Remove(f) => {
        files[*f] = None;
        continue;
      }
      Op::Reset(a) => {
        (about, es, ws) = (*a, 0, 0);
        continue;
      }
      Op::Global => {
        let n: Vec<String> = plural(es, "error").into_iter().chain(plural(ws, "warning")).collect();
        // what is said about nothing is not settled
        out.push(if n.is_empty() { Out::Marks } else { Out::Is(format!("{} emitted", n.join(" and "))) });
        c.class_if(es > 0 && ws > 0, "both counted");
        continue;
      }
      Op::Log(l, s, msg, _) => (*l, Some(m.spans[*s]), msg),
      Op::ReturnError(s, msg) => (Level::Error, Some(m.spans[*s]), msg),
      Op::RawLog(l, msg, _) => (*l, None, msg),
      _ => continue,
    };
    let word = if level == Level::Warning {
      ws += 1;
      "warning"
    } else {
      es += 1;
      "error"
    };
    out.extend(format!("{word}: {msg}").split('\n').map(|l| Out::Is(l.into())));
    let Some(s) = span else { continue };
    c.nontrivial = true;
    out.push(Out::Is(format!("  at {}:{}:{}", name(about, paths), s.0 .0, s.0 .1)));
    c.class_if(level == Level::Fatal, "fatal");
    if s.0 .1 > 0 && s.1 .1 > 0 {
      match about {
        About::File(f) => {
          if let Some(f) = &files[f] {
            out.extend(snippet(f, s));
            c.class(if s.0 .0 == s.1 .0 { "one line" } else { "several lines" });
            c.class_if(s.1 .0 - s.0 .0 > 5, "lines left out");
            c.class_if(s.1 .0 >= 9 && (s.1 .0 + 1).to_string().ends_with('0'), "a power of ten");
            c.class_if(s.1 .0 as usize > f.0.len(), "behind the file");
            c.class_if(s.1 .1 as usize > f.raw(s.1 .0).len(), "behind the line");
          }
        }
        // a directory can be opened; how its lines are shown is not settled
        About::Dir => {
          out.extend(snippet(&Lines::new(&[]), s));
          c.class("a directory");
        }
        _ => {}
      }
    }
    out.push(Out::Is(String::new()));
  }
  out
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let words = t.words().to_vec();
  let ops = history(t);
  let paths = Paths::new(std::process::id());
  let text = ops.iter().map(|o| format!("{o:?}\n")).collect::<String>();
  c.describe(text);
  let (got, err) = capture(|| exec(&ops, &paths));
  let want = expect(&ops, &paths, true);
  let differ = |want: &str, got: &str| {
    let i = want.lines().zip(got.lines()).position(|(a, b)| a != b).unwrap_or(0);
    let n = |s: &str| s.lines().nth(i).unwrap_or("").to_string();
    format!("call {i} {:?}\nexpected {}\ngot      {}", ops.get(i), n(want), n(got))
  };
  ensure!(got == want, "wrong result", "{}\n{ops:#?}", differ(&want, &got));
  let wanted = printed(&ops, &paths, c);
  let err = err.strip_suffix('\n').unwrap_or(&err);
  let lines: Vec<&str> = if err.is_empty() && wanted.is_empty() { vec![] } else { err.split('\n').collect() };
  let all = || {
    let w: Vec<&str> = wanted.iter().map(|o| if let Out::Is(s) = o { s } else { "<marks>" }).collect();
    format!("--- expected ---\n{}\n--- printed ---\n{err}\n{ops:#?}", w.join("\n"))
  };
  for (i, w) in wanted.iter().enumerate() {
    let l = lines.get(i).copied();
    match w {
      Out::Is(s) => ensure!(
        l == Some(s) || (l.is_none() && s.is_empty()),
        "wrong output",
        "line {i} is {l:?} and not {s:?}\n{}",
        all()
      ),
      Out::Marks => ensure!(l.is_some(), "wrong output", "no line {i}\n{}", all()),
    }
  }
  ensure!(lines.len() <= wanted.len(), "wrong output", "too much is printed\n{}", all());
  // without the logger
  let mut bytes = std::process::id().to_le_bytes().to_vec();
  bytes.extend(words.iter().flat_map(|w| w.to_le_bytes()));
  match nolog(&bytes, Job::Spans) {
    Err(e) => return fail("nolog dies", format!("the front end without logger dies: {e}\n{ops:#?}")),
    Ok(a) => {
      let want = expect(&ops, &paths, false);
      ensure!(a.text == want, "nolog differs", "without logger: {}\n{ops:#?}", differ(&want, &a.text));
    }
  }
  Ok(())
}
