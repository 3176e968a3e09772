//! Histories of calls of the interface of source positions and diagnostics.
//! They run in this process and in one whose front end has no logger.

use crate::tape::Tape;
use koopa::front::span::{Error, FileType, Pos, Span};
use koopa::{
  log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning,
  return_error,
};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
  /// Writes the file with the given number.
  Write(usize, Vec<u8>),
  Remove(usize),
  /// Forgets all diagnostics, and names what later ones are about.
  Reset(About),
  /// Adds a position, at the start.
  Pos,
  /// Adds a copy of a position.
  Copy(usize),
  /// Advances a position over a text.
  Over(usize, String),
  Lines(usize, u32),
  Cols(usize, u32),
  /// Adds a range.
  Span(usize),
  DefaultSpan,
  Update(usize, usize),
  Updated(usize, usize),
  UpdateSpan(usize, usize),
  UpdatedSpan(usize, usize),
  SameLine(usize, usize),
  /// Logs something about a range; through a macro or not.
  Log(Level, usize, String, bool),
  RawLog(Level, String, bool),
  ReturnError(usize, String),
  Global,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Level {
  Error,
  Fatal,
  Warning,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum About {
  File(usize),
  Stdin,
  Buffer,
  Missing,
  Dir,
}

pub struct Paths(PathBuf);

impl Paths {
  pub fn new(id: u32) -> Paths {
    Paths(std::env::temp_dir().join(format!("kv-c26-{id}")))
  }
  pub fn dir(&self) -> &Path {
    &self.0
  }
  pub fn file(&self, n: usize) -> PathBuf {
    self.0.join(["a.koopa", "b c", "é:7.txt"][n % 3])
  }
  pub fn missing(&self) -> PathBuf {
    self.0.join("none")
  }
}

/// A message.
fn message(t: &mut Tape) -> String {
  match t.below(6) {
    0 => "m".into(),
    1 => format!("expected '{}'", t.below(100)),
    2 => String::new(),
    3 => "error: warning: {} \t %s".into(),
    4 => "ünï".into(),
    _ => "two\nlines".into(),
  }
}

/// A line of a file.
fn line(t: &mut Tape) -> Vec<u8> {
  let mut v = vec![];
  let odd = t.chance(6);
  for _ in 0..t.below(14) {
    match t.weighted(&[8, 3, 2, 1]) {
      0 => v.push(b"abcxyz%@=,:()"[t.below(13)]),
      1 => v.push(b' '),
      2 => v.push(b'\t'),
      _ if odd => v.extend([&b"\xc3\xa4"[..], b"\xe2\x82\xac", b"\xff", b"\xc3"][t.below(4)]),
      _ => v.push(b'0' + t.below(10) as u8),
    }
  }
  if t.chance(8) {
    v.push(b'\r');
  }
  v
}

/// The content of a file with about the given number of lines.
fn content(t: &mut Tape, n: usize) -> Vec<u8> {
  let mut pool: Vec<Vec<u8>> = (0..n.clamp(1, 12)).map(|_| line(t)).collect();
  // a long line
  if n <= 40 && t.chance(4) {
    let to = [t.range(240, 270), t.range(990, 1010), t.range(65_525, 65_545)][t.weighted(&[6, 3, 1])];
    let l = t.below(pool.len());
    if !pool[l].is_empty() {
      pool[l] = pool[l].iter().copied().filter(|b| b.is_ascii() && *b != b'\r').chain([b' ']).cycle().take(to).collect();
    }
  }
  let mut v = vec![];
  let numbered = t.chance(70);
  for i in 0..n {
    if numbered && n > 12 {
      v.extend(format!("l{}\t", i + 1).bytes());
    }
    v.extend(&pool[(i * 7 + i / 5) % pool.len()]);
    if i + 1 < n || t.chance(70) {
      v.push(b'\n');
    }
  }
  v
}

/// A number of lines: often around a power of ten.
fn far(t: &mut Tape) -> u32 {
  match t.weighted(&[8, 3, 2, 1, 1]) {
    0 => t.below(8) as u32,
    1 => t.range(6, 12) as u32,
    2 => t.range(96, 103) as u32,
    3 => t.range(996, 1003) as u32,
    _ => [t.range(9_996, 10_003), t.range(99_996, 100_003), t.range(13, 40), t.range(65_530, 65_540), t.range(250, 260)][t.weighted(&[4, 2, 6, 1, 2])] as u32,
  }
}

/// Positions `(line, column)`, as the history makes them.
pub type At = (u32, u32);

/// The ranges of a history: starts and ends.
#[derive(Default, Clone)]
pub struct Model {
  pub pos: Vec<At>,
  pub spans: Vec<(At, At)>,
}

impl Model {
  pub fn step(&mut self, op: &Op) {
    match op {
      Op::Pos => self.pos.push((1, 0)),
      Op::Copy(i) => self.pos.push(self.pos[*i]),
      Op::Over(i, s) => {
        for c in s.chars() {
          let p = &mut self.pos[*i];
          *p = if c == '\n' { (p.0 + 1, 0) } else { (p.0, p.1 + 1) };
        }
      }
      Op::Lines(i, 0) | Op::Cols(i, 0) => _ = i,
      Op::Lines(i, n) => self.pos[*i] = (self.pos[*i].0 + n, 0),
      Op::Cols(i, n) => self.pos[*i].1 += n,
      Op::Span(i) => self.spans.push((self.pos[*i], self.pos[*i])),
      Op::DefaultSpan => self.spans.push(((1, 0), (1, 0))),
      Op::Update(s, i) => self.spans[*s].1 = self.pos[*i],
      Op::Updated(s, i) => self.spans.push((self.spans[*s].0, self.pos[*i])),
      Op::UpdateSpan(a, b) => self.spans[*a].1 = self.spans[*b].1,
      Op::UpdatedSpan(a, b) => self.spans.push((self.spans[*a].0, self.spans[*b].1)),
      _ => {}
    }
  }
}

/// A history, of any length the tape is good for.
pub fn history(t: &mut Tape) -> Vec<Op> {
  let mut ops = vec![];
  let mut m = Model::default();
  // the widths of the lines of the files, and the file logged about
  let mut all: [Vec<u32>; 3] = Default::default();
  let mut cur = 0;
  let push = |op: Op, m: &mut Model, ops: &mut Vec<Op>| {
    m.step(&op);
    ops.push(op);
  };
  let write = |t: &mut Tape, widths: &mut Vec<u32>| {
    let n = if t.chance(25) { far(t) as usize } else if t.chance(5) { 0 } else { t.range(1, 14) };
    let text = content(t, n);
    *widths = text.split(|b| *b == b'\n').map(|l| l.len() as u32).collect();
    text
  };
  let text = write(t, &mut all[0]);
  push(Op::Reset(About::File(0)), &mut m, &mut ops);
  push(Op::Write(0, text), &mut m, &mut ops);
  push(Op::Pos, &mut m, &mut ops);
  push(Op::Span(0), &mut m, &mut ops);
  let n = t.range(4, 40) * t.growth(4);
  for _ in 0..n {
    if t.exhausted() {
      break;
    }
    let (np, ns) = (m.pos.len(), m.spans.len());
    let widths = all[cur].clone();
    if t.chance(40) {
      // a range of the current file, logged
      let col = |t: &mut Tape, l: u32| {
        let w = widths.get(l as usize - 1).copied().unwrap_or(0) as usize;
        if w > 0 && t.chance(95) { t.range(1, w) as u32 } else { t.range(1, 9) as u32 }
      };
      // mostly not behind the last line break
      let n = widths.len().saturating_sub(t.chance(95) as usize).max(1);
      let from = t.range(1, n) as u32;
      let most = n as u32 - from;
      let to = from + match t.below(3) {
        0 => 0,
        1 => t.below(most as usize + 1) as u32,
        _ => far(t).min(most),
      };
      let (mut a, mut b) = (col(t, from), col(t, to));
      if from == to && a > b {
        (a, b) = (b, a);
      }
      for op in [
        Op::Pos,
        Op::Lines(np, from - 1),
        Op::Cols(np, a),
        Op::Span(np),
        Op::Pos,
        Op::Lines(np + 1, to - 1),
        Op::Cols(np + 1, b),
        Op::Update(ns, np + 1),
        Op::Log(*t.pick(&[Level::Error, Level::Fatal, Level::Warning]), ns, message(t), t.chance(50)),
      ] {
        push(op, &mut m, &mut ops);
      }
      continue;
    }
    let op = match t.weighted(&[3, 1, 3, 3, 4, 3, 4, 6, 3, 3, 3, 2, 20, 3, 2, 2, 2]) {
      0 => {
        let f = t.below(3);
        if t.chance(15) { Op::Remove(f) } else { Op::Write(f, write(t, &mut all[f])) }
      }
      1 => Op::Reset(match t.weighted(&[6, 1, 1, 1, 1]) {
        0 => {
          cur = t.below(3);
          About::File(cur)
        }
        1 => About::Stdin,
        2 => About::Buffer,
        3 => About::Missing,
        _ => About::Dir,
      }),
      2 => Op::Pos,
      3 => Op::Copy(t.below(np)),
      4 => {
        let n = t.below(10);
        let s: String = (0..n).map(|_| *t.pick(&['a', ' ', '\n', '\t', '\r', 'é', '\u{85}', '\u{2028}', '\u{b}', '\0'])).collect();
        Op::Over(t.below(np), s)
      }
      5 => Op::Lines(t.below(np), far(t)),
      6 => {
        let i = t.below(np);
        // mostly inside of the line
        let w = widths.get(m.pos[i].0 as usize - 1).copied().unwrap_or(0).saturating_sub(m.pos[i].1);
        let n = if t.chance(90) { t.below(w as usize + 1) as u32 } else { far(t) };
        Op::Cols(i, n)
      }
      7 => Op::Span(t.below(np)),
      8 => Op::Update(t.below(ns), t.below(np)),
      9 => Op::Updated(t.below(ns), t.below(np)),
      10 => {
        if t.chance(50) {
          Op::UpdateSpan(t.below(ns), t.below(ns))
        } else {
          Op::UpdatedSpan(t.below(ns), t.below(ns))
        }
      }
      11 => Op::SameLine(t.below(ns), t.below(ns)),
      12 | 14 | 15 => {
        // a range that does not end before it starts
        let ok: Vec<usize> = (0..ns).filter(|i| m.spans[*i].0 <= m.spans[*i].1).collect();
        let Some(i) = (!ok.is_empty()).then(|| ok[t.below(ok.len())]) else { continue };
        let s = message(t);
        match t.below(8) {
          0 => Op::ReturnError(i, s),
          k => Op::Log([Level::Error, Level::Fatal, Level::Warning][k % 3], i, s, t.chance(50)),
        }
      }
      13 => Op::RawLog(*t.pick(&[Level::Error, Level::Fatal, Level::Warning]), message(t), t.chance(50)),
      16 => if t.chance(50) { Op::Global } else { Op::DefaultSpan },
      _ => unreachable!(),
    };
    push(op, &mut m, &mut ops);
  }
  ops
}

fn show(e: &Error) -> String {
  format!("{e:?} {}", e.is_fatal())
}

/// Runs a history, and reports what the calls return.
pub fn exec(ops: &[Op], paths: &Paths) -> String {
  let _ = std::fs::create_dir_all(paths.dir());
  let (mut pos, mut spans): (Vec<Pos>, Vec<Span>) = (vec![], vec![]);
  let mut out = String::new();
  for op in ops {
    let mut say = String::new();
    match op {
      Op::Write(f, text) => std::fs::write(paths.file(*f), text).unwrap(),
      Op::Remove(f) => _ = std::fs::remove_file(paths.file(*f)),
      Op::Reset(a) => Span::reset(match a {
        About::File(f) => FileType::File(paths.file(*f)),
        About::Stdin => FileType::Stdin,
        About::Buffer => FileType::Buffer,
        About::Missing => FileType::File(paths.missing()),
        About::Dir => FileType::File(paths.dir().into()),
      }),
      Op::Pos => pos.push(if pos.len() % 2 == 0 { Pos::new() } else { Pos::default() }),
      Op::Copy(i) => pos.push(pos[*i]),
      Op::Over(i, s) => s.chars().for_each(|c| pos[*i].update(c)),
      Op::Lines(i, n) => (0..*n).for_each(|_| pos[*i].update('\n')),
      Op::Cols(i, n) => (0..*n).for_each(|_| pos[*i].update('x')),
      Op::Span(i) => spans.push(Span::new(pos[*i])),
      Op::DefaultSpan => spans.push(Span::default()),
      Op::Update(s, i) => {
        let p = pos[*i];
        spans[*s].update(p);
      }
      Op::Updated(s, i) => spans.push(spans[*s].into_updated(pos[*i])),
      Op::UpdateSpan(a, b) => {
        let b = spans[*b];
        spans[*a].update_span(b);
      }
      Op::UpdatedSpan(a, b) => spans.push(spans[*a].into_updated_span(spans[*b])),
      Op::SameLine(a, b) => say = spans[*a].is_in_same_line_as(&spans[*b]).to_string(),
      Op::Log(l, s, msg, mac) => {
        let s = spans[*s];
        say = match (l, mac) {
          (Level::Error, false) => show(&s.log_error(format_args!("{msg}"))),
          (Level::Error, true) => show(&log_error!(s, "{}", msg)),
          (Level::Fatal, false) => show(&s.log_fatal_error(format_args!("{msg}"))),
          (Level::Fatal, true) => show(&log_fatal_error!(s, "{msg}")),
          (Level::Warning, false) => {
            s.log_warning(format_args!("{msg}"));
            String::new()
          }
          (Level::Warning, true) => {
            log_warning!(s, "{}", msg);
            String::new()
          }
        };
      }
      Op::RawLog(l, msg, mac) => {
        say = match (l, mac) {
          (Level::Error, false) => show(&Span::log_raw_error(format_args!("{msg}"))),
          (Level::Error, true) => show(&log_raw_error!("{}", msg)),
          (Level::Fatal, false) => show(&Span::log_raw_fatal_error(format_args!("{msg}"))),
          (Level::Fatal, true) => show(&log_raw_fatal_error!("{msg}")),
          (Level::Warning, false) => {
            Span::log_raw_warning(format_args!("{msg}"));
            String::new()
          }
          (Level::Warning, true) => {
            log_raw_warning!("{}", msg);
            String::new()
          }
        };
      }
      Op::ReturnError(s, msg) => {
        let s = spans[*s];
        let f = || -> Result<u8, Error> {
          return_error!(s, "{}", msg);
        };
        say = match f() {
          Ok(_) => "ok".into(),
          Err(e) => show(&e),
        };
      }
      Op::Global => Span::log_global(),
    }
    let (p, s) = (pos.last(), spans.last());
    out.push_str(&format!(
      "{} {s:?} {} {} {say}\n",
      p.map(|p| p.to_string()).unwrap_or_default(),
      Span::error_num(),
      Span::warning_num()
    ));
  }
  for (p, s) in pos.iter().zip(&spans) {
    out.push_str(&format!("{p} {s:?}\n"));
  }
  for f in 0..3 {
    let _ = std::fs::remove_file(paths.file(f));
  }
  let _ = std::fs::remove_dir(paths.dir());
  out
}

/// What `exec` reports, in a front end with or without logger.
pub fn expect(ops: &[Op], paths: &Paths, logger: bool) -> String {
  let mut m = Model::default();
  let mut out = String::new();
  let (mut es, mut ws) = (0, 0);
  let mut about = About::Buffer;
  let at = |p: At| format!("{}:{}", p.0, p.1);
  let range = |s: &(At, At)| format!("{}-{}", at(s.0), at(s.1));
  for op in ops {
    m.step(op);
    let mut say = String::new();
    let error = |fatal: bool, msg: &str| {
      let n = if fatal { "Fatal" } else { "Normal" };
      if logger { format!("{n} {fatal}") } else { format!("{n}({msg:?}) {fatal}") }
    };
    let placed = |s: usize, msg: &str| format!("{}:{}: {msg}", name(about, paths), at(m.spans[s].0));
    match op {
      Op::Reset(a) => (about, es, ws) = (*a, 0, 0),
      Op::SameLine(a, b) => say = (m.spans[*a].1 .0 == m.spans[*b].0 .0).to_string(),
      Op::Log(Level::Warning, ..) | Op::RawLog(Level::Warning, ..) => ws += 1,
      Op::Log(l, s, msg, _) => {
        es += 1;
        say = error(*l == Level::Fatal, &placed(*s, msg));
      }
      Op::ReturnError(s, msg) => {
        es += 1;
        say = error(false, &placed(*s, msg));
      }
      Op::RawLog(l, msg, _) => {
        es += 1;
        say = error(*l == Level::Fatal, msg);
      }
      _ => {}
    }
    let p = m.pos.last().map(|p| at(*p)).unwrap_or_default();
    let s = match m.spans.last() {
      Some(s) => format!("Some({})", range(s)),
      None => "None".into(),
    };
    out.push_str(&format!("{p} {s} {es} {ws} {say}\n"));
  }
  for (p, s) in m.pos.iter().zip(&m.spans) {
    out.push_str(&format!("{} {}\n", at(*p), range(s)));
  }
  out
}

pub fn name(a: About, paths: &Paths) -> String {
  match a {
    About::File(f) => paths.file(f).display().to_string(),
    About::Stdin => "<stdin>".into(),
    About::Buffer => "<buffer>".into(),
    About::Missing => paths.missing().display().to_string(),
    About::Dir => paths.dir().display().to_string(),
  }
}
