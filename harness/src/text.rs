//! Renders a `Spec` as text-form Koopa IR, independently of the library's own
//! generator, with arbitrary legal spacing and comments.

use crate::spec::*;
use crate::tape::Tape;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
  /// Any whitespace (or none where tokens stay apart).
  Any,
  /// Must be on the line of the previous token.
  Same,
  /// Must be on a later line than the previous token.
  Newline,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
  pub s: String,
  pub sp: Sp,
}

#[derive(Default)]
pub struct Toks(pub Vec<Tok>);

impl Toks {
  pub fn p(&mut self, s: &str) {
    self.0.push(Tok { s: s.into(), sp: Sp::Any });
  }
  pub fn same(&mut self, s: &str) {
    self.0.push(Tok { s: s.into(), sp: Sp::Same });
  }
}

fn ty(o: &mut Toks, t: &Ty) {
  match t {
    Ty::I32 => o.p("i32"),
    Ty::Unit => o.p("unit"),
    Ty::Arr(b, n) => {
      o.p("[");
      ty(o, b);
      o.p(",");
      o.p(&n.to_string());
      o.p("]");
    }
    Ty::Ptr(b) => {
      o.p("*");
      ty(o, b);
    }
    Ty::Fun(ps, r) => {
      o.p("(");
      for (i, p) in ps.iter().enumerate() {
        if i > 0 {
          o.p(",");
        }
        ty(o, p);
      }
      o.p(")");
      if !r.is_unit() {
        o.p(":");
        ty(o, r);
      }
    }
  }
}

fn konst(o: &mut Toks, c: &Const) {
  match c {
    Const::Int(i) => o.p(&i.to_string()),
    Const::Zero(_) => o.p("zeroinit"),
    Const::Undef(_) => o.p("undef"),
    Const::Agg(es, _) => {
      o.p("{");
      for (i, e) in es.iter().enumerate() {
        if i > 0 {
          o.p(",");
        }
        konst(o, e);
      }
      o.p("}");
    }
  }
}

struct Fx {
  globals: Vec<String>,
  funcs: Vec<String>,
  args: Vec<String>,
  blocks: Vec<String>,
  params: Vec<Vec<String>>,
  insts: Vec<Vec<String>>,
}

impl Fx {
  fn op(&self, o: &mut Toks, x: &Op) {
    match x {
      Op::Const(c) => konst(o, c),
      Op::Global(g) => o.p(&self.globals[*g]),
      Op::Arg(i) => o.p(&self.args[*i]),
      Op::Param(b, i) => o.p(&self.params[*b][*i]),
      Op::Inst(b, i) => o.p(&self.insts[*b][*i]),
    }
  }
  fn list(&self, o: &mut Toks, xs: &[Op]) {
    o.p("(");
    for (i, x) in xs.iter().enumerate() {
      if i > 0 {
        o.p(",");
      }
      self.op(o, x);
    }
    o.p(")");
  }
  fn edge(&self, t: &mut Tape, o: &mut Toks, e: &Edge) {
    o.p(&self.blocks[e.to]);
    if !e.args.is_empty() || t.chance(10) {
      self.list(o, &e.args);
    }
  }
}

/// Temporary names not in `used`.
struct Temps {
  next: usize,
  step: usize,
}

impl Temps {
  fn get(&mut self, used: &mut HashSet<String>) -> String {
    loop {
      let n = format!("%{}", self.next);
      self.next += self.step;
      if used.insert(n.clone()) {
        return n;
      }
    }
  }
}

fn sig(o: &mut Toks, names: Option<&[String]>, f: &Func) {
  o.p(&f.name);
  o.p("(");
  for (i, p) in f.params.iter().enumerate() {
    if i > 0 {
      o.p(",");
    }
    if let Some(n) = names {
      o.p(&n[i]);
      o.p(":");
    }
    ty(o, &p.1);
  }
  o.p(")");
  if !f.ret.is_unit() {
    o.p(":");
    ty(o, &f.ret);
  }
}

/// The token list of a program.  Unnamed values get temporary names.
pub fn tokens(t: &mut Tape, s: &Spec) -> Toks {
  let mut o = Toks::default();
  let mut gused: HashSet<String> = HashSet::new();
  gused.extend(s.globals.iter().filter_map(|g| g.name.clone()));
  gused.extend(s.funcs.iter().map(|f| f.name.clone()));
  let mut temps = Temps { next: t.below(3), step: 1 + t.below(3) };
  let mut gn = vec![];
  for g in &s.globals {
    gn.push(match &g.name {
      Some(n) => n.clone(),
      None => temps.get(&mut gused),
    });
  }
  // interleave globals and functions: a function follows what it uses
  let mut g = 0;
  let mut fi = 0;
  while g < s.globals.len() || fi < s.funcs.len() {
    let need = s.funcs.get(fi).map_or(usize::MAX, |f| {
      let mut m = 0;
      for b in &f.blocks {
        for i in &b.insts {
          for x in i.kind.ops() {
            if let Op::Global(k) = x {
              m = m.max(k + 1);
            }
          }
        }
      }
      m
    });
    if g < s.globals.len() && (fi >= s.funcs.len() || g < need || !t.chance(30)) {
      let gl = &s.globals[g];
      o.p("global");
      o.p(&gn[g]);
      o.p("=");
      o.p("alloc");
      ty(&mut o, &gl.init.ty());
      o.p(",");
      konst(&mut o, &gl.init);
      g += 1;
      continue;
    }
    let f = &s.funcs[fi];
    fi += 1;
    if f.is_decl() {
      o.p("decl");
      sig(&mut o, None, f);
      continue;
    }
    let mut used = gused.clone();
    for p in &f.params {
      used.extend(p.0.clone());
    }
    let mut bused = HashSet::new();
    for b in &f.blocks {
      bused.extend(b.name.clone());
      used.extend(b.params.iter().filter_map(|p| p.0.clone()));
      used.extend(b.insts.iter().filter_map(|i| i.name.clone()));
    }
    let mut vt = Temps { next: t.below(3), step: 1 + t.below(2) };
    let mut bt = Temps { next: t.below(3), step: 1 };
    let mut name = |n: &Option<String>| match n {
      Some(n) => n.clone(),
      None => vt.get(&mut used),
    };
    let fx = Fx {
      globals: gn.clone(),
      funcs: s.funcs.iter().map(|f| f.name.clone()).collect(),
      args: f.params.iter().map(|p| name(&p.0)).collect(),
      blocks: f
        .blocks
        .iter()
        .map(|b| b.name.clone().unwrap_or_else(|| bt.get(&mut bused)))
        .collect(),
      params: f.blocks.iter().map(|b| b.params.iter().map(|p| name(&p.0)).collect()).collect(),
      insts: f
        .blocks
        .iter()
        .map(|b| {
          b.insts
            .iter()
            .map(|i| if i.ty.is_unit() { String::new() } else { name(&i.name) })
            .collect()
        })
        .collect(),
    };
    o.p("fun");
    sig(&mut o, Some(&fx.args), f);
    o.p("{");
    for (bi, b) in f.blocks.iter().enumerate() {
      let at = o.0.len();
      o.p(&fx.blocks[bi]);
      if at > 0 && o.0[at - 1].s == "ret" {
        o.0[at].sp = Sp::Newline;
      }
      if !b.params.is_empty() || t.chance(5) {
        o.p("(");
        for (i, p) in b.params.iter().enumerate() {
          if i > 0 {
            o.p(",");
          }
          o.p(&fx.params[bi][i]);
          o.p(":");
          ty(&mut o, &p.1);
        }
        o.p(")");
      }
      o.p(":");
      for (ii, i) in b.insts.iter().enumerate() {
        inst(t, &mut o, &fx, i, &fx.insts[bi][ii]);
      }
    }
    let last = o.0.len() - 1;
    let bare = o.0[last].s == "ret";
    o.p("}");
    if bare {
      o.0.last_mut().unwrap().sp = Sp::Newline;
    }
  }
  o
}

fn inst(t: &mut Tape, o: &mut Toks, fx: &Fx, i: &Inst, name: &str) {
  if !i.ty.is_unit() {
    o.p(name);
    o.p("=");
  }
  let two = |o: &mut Toks, k: &str, a: &Op, b: &Op| {
    o.p(k);
    fx.op(o, a);
    o.p(",");
    fx.op(o, b);
  };
  match &i.kind {
    Kind::Alloc(x) => {
      o.p("alloc");
      ty(o, x);
    }
    Kind::Load(a) => {
      o.p("load");
      fx.op(o, a);
    }
    Kind::Store(a, b) => two(o, "store", a, b),
    Kind::GetPtr(a, b) => two(o, "getptr", a, b),
    Kind::GetElemPtr(a, b) => two(o, "getelemptr", a, b),
    Kind::Bin(op, a, b) => two(o, op.name(), a, b),
    Kind::Call(c, a) => {
      o.p("call");
      o.p(&fx.funcs[*c]);
      fx.list(o, a);
    }
    Kind::Br(c, x, y) => {
      o.p("br");
      fx.op(o, c);
      o.p(",");
      fx.edge(t, o, x);
      o.p(",");
      fx.edge(t, o, y);
    }
    Kind::Jump(e) => {
      o.p("jump");
      fx.edge(t, o, e);
    }
    Kind::Ret(None) => o.p("ret"),
    Kind::Ret(Some(v)) => {
      o.p("ret");
      let at = o.0.len();
      fx.op(o, v);
      o.0[at].sp = Sp::Same;
    }
  }
}

fn glue(a: char, b: char) -> bool {
  // two characters that would fuse into one token (or a comment)
  let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
  (w(a) && w(b)) || (matches!(a, '@' | '%') && w(b)) || (a == '/' && (b == '/' || b == '*')) || (a == '-' && b.is_ascii_digit())
}

const WORDS: [&str; 10] =
  ["", "x", "ret", "}", "fun @f(", "%0 = add 1, 2", " * /", "//", "\"", "\u{e9}\u{4e2d}"];

fn comment(t: &mut Tape, same: bool) -> String {
  let w = *t.pick(&WORDS);
  if same || t.chance(50) {
    let w = w.replace("*/", "");
    match t.below(3) {
      0 => format!("/*{w}*/"),
      1 => format!("/***{w}**/"),
      _ if same => "/**/".into(),
      _ => format!("/* {w}\n{w} */"),
    }
  } else {
    format!("//{w}\n")
  }
}

/// Where each token landed: line and column (1-based) of its first and last
/// character.
pub type Pos = ((u32, u32), (u32, u32));

/// Lays tokens out.  `style` 0 is one plain style, anything else is random.
pub fn layout(t: &mut Tape, toks: &[Tok], style: usize) -> (String, Vec<Pos>) {
  let mut out = String::new();
  let (mut line, mut col) = (1u32, 0u32);
  let mut pos = vec![];
  fn put(out: &mut String, line: &mut u32, col: &mut u32, s: &str) {
    for b in s.bytes() {
      if b == b'\n' {
        *line += 1;
        *col = 0;
      } else {
        *col += 1;
      }
    }
    out.push_str(s);
  }
  let mut prev_line = 1;
  // far down or far to the right, once in a while
  let far = if style != 0 && t.below(300) == 299 {
    // often where the line matters: after a return without a value
    let line: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].sp == Sp::Newline).collect();
    Some(if t.chance(40) && !line.is_empty() { *t.pick(&line) } else { t.below(toks.len().max(1)) })
  } else {
    None
  };
  for (i, k) in toks.iter().enumerate() {
    let prev = out.chars().last().filter(|_| i > 0);
    let first = k.s.chars().next().unwrap_or(' ');
    let mut sep = String::new();
    if style == 0 {
      if k.sp == Sp::Newline {
        sep.push('\n');
      } else if i > 0 {
        let starts = matches!(k.s.as_str(), "global" | "fun" | "decl" | "store" | "ret" | "}")
          || matches!(k.s.as_str(), "br" | "jump");
        let named = matches!(first, '%' | '@')
          && toks.get(i + 1).is_some_and(|n| n.s == "=" || n.s == ":");
        let top = toks[i - 1].s == "global";
        let call = k.s == "call" && toks[i - 1].s != "=";
        if k.sp == Sp::Any && !top && (starts || call || named) && toks[i - 1].s != "(" {
          sep.push('\n');
        } else {
          sep.push(' ');
        }
      }
    } else {
      let same = k.sp == Sp::Same;
      let n = t.weighted(&[4, 6, 2, 1]);
      for _ in 0..n {
        match t.below(14) {
          0..=6 => sep.push(' '),
          7 => sep.push('\t'),
          8 if !same => sep.push('\n'),
          9 if !same => sep.push_str("\r\n"),
          10 => sep.push(if t.chance(50) { '\x0c' } else { '\x0b' }),
          11 | 12 => sep.push_str(&comment(t, same)),
          _ => sep.push(' '),
        }
      }
      // a run of blank, tiny or commented lines now and then
      if !same && t.chance(1) {
        for _ in 0..t.range(1, 30) {
          sep.push_str(if t.chance(50) { "//\n" } else { "\n" });
        }
      }
      if far == Some(i) && k.sp == Sp::Newline && t.chance(70) {
        // exactly so many lines below
        sep = "\n".repeat(*t.pick(&[256, 512, 65_536]));
      } else if far == Some(i) {
        let n = match t.below(6) {
          4 => *t.pick(&[256, 512, 1024]),
          5 => 65_536,
          0 => t.range(250, 260),
          1 => t.range(990, 1030),
          2 => t.range(65_525, 65_545),
          _ => t.range(65_000, 140_000),
        };
        match t.below(4) {
          0 => sep.push_str(&" ".repeat(n)),
          1 => sep.push_str(&format!("/*{}*/", "x".repeat(n))),
          2 if !same => sep.push_str(&format!("/*{}*/", "\n".repeat(n))),
          _ if !same => sep.push_str(&"\n".repeat(n)),
          _ => sep.push_str(&"\t".repeat(n)),
        }
      }
      if k.sp == Sp::Newline && !sep.contains('\n') {
        if sep.contains("//") && !sep.ends_with('\n') {
          sep.clear();
        }
        sep.push('\n');
      }
      if let (Some(p), Some(s)) = (prev, sep.chars().next()) {
        if glue(p, s) {
          sep.insert(0, ' ');
        }
      }
    }
    if sep.is_empty() {
      if let Some(p) = prev {
        if glue(p, first) {
          sep.push(' ');
        }
      }
    }
    put(&mut out, &mut line, &mut col, &sep);
    debug_assert!(k.sp != Sp::Same || line == prev_line, "layout broke a line");
    let start = (line, col + 1);
    put(&mut out, &mut line, &mut col, &k.s);
    prev_line = line;
    pos.push((start, (line, col)));
  }
  if style == 0 {
    out.push('\n');
  } else {
    match t.below(4) {
      0 => {}
      1 => out.push('\n'),
      2 => out.push_str("\n// end"),
      _ => out.push_str(" /* end */ \r\n"),
    }
  }
  (out, pos)
}

/// Plain text of a program, for samples and failure reports.
pub fn plain(s: &Spec) -> String {
  let mut t = Tape::new(&[]);
  let toks = tokens(&mut t, s);
  layout(&mut t, &toks.0, 0).0
}

/// Random text of a program.
pub fn random(t: &mut Tape, s: &Spec) -> String {
  let toks = tokens(t, s);
  let style = t.below(4);
  layout(t, &toks.0, style).0
}

#[allow(dead_code)]
pub type NameMap = HashMap<String, String>;
