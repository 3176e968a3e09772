//! A reference front end for the text form: an independent scanner, parser
//! and elaborator that decides whether a text is a legal program and, if so,
//! which one.  Written from the language rules; it shares no code with the
//! library.

use crate::spec::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

#[derive(Clone, PartialEq, Debug)]
pub enum T {
  Int(i64),
  Sym(String),
  Word(String),
  Ch(char),
  End,
  /// What the scanner rejects.
  Bad,
}

#[derive(Clone, Debug)]
pub struct Tk {
  pub t: T,
  /// Line and column (1-based) of the first and last byte.
  pub start: (u32, u32),
  pub end: (u32, u32),
}

pub const KEYWORDS: [&str; 15] = [
  "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br",
  "jump", "call", "ret", "fun", "decl",
];

pub fn is_word(w: &str) -> bool {
  KEYWORDS.contains(&w) || BINS.iter().any(|b| b.1 == w)
}

pub type R<X> = Result<X, String>;

pub struct LexErr {
  pub msg: String,
  /// Where the offending token or comment starts.
  pub at: (u32, u32),
  /// The tokens before it.
  pub before: Vec<Tk>,
}

/// Scans a text up to the first error (comments may hold anything).
pub fn scan(src: &[u8]) -> Result<Vec<Tk>, LexErr> {
  let mut before = vec![];
  for k in Scan::new(src) {
    match k {
      Ok(k) => before.push(k),
      Err((msg, at)) => return Err(LexErr { msg, at, before }),
    }
  }
  Ok(before)
}

/// Scans a whole text; after an error the scanner goes on at the next white
/// space.
pub struct Scan<'a> {
  src: &'a [u8],
  /// Line and column of each byte, and of the end.
  pos: Vec<(u32, u32)>,
  pub i: usize,
  done: bool,
}

impl<'a> Scan<'a> {
  pub fn new(src: &'a [u8]) -> Self {
    let mut pos = Vec::with_capacity(src.len() + 1);
    let (mut line, mut col) = (1u32, 0u32);
    for b in src {
      if *b == b'\n' {
        line += 1;
        col = 0;
      } else {
        col += 1;
      }
      pos.push((line, col));
    }
    pos.push((line, col));
    Self { src, pos, i: 0, done: false }
  }

  /// ASCII white space, and the two Latin-1 spaces.
  fn blank(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c | 0x85 | 0xa0)
  }
}

impl Iterator for Scan<'_> {
  type Item = Result<Tk, (String, (u32, u32))>;

  fn next(&mut self) -> Option<Self::Item> {
    let (src, n) = (self.src, self.src.len());
    let mut i = self.i;
    let digit = |i: usize| i < n && src[i].is_ascii_digit();
    while i < n {
      let c = src[i];
      if Self::blank(c) {
        i += 1;
        continue;
      }
      let s = i;
      macro_rules! err {
        ($m:expr) => {{
          while i < n && !Self::blank(src[i]) {
            i += 1;
          }
          self.i = i;
          return Some(Err(($m.into(), self.pos[s])));
        }};
      }
      if c == b'/' {
        match src.get(i + 1) {
          Some(b'/') => {
            while i < n && src[i] != b'\n' && src[i] != b'\r' {
              i += 1;
            }
          }
          Some(b'*') => {
            i += 2;
            loop {
              if i + 1 >= n {
                i = n;
                err!("unclosed comment");
              }
              if src[i] == b'*' && src[i + 1] == b'/' {
                i += 2;
                break;
              }
              i += 1;
            }
          }
          _ => {
            i += 1;
            err!("stray slash")
          }
        }
        continue;
      }
      let t = if c == b'@' || c == b'%' {
        i += 1;
        if digit(i) {
          if c == b'@' {
            err!("numeric named symbol");
          }
          if src[i] == b'0' {
            i += 1;
          } else {
            while digit(i) {
              i += 1;
            }
          }
        } else {
          while i < n && (src[i].is_ascii_alphanumeric() || src[i] == b'_') {
            i += 1;
          }
        }
        if i == s + 1 {
          err!("empty symbol");
        }
        T::Sym(String::from_utf8_lossy(&src[s..i]).into())
      } else if c.is_ascii_alphabetic() {
        while i < n && src[i].is_ascii_alphanumeric() {
          i += 1;
        }
        let w = String::from_utf8_lossy(&src[s..i]).to_string();
        if !is_word(&w) {
          err!("unknown word");
        }
        T::Word(w)
      } else if c.is_ascii_digit() || c == b'-' {
        i += 1;
        while digit(i) {
          i += 1;
        }
        match std::str::from_utf8(&src[s..i]).unwrap().parse::<i64>() {
          Ok(v) => T::Int(v),
          Err(_) => err!("bad integer"),
        }
      } else {
        i += 1;
        T::Ch(c as char)
      };
      self.i = i;
      return Some(Ok(Tk { t, start: self.pos[s], end: self.pos[i - 1] }));
    }
    self.i = n;
    let end = self.pos[n];
    let first = !std::mem::replace(&mut self.done, true);
    first.then_some(Ok(Tk { t: T::End, start: end, end }))
  }
}

enum Val {
  Sym(String),
  Int(i32),
  Undef,
  Zero,
  Agg(Vec<V>),
}

/// A value and where it is.
struct V {
  k: Val,
  rg: Rg,
}

/// Positions of the first and last byte of something.
pub type Rg = ((u32, u32), (u32, u32));

enum Rhs {
  Alloc(Ty),
  Load(String),
  Store(V, String),
  GetPtr(String, V),
  GetElemPtr(String, V),
  Bin(Bin, V, V),
  Call(String, Vec<V>),
  Br(V, (String, Vec<V>), (String, Vec<V>)),
  Jump(String, Vec<V>),
  Ret(Option<V>),
}

struct St {
  name: Option<String>,
  rhs: Rhs,
  rg: Rg,
}

struct Bb {
  name: String,
  params: Vec<(String, Ty, Rg)>,
  stmts: Vec<St>,
  rg: Rg,
}

enum Item {
  Global(String, Ty, V),
  Fun(String, Vec<(String, Ty, Rg)>, Ty, Vec<Bb>),
  Decl(String, Vec<Ty>, Ty),
}

struct P {
  k: Vec<Tk>,
  i: usize,
  /// Where the error is, if not at the current token.
  err_at: Option<Rg>,
}

impl P {
  fn cur(&self) -> &T {
    &self.k[self.i].t
  }
  fn start(&self) -> (u32, u32) {
    self.k[self.i].start
  }
  /// From the given position to the token before the current one.
  fn since(&self, from: (u32, u32)) -> Rg {
    (from, self.k[self.i - 1].end)
  }
  fn bump(&mut self) {
    if self.i + 1 < self.k.len() {
      self.i += 1;
    }
  }
  fn is(&self, c: char) -> bool {
    *self.cur() == T::Ch(c)
  }
  fn word(&self) -> Option<&str> {
    match self.cur() {
      T::Word(w) => Some(w),
      _ => None,
    }
  }
  fn ch(&mut self, c: char) -> R<()> {
    if self.is(c) {
      self.bump();
      Ok(())
    } else {
      Err(format!("expected '{c}', found {:?}", self.cur()))
    }
  }
  fn kw(&mut self, w: &str) -> R<()> {
    if self.word() == Some(w) {
      self.bump();
      Ok(())
    } else {
      Err(format!("expected {w}, found {:?}", self.cur()))
    }
  }
  fn sym(&mut self) -> R<String> {
    match self.cur().clone() {
      T::Sym(s) => {
        self.bump();
        Ok(s)
      }
      t => Err(format!("expected a symbol, found {t:?}")),
    }
  }
  fn list<X>(&mut self, f: impl Fn(&mut Self) -> R<X>) -> R<Vec<X>> {
    self.ch('(')?;
    let mut v = vec![];
    if !self.is(')') {
      v.push(f(self)?);
      while self.is(',') {
        self.bump();
        v.push(f(self)?);
      }
    }
    self.ch(')')?;
    Ok(v)
  }
  fn opt_list<X>(&mut self, f: impl Fn(&mut Self) -> R<X>) -> R<Vec<X>> {
    if self.is('(') {
      self.list(f)
    } else {
      Ok(vec![])
    }
  }
  fn ty(&mut self) -> R<Ty> {
    if self.word() == Some("i32") {
      self.bump();
      return Ok(Ty::I32);
    }
    if self.is('[') {
      self.bump();
      let b = self.ty()?;
      self.ch(',')?;
      let n = match self.cur() {
        T::Int(n) => *n,
        t => return Err(format!("expected a length, found {t:?}")),
      };
      let at = self.start();
      self.bump();
      if n <= 0 {
        self.err_at = Some(self.since(at));
        return Err("array length is not positive".into());
      }
      self.ch(']')?;
      return Ok(Ty::arr(b, n as usize));
    }
    if self.is('*') {
      self.bump();
      return Ok(Ty::ptr(self.ty()?));
    }
    if self.is('(') {
      let ps = self.list(|s| s.ty())?;
      return Ok(Ty::fun(ps, self.ret()?));
    }
    Err(format!("expected a type, found {:?}", self.cur()))
  }
  fn ret(&mut self) -> R<Ty> {
    if self.is(':') {
      self.bump();
      self.ty()
    } else {
      Ok(Ty::Unit)
    }
  }
  fn val(&mut self) -> R<V> {
    let at = self.start();
    let k = match self.cur() {
      T::Sym(s) => Val::Sym(s.clone()),
      T::Int(i) => Val::Int(*i as i32),
      T::Word(w) if w == "undef" => Val::Undef,
      t => return Err(format!("expected a value, found {t:?}")),
    };
    self.bump();
    Ok(V { k, rg: self.since(at) })
  }
  fn init(&mut self) -> R<V> {
    let at = self.start();
    if self.is('{') {
      self.bump();
      let mut v = vec![self.init()?];
      while self.is(',') {
        self.bump();
        v.push(self.init()?);
      }
      self.ch('}')?;
      return Ok(V { k: Val::Agg(v), rg: self.since(at) });
    }
    if self.word() == Some("zeroinit") {
      self.bump();
      return Ok(V { k: Val::Zero, rg: self.since(at) });
    }
    if matches!(self.cur(), T::Sym(_)) {
      return Err("symbol in an initializer".into());
    }
    self.val()
  }
  fn typed(&mut self) -> R<(String, Ty, Rg)> {
    let at = self.start();
    let n = self.sym()?;
    self.ch(':')?;
    let t = self.ty()?;
    Ok((n, t, self.since(at)))
  }
  fn item(&mut self) -> R<Item> {
    match self.word() {
      Some("global") => {
        self.bump();
        let n = self.sym()?;
        self.ch('=')?;
        self.kw("alloc")?;
        let t = self.ty()?;
        self.ch(',')?;
        Ok(Item::Global(n, t, self.init()?))
      }
      Some("decl") => {
        self.bump();
        let n = self.sym()?;
        let ps = self.list(|s| s.ty())?;
        Ok(Item::Decl(n, ps, self.ret()?))
      }
      Some("fun") => {
        let at = self.start();
        self.bump();
        let n = self.sym()?;
        let ps = self.list(|s| s.typed())?;
        let r = self.ret()?;
        self.ch('{')?;
        let mut bs = vec![];
        while !self.is('}') {
          bs.push(self.block()?);
        }
        self.bump();
        if bs.is_empty() {
          self.err_at = Some(self.since(at));
          return Err("no blocks".into());
        }
        Ok(Item::Fun(n, ps, r, bs))
      }
      _ => Err(format!("expected a definition, found {:?}", self.cur())),
    }
  }
  fn block(&mut self) -> R<Bb> {
    let first = self.start();
    let name = self.sym()?;
    let params = self.opt_list(|s| s.typed())?;
    self.ch(':')?;
    let mut stmts = vec![];
    loop {
      let at = self.start();
      if let T::Sym(n) = self.cur().clone() {
        self.bump();
        self.ch('=')?;
        let rhs = match self.word() {
          Some("alloc") => {
            self.bump();
            Rhs::Alloc(self.ty()?)
          }
          Some("load") => {
            self.bump();
            Rhs::Load(self.sym()?)
          }
          Some(w @ ("getptr" | "getelemptr")) => {
            let elem = w == "getelemptr";
            self.bump();
            let s = self.sym()?;
            self.ch(',')?;
            let v = self.val()?;
            if elem {
              Rhs::GetElemPtr(s, v)
            } else {
              Rhs::GetPtr(s, v)
            }
          }
          Some("call") => self.call()?,
          Some(w) => match BINS.iter().find(|b| b.1 == w) {
            Some((b, _)) => {
              let b = *b;
              self.bump();
              let x = self.val()?;
              self.ch(',')?;
              Rhs::Bin(b, x, self.val()?)
            }
            None => return Err(format!("expected an expression, found {w}")),
          },
          None => return Err(format!("expected an expression, found {:?}", self.cur())),
        };
        stmts.push(St { name: Some(n), rhs, rg: self.since(at) });
        continue;
      }
      let rhs = match self.word() {
        Some("store") => {
          self.bump();
          let v = if let T::Sym(s) = self.cur().clone() {
            self.bump();
            V { rg: self.since(self.k[self.i - 1].start), k: Val::Sym(s) }
          } else {
            self.init()?
          };
          self.ch(',')?;
          Rhs::Store(v, self.sym()?)
        }
        Some("call") => self.call()?,
        Some("br") => {
          self.bump();
          let c = self.val()?;
          self.ch(',')?;
          let t = (self.sym()?, self.opt_list(|s| s.val())?);
          self.ch(',')?;
          let f = (self.sym()?, self.opt_list(|s| s.val())?);
          Rhs::Br(c, t, f)
        }
        Some("jump") => {
          self.bump();
          Rhs::Jump(self.sym()?, self.opt_list(|s| s.val())?)
        }
        Some("ret") => {
          let l = self.k[self.i].end.0;
          self.bump();
          if self.k[self.i].start.0 == l {
            Rhs::Ret(Some(self.val()?))
          } else {
            Rhs::Ret(None)
          }
        }
        _ => return Err(format!("expected a statement, found {:?}", self.cur())),
      };
      let end = matches!(rhs, Rhs::Br(..) | Rhs::Jump(..) | Rhs::Ret(..));
      stmts.push(St { name: None, rhs, rg: self.since(at) });
      if end {
        return Ok(Bb { name, params, stmts, rg: self.since(first) });
      }
    }
  }
  fn call(&mut self) -> R<Rhs> {
    self.bump();
    let f = self.sym()?;
    Ok(Rhs::Call(f, self.list(|s| s.val())?))
  }
}

/// Something wrong with an item that is well-formed.
pub struct Problem {
  pub msg: String,
  /// What a complaint points at.
  pub rg: Rg,
  /// It points at the start of it.
  pub exact: bool,
  /// The statement, parameter or item at which there must be a complaint.
  pub within: Rg,
  /// Is not just due to another problem.
  pub primary: bool,
}

#[derive(Default)]
struct Log(RefCell<Vec<Problem>>);

impl Log {
  fn add(&self, msg: String, rg: Rg) {
    self.0.borrow_mut().push(Problem { msg, rg, exact: true, within: rg, primary: true });
  }
  /// Somewhere in the given range.
  fn near(&self, msg: String, rg: Rg) {
    self.0.borrow_mut().push(Problem { msg, rg, exact: false, within: rg, primary: true });
  }
  fn follow(&self, msg: String, rg: Rg) {
    self.0.borrow_mut().push(Problem { msg, rg, exact: false, within: rg, primary: false });
  }
  fn len(&self) -> usize {
    self.0.borrow().len()
  }
}

fn init(log: &Log, t: &Ty, v: &V) -> Option<Const> {
  match &v.k {
    Val::Sym(_) => log.add("symbol where a constant is needed".into(), v.rg),
    Val::Int(i) if *t == Ty::I32 => return Some(Const::Int(*i)),
    Val::Int(_) => log.add(format!("integer for {}", t.show()), v.rg),
    Val::Undef => return Some(Const::Undef(t.clone())),
    Val::Zero => return Some(Const::Zero(t.clone())),
    Val::Agg(es) => match t {
      Ty::Arr(b, n) if *n == es.len() => {
        let es: Vec<_> = es.iter().map(|e| init(log, b, e)).collect();
        return Some(Const::Agg(es.into_iter().collect::<Option<_>>()?, t.clone()));
      }
      _ => log.add(format!("{} elements for {}", es.len(), t.show()), v.rg),
    },
  }
  None
}

fn keep(n: &str) -> Option<String> {
  (!is_temp(n)).then(|| n.to_string())
}

pub struct Outcome {
  pub spec: Spec,
  /// Skipped unreachable blocks: name and place.
  pub unreachable: Vec<(String, Rg)>,
}

/// Why a text is no program.
pub enum Wrong {
  /// The first syntax error.  The scanner's may end anywhere.
  Syntax { msg: String, rg: Rg, scanner: bool },
  /// All that is wrong with the first wrong item, which is at `item`.
  Semantic { problems: Vec<Problem>, item: Rg },
}

impl Wrong {
  pub fn msg(&self) -> &str {
    match self {
      Wrong::Syntax { msg, .. } => msg,
      Wrong::Semantic { problems, .. } => &problems[0].msg,
    }
  }
}

/// Decides a text.
pub fn front(src: &[u8]) -> R<Outcome> {
  diagnose(src).map_err(|e| e.msg().to_string())
}

pub fn diagnose(src: &[u8]) -> Result<Outcome, Wrong> {
  let (k, lex) = match scan(src) {
    Ok(k) => (k, None),
    Err(e) => {
      let mut k = e.before;
      k.push(Tk { t: T::Bad, start: e.at, end: e.at });
      (k, Some(e.msg))
    }
  };
  let mut p = P { k, i: 0, err_at: None };
  let mut s = Spec::default();
  let mut unreachable = vec![];
  let mut gvars: HashMap<String, usize> = HashMap::new();
  let mut gfuns: HashMap<String, usize> = HashMap::new();
  while *p.cur() != T::End {
    let from = p.start();
    let r = p.item();
    let here = (p.start(), p.k[p.i].end);
    if *p.cur() == T::Bad {
      // the scanner fails as soon as the token before has been consumed
      return Err(Wrong::Syntax { msg: lex.unwrap(), rg: here, scanner: true });
    }
    let it = match r {
      Ok(it) => it,
      Err(msg) => {
        return Err(Wrong::Syntax { msg, rg: p.err_at.unwrap_or(here), scanner: false })
      }
    };
    let item = p.since(from);
    let log = Log::default();
    elaborate(&log, &mut s, &mut gvars, &mut gfuns, it, item, &mut unreachable);
    if log.len() > 0 {
      return Err(Wrong::Semantic { problems: log.0.into_inner(), item });
    }
  }
  Ok(Outcome { spec: s, unreachable })
}

fn elaborate(
  log: &Log,
  s: &mut Spec,
  gvars: &mut HashMap<String, usize>,
  gfuns: &mut HashMap<String, usize>,
  it: Item,
  at: Rg,
  unreachable: &mut Vec<(String, Rg)>,
) {
  match it {
    Item::Global(n, t, v) => {
      let c = init(log, &t, &v);
      // at least one of them is reported
      for p in log.0.borrow_mut().iter_mut() {
        p.within = v.rg;
      }
      let bad = log.len() > 0;
      if gfuns.contains_key(&n) || gvars.insert(n.clone(), s.globals.len()).is_some() {
        // need not be reported if there is no initial value
        if bad {
          log.follow(format!("{n} redefined"), at);
        } else {
          log.add(format!("{n} redefined"), at);
        }
      }
      if let Some(init) = c {
        s.globals.push(Global { name: keep(&n), init });
      }
    }
    Item::Decl(n, ps, r) => {
      if gvars.contains_key(&n) || gfuns.insert(n.clone(), s.funcs.len()).is_some() {
        log.add(format!("{n} redefined"), at);
      }
      s.funcs.push(Func {
        name: n,
        params: ps.into_iter().map(|t| (None, t)).collect(),
        ret: r,
        blocks: vec![],
      });
    }
    Item::Fun(n, ps, r, bs) => {
      if gvars.contains_key(&n) || gfuns.insert(n.clone(), s.funcs.len()).is_some() {
        log.add(format!("{n} redefined"), at);
      }
      s.funcs.push(Func {
        name: n,
        params: ps.iter().map(|(n, t, _)| (keep(n), t.clone())).collect(),
        ret: r,
        blocks: vec![],
      });
      body(log, s, gvars, gfuns, &ps, &bs, unreachable);
    }
  }
}

/// An operand that is wrong, or is unknown.
struct No;

fn body(
  log: &Log,
  s: &mut Spec,
  gvars: &HashMap<String, usize>,
  gfuns: &HashMap<String, usize>,
  ps: &[(String, Ty, Rg)],
  bs: &[Bb],
  unreachable: &mut Vec<(String, Rg)>,
) {
  let me = s.funcs.len() - 1;
  let mut index: HashMap<&str, usize> = HashMap::new();
  let mut twice: HashSet<&str> = HashSet::new();
  for (i, b) in bs.iter().enumerate() {
    if index.insert(&b.name, i).is_some() {
      log.add(format!("block {} redefined", b.name), b.rg);
      twice.insert(&b.name);
    }
  }
  // which of the blocks with the same name is meant can not be said
  if !twice.is_empty() {
    for b in bs {
      log.follow("in a function with equal blocks".into(), b.rg);
    }
    for (i, p) in ps.iter().enumerate() {
      if gvars.contains_key(&p.0) || ps[..i].iter().any(|q| q.0 == p.0) {
        log.near(format!("{} redefined", p.0), p.2);
      }
    }
    return;
  }
  // reachable blocks, breadth first
  let targets = |b: &Bb| -> Vec<String> {
    match &b.stmts.last().unwrap().rhs {
      Rhs::Br(_, t, f) => vec![t.0.clone(), f.0.clone()],
      Rhs::Jump(t, _) => vec![t.clone()],
      _ => vec![],
    }
  };
  let mut order = vec![0usize];
  let mut i = 0;
  while i < order.len() {
    let b = &bs[order[i]];
    for t in targets(b) {
      match index.get(t.as_str()) {
        None => log.near(format!("no block {t}"), b.stmts.last().unwrap().rg),
        Some(0) => {
          log.near("the entry block has a predecessor".into(), b.stmts.last().unwrap().rg)
        }
        Some(t) => {
          if !order.contains(t) {
            order.push(*t);
          }
        }
      }
    }
    i += 1;
  }
  for (i, b) in bs.iter().enumerate() {
    if !order.contains(&i) {
      unreachable.push((b.name.clone(), b.rg));
    }
  }
  let at: HashMap<usize, usize> = order.iter().enumerate().map(|(k, b)| (*b, k)).collect();
  let mut preds: Vec<Vec<usize>> = vec![vec![]; order.len()];
  for (k, b) in order.iter().enumerate() {
    for t in targets(&bs[*b]) {
      if let Some(t) = index.get(t.as_str()) {
        preds[at[t]].push(k);
      }
    }
  }
  // declarations of names
  let names: RefCell<HashSet<String>> = Default::default();
  // names about which nothing is known
  let poison: RefCell<HashSet<String>> = Default::default();
  let declare = |n: &str, rg: Rg| {
    if gvars.contains_key(n) || !names.borrow_mut().insert(n.to_string()) {
      log.near(format!("{n} redefined"), rg);
      poison.borrow_mut().insert(n.into());
    }
  };
  let mut defs: Vec<HashMap<String, (Op, Ty)>> = vec![HashMap::new(); order.len()];
  for (i, (n, t, rg)) in ps.iter().enumerate() {
    declare(n, *rg);
    defs[0].insert(n.clone(), (Op::Arg(i), t.clone()));
  }
  let mut blocks = vec![];
  for (k, b) in order.iter().enumerate() {
    for (i, (n, t, rg)) in bs[*b].params.iter().enumerate() {
      declare(n, *rg);
      if k != 0 {
        defs[k].insert(n.clone(), (Op::Param(k, i), t.clone()));
      }
    }
    blocks.push(Block {
      name: keep(&bs[*b].name),
      params: bs[*b].params.iter().map(|(n, t, _)| (keep(n), t.clone())).collect(),
      insts: vec![],
    });
  }
  s.funcs[me].blocks = blocks;
  // names that are defined twice are so from the start
  let mut seen: HashSet<&str> = HashSet::new();
  for b in &order {
    for n in bs[*b].stmts.iter().filter_map(|s| s.name.as_deref()) {
      if !seen.insert(n) || names.borrow().contains(n) || gvars.contains_key(n) {
        poison.borrow_mut().insert(n.into());
      }
    }
  }
  for (k, b) in order.iter().enumerate() {
    for st in &bs[*b].stmts {
      if let Some(n) = &st.name {
        declare(n, st.rg);
      }
      // a symbol: a global, or a definition in this block or (transitively)
      // in a predecessor
      let before = log.len();
      let look = |n: &str, rg: Rg, exact: bool| -> Result<(Op, Ty), No> {
        if poison.borrow().contains(n) {
          // so anything can be wrong with the statement
          log.follow(format!("{n} is wrong"), st.rg);
          return Err(No);
        }
        if let Some(g) = gvars.get(n) {
          return Ok((Op::Global(*g), Ty::ptr(s.globals[*g].init.ty())));
        }
        let mut seen = HashSet::new();
        let mut stack = vec![k];
        while let Some(b) = stack.pop() {
          if !seen.insert(b) {
            continue;
          }
          if let Some(d) = defs[b].get(n) {
            return Ok(d.clone());
          }
          stack.extend(preds[b].iter().rev());
        }
        if exact {
          log.add(format!("no symbol {n}"), rg);
        } else {
          log.near(format!("no symbol {n}"), rg);
        }
        Err(No)
      };
      let val = |t: &Ty, v: &V| -> Result<Op, No> {
        if let Val::Sym(n) = &v.k {
          let (o, ot) = look(n, v.rg, true)?;
          if ot != *t {
            log.add(format!("{n} is {}, not {}", ot.show(), t.show()), v.rg);
            return Err(No);
          }
          return Ok(o);
        }
        init(log, t, v).map(Op::Const).ok_or(No)
      };
      let bad = |msg: String| -> No {
        log.near(msg, st.rg);
        No
      };
      // a value whose type is unknown
      let some = |v: &V| {
        if let Val::Sym(n) = &v.k {
          let _ = look(n, v.rg, true);
        }
        log.follow("may be wrong".into(), v.rg);
      };
      let vals = |ts: &[Ty], vs: &[V]| -> Result<Vec<Op>, No> {
        if ts.len() != vs.len() {
          vs.iter().for_each(some);
          return Err(bad(format!("{} arguments for {}", vs.len(), ts.len())));
        }
        let os: Vec<_> = ts.iter().zip(vs).map(|(t, v)| val(t, v)).collect();
        os.into_iter().collect()
      };
      let edge = |n: &str, vs: &[V]| -> Result<Edge, No> {
        // bad targets have been noted already
        let Some(to) = index.get(n).map(|t| at[t]) else {
          vs.iter().for_each(some);
          return Err(No);
        };
        let ts: Vec<Ty> = s.funcs[me].blocks[to].params.iter().map(|p| p.1.clone()).collect();
        Ok(Edge { to, args: vals(&ts, vs)? })
      };
      let ptr = |n: &str| -> Result<(Op, Ty, Ty), No> {
        let (o, t) = look(n, st.rg, false)?;
        match &t {
          Ty::Ptr(b) => Ok((o, t.clone(), (**b).clone())),
          _ => Err(bad(format!("{n} is no pointer"))),
        }
      };
      let made = (|| -> Result<(Ty, Kind), No> {
        Ok(match &st.rhs {
          Rhs::Alloc(t) => (Ty::ptr(t.clone()), Kind::Alloc(t.clone())),
          Rhs::Load(n) => {
            let (o, _, b) = ptr(n)?;
            (b, Kind::Load(o))
          }
          Rhs::Store(v, n) => match ptr(n) {
            Ok((o, _, b)) => (Ty::Unit, Kind::Store(val(&b, v)?, o)),
            Err(e) => {
              some(v);
              return Err(e);
            }
          },
          Rhs::GetPtr(n, v) => {
            let (p, v) = (ptr(n), val(&Ty::I32, v));
            let (o, t, _) = p?;
            (t, Kind::GetPtr(o, v?))
          }
          Rhs::GetElemPtr(n, v) => {
            let (p, v) = (ptr(n), val(&Ty::I32, v));
            let (o, _, b) = p?;
            match b {
              Ty::Arr(e, _) => (Ty::ptr((*e).clone()), Kind::GetElemPtr(o, v?)),
              _ => return Err(bad(format!("{n} is no pointer to an array"))),
            }
          }
          Rhs::Bin(op, x, y) => {
            let (x, y) = (val(&Ty::I32, x), val(&Ty::I32, y));
            (Ty::I32, Kind::Bin(*op, x?, y?))
          }
          Rhs::Call(f, vs) => {
            let Some(c) = gfuns.get(f) else {
              vs.iter().for_each(some);
              return Err(bad(format!("no function {f}")));
            };
            let ts: Vec<Ty> = s.funcs[*c].params.iter().map(|p| p.1.clone()).collect();
            (s.funcs[*c].ret.clone(), Kind::Call(*c, vals(&ts, vs)?))
          }
          Rhs::Br(c, t, f) => {
            let (c, x, y) = (val(&Ty::I32, c), edge(&t.0, &t.1), edge(&f.0, &f.1));
            let (c, x, y) = (c?, x?, y?);
            if x.to == y.to && !(x.args.is_empty() && y.args.is_empty()) {
              return Err(bad("equal targets with arguments".into()));
            }
            (Ty::Unit, Kind::Br(c, x, y))
          }
          Rhs::Jump(t, vs) => (Ty::Unit, Kind::Jump(edge(t, vs)?)),
          Rhs::Ret(v) => {
            let r = s.funcs[me].ret.clone();
            match v {
              None if r.is_unit() => (Ty::Unit, Kind::Ret(None)),
              Some(v) if !r.is_unit() => (Ty::Unit, Kind::Ret(Some(val(&r, v)?))),
              _ => {
                v.iter().for_each(some);
                return Err(bad("return value does not fit".into()));
              }
            }
          }
        })
      })();
      let made = made.and_then(|m| {
        if st.name.is_some() && m.0.is_unit() {
          return Err(bad("it has no value".into()));
        }
        Ok(m)
      });
      for p in &mut log.0.borrow_mut()[before..] {
        p.within = st.rg;
      }
      match made {
        Ok((ty, kind)) => {
          let op = Op::Inst(k, s.funcs[me].blocks[k].insts.len());
          if let Some(n) = &st.name {
            defs[k].insert(n.clone(), (op, ty.clone()));
          }
          let name = st.name.as_deref().and_then(keep);
          s.funcs[me].blocks[k].insts.push(Inst { name, ty, kind });
        }
        Err(No) => {
          if let Some(n) = &st.name {
            poison.borrow_mut().insert(n.clone());
          }
        }
      }
    }
  }
}
