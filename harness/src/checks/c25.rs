//! C25: syntax trees say what the text says, and where.

use super::util::*;
use crate::gen::*;
use crate::reff::{self, Tk, T};
use crate::runner::*;
use crate::spec::BINS;
use crate::tape::Tape;
use crate::{ensure, mutate, text};
use koopa::front::ast::{Ast, AstKind};
use koopa::front::builder::Builder;
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{FileType, Span};
use std::io::Cursor;

pub fn check() -> Check {
  Check {
    id: "C25",
    rule: "token lists of legal programs with 0-6 mutations, and soups of statements and tokens, in a random \
           layout; every tree the parser yields is compared, node by node and with the \
           exact range of each node, with the tree an independent parser with its own error recovery builds from the \
           scanned tokens; trees of two layouts of one token list, and of a damaged one, are compared with each \
           other; non-trivial = at least 20 nodes",
    quick: 500_000,
    thorough: 20_000_000,
    tape: 400,
    run,
    fixed: None,
    assumptions: &["the range of an error node is only known to start at its first token"],
  }
}

type At = (u32, u32);

/// A node: what it is, where it is, and what is below it.
#[derive(Clone, PartialEq, Debug)]
struct Node {
  what: String,
  from: At,
  /// `None`: not specified.
  to: Option<At>,
  kids: Vec<Node>,
}

// ---- the trees of the library ----------------------------------------------

fn range(s: &Span) -> (At, At) {
  let s = format!("{s:?}");
  let v: Vec<u32> = s.split([':', '-']).map(|x| x.parse().unwrap_or(u32::MAX)).collect();
  ((v[0], v[1]), (v[2], v[3]))
}

fn of(a: &Ast) -> Node {
  use AstKind as K;
  let many = |v: &[Box<Ast>]| -> Vec<Node> { v.iter().map(|x| of(x)).collect() };
  let typed = |v: &[(String, Box<Ast>)]| -> Vec<Node> { v.iter().map(|x| of(&x.1)).collect() };
  let names = |v: &[(String, Box<Ast>)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
  let opt = |v: &Option<Box<Ast>>| v.iter().map(|x| of(x)).collect::<Vec<_>>();
  let (from, to) = range(&a.span);
  let (what, kids) = match &a.kind {
    K::IntType(_) => ("i32".into(), vec![]),
    K::ArrayType(x) => (format!("array {}", x.len), vec![of(&x.base)]),
    K::PointerType(x) => ("pointer".into(), vec![of(&x.base)]),
    K::FunType(x) => {
      (format!("function type {}", x.params.len()), [many(&x.params), opt(&x.ret)].concat())
    }
    K::SymbolRef(x) => (format!("symbol {}", x.symbol), vec![]),
    K::IntVal(x) => (format!("int {}", x.value), vec![]),
    K::UndefVal(_) => ("undef".into(), vec![]),
    K::Aggregate(x) => ("aggregate".into(), many(&x.elems)),
    K::ZeroInit(_) => ("zeroinit".into(), vec![]),
    K::SymbolDef(x) => (format!("define {}", x.name), vec![of(&x.value)]),
    K::GlobalDef(x) => (format!("global {}", x.name), vec![of(&x.value)]),
    K::MemDecl(x) => ("alloc".into(), vec![of(&x.ty)]),
    K::GlobalDecl(x) => ("global alloc".into(), vec![of(&x.ty), of(&x.init)]),
    K::Load(x) => (format!("load {}", x.symbol), vec![]),
    K::Store(x) => (format!("store to {}", x.symbol), vec![of(&x.value)]),
    K::GetPointer(x) => (format!("getptr {}", x.symbol), vec![of(&x.value)]),
    K::GetElementPointer(x) => (format!("getelemptr {}", x.symbol), vec![of(&x.value)]),
    K::BinaryExpr(x) => (format!("binary {}", x.op), vec![of(&x.lhs), of(&x.rhs)]),
    K::Branch(x) => (
      format!("br {} {} {} {}", x.tbb, x.targs.len(), x.fbb, x.fargs.len()),
      [vec![of(&x.cond)], many(&x.targs), many(&x.fargs)].concat(),
    ),
    K::Jump(x) => (format!("jump {}", x.target), many(&x.args)),
    K::FunCall(x) => (format!("call {}", x.fun), many(&x.args)),
    K::Return(x) => ("ret".into(), opt(&x.value)),
    K::FunDef(x) => (
      format!("fun {} {:?} {}", x.name, names(&x.params), x.ret.is_some()),
      [typed(&x.params), opt(&x.ret), many(&x.bbs)].concat(),
    ),
    K::Block(x) => (
      format!("block {} {:?}", x.name, names(&x.params)),
      [typed(&x.params), many(&x.stmts)].concat(),
    ),
    K::FunDecl(x) => {
      (format!("decl {} {}", x.name, x.params.len()), [many(&x.params), opt(&x.ret)].concat())
    }
    K::End(_) => ("end".into(), vec![]),
    K::Error(_) => ("error".into(), vec![]),
  };
  Node { what, from, to: Some(to), kids }
}

// ---- the trees of the text -------------------------------------------------

/// Why parsing of something stops.
enum Stop {
  /// Not the grammar.
  Wrong,
  /// The scanner rejects what follows, or what follows can not begin an item or a
  /// statement: nothing is said about the rest.
  Bad,
}

type P<X> = Result<X, Stop>;

struct Ref<'a> {
  k: &'a [Tk],
  i: usize,
  errors: usize,
  lost: bool,
}

impl Ref<'_> {
  fn t(&self) -> &T {
    &self.k[self.i].t
  }
  fn at(&self) -> At {
    self.k[self.i].start
  }
  fn wrong<X>(&mut self) -> P<X> {
    self.errors += 1;
    Err(Stop::Wrong)
  }
  fn lost<X>(&mut self) -> P<X> {
    self.errors += 1;
    self.lost = true;
    Err(Stop::Bad)
  }
  /// Goes on to the next token.
  fn next(&mut self) -> P<()> {
    if self.i + 1 < self.k.len() {
      self.i += 1;
    }
    if self.k[self.i].t == T::Bad {
      return Err(Stop::Bad);
    }
    Ok(())
  }
  fn is(&self, c: char) -> bool {
    *self.t() == T::Ch(c)
  }
  fn word(&self) -> String {
    match self.t() {
      T::Word(w) => w.clone(),
      _ => String::new(),
    }
  }
  fn eat(&mut self, c: char) -> P<()> {
    if self.is(c) {
      self.next()
    } else {
      self.wrong()
    }
  }
  fn eat_word(&mut self, w: &str) -> P<()> {
    if self.word() == w {
      self.next()
    } else {
      self.wrong()
    }
  }
  fn sym(&mut self) -> P<String> {
    match self.t().clone() {
      T::Sym(s) => self.next().map(|_| s),
      _ => self.wrong(),
    }
  }
  /// A node from the given token to the last one that was eaten.
  fn node(&self, first: usize, what: impl Into<String>, kids: Vec<Node>) -> Node {
    Node { what: what.into(), from: self.k[first].start, to: Some(self.k[self.i - 1].end), kids }
  }
  fn list<X>(&mut self, f: fn(&mut Self) -> P<X>) -> P<Vec<X>> {
    self.eat('(')?;
    let mut v = vec![];
    while !(v.is_empty() && self.is(')')) {
      v.push(f(self)?);
      if !self.is(',') {
        break;
      }
      self.next()?;
    }
    self.eat(')')?;
    Ok(v)
  }
  fn opt_list<X>(&mut self, f: fn(&mut Self) -> P<X>) -> P<Vec<X>> {
    match self.is('(') {
      true => self.list(f),
      false => Ok(vec![]),
    }
  }
  fn ty(&mut self) -> P<Node> {
    let a = self.i;
    match self.t().clone() {
      T::Word(w) if w == "i32" => {
        self.next()?;
        Ok(self.node(a, "i32", vec![]))
      }
      T::Ch('*') => {
        self.next()?;
        let b = self.ty()?;
        Ok(self.node(a, "pointer", vec![b]))
      }
      T::Ch('[') => {
        self.next()?;
        let b = self.ty()?;
        self.eat(',')?;
        let T::Int(n) = *self.t() else { return self.wrong() };
        self.next()?;
        if n < 1 {
          return self.wrong();
        }
        self.eat(']')?;
        Ok(self.node(a, format!("array {n}"), vec![b]))
      }
      T::Ch('(') => {
        let mut v = self.list(Self::ty)?;
        let n = v.len();
        v.extend(self.ret()?);
        Ok(self.node(a, format!("function type {n}"), v))
      }
      _ => self.wrong(),
    }
  }
  fn ret(&mut self) -> P<Option<Node>> {
    if !self.is(':') {
      return Ok(None);
    }
    self.next()?;
    self.ty().map(Some)
  }
  fn typed(&mut self) -> P<(String, Node)> {
    let n = self.sym()?;
    self.eat(':')?;
    Ok((n, self.ty()?))
  }
  fn value(&mut self, init: bool, sym: bool) -> P<Node> {
    let a = self.i;
    let what = match self.t() {
      T::Sym(s) if sym => format!("symbol {s}"),
      T::Int(i) => format!("int {}", *i as i32),
      T::Word(w) if w == "undef" || (init && w == "zeroinit") => w.clone(),
      T::Ch('{') if init => {
        self.next()?;
        let mut v = vec![self.value(true, false)?];
        while self.is(',') {
          self.next()?;
          v.push(self.value(true, false)?);
        }
        self.eat('}')?;
        return Ok(self.node(a, "aggregate", v));
      }
      _ => return self.wrong(),
    };
    self.next()?;
    Ok(self.node(a, what, vec![]))
  }
  fn operand(&mut self) -> P<Node> {
    self.value(false, true)
  }
  fn item(&mut self) -> P<Node> {
    let a = self.i;
    match self.word().as_str() {
      "global" => {
        self.next()?;
        let n = self.sym()?;
        self.eat('=')?;
        let b = self.i;
        self.eat_word("alloc")?;
        let t = self.ty()?;
        self.eat(',')?;
        let v = self.value(true, false)?;
        let d = self.node(b, "global alloc", vec![t, v]);
        Ok(self.node(a, format!("global {n}"), vec![d]))
      }
      "decl" => {
        self.next()?;
        let n = self.sym()?;
        let mut v = self.list(Self::ty)?;
        let len = v.len();
        v.extend(self.ret()?);
        Ok(self.node(a, format!("decl {n} {len}"), v))
      }
      "fun" => {
        self.next()?;
        let n = self.sym()?;
        let ps = self.list(Self::typed)?;
        let r = self.ret()?;
        self.eat('{')?;
        let names: Vec<String> = ps.iter().map(|x| x.0.clone()).collect();
        let what = format!("fun {n} {names:?} {}", r.is_some());
        let mut v: Vec<Node> = ps.into_iter().map(|x| x.1).chain(r).collect();
        let mut any = false;
        while !self.is('}') {
          v.push(self.block()?);
          any = true;
        }
        self.next()?;
        if !any {
          return self.wrong();
        }
        Ok(self.node(a, what, v))
      }
      _ => self.lost(),
    }
  }
  fn block(&mut self) -> P<Node> {
    let a = self.i;
    let n = self.sym()?;
    let ps = self.opt_list(Self::typed)?;
    self.eat(':')?;
    let names: Vec<String> = ps.iter().map(|x| x.0.clone()).collect();
    let mut v: Vec<Node> = ps.into_iter().map(|x| x.1).collect();
    let starts = |t: &T| match t {
      T::Sym(_) => true,
      T::Word(w) => matches!(w.as_str(), "store" | "call" | "br" | "jump" | "ret"),
      _ => false,
    };
    loop {
      let s = self.i;
      // a terminator ends the block, also if the rest of it is wrong
      let mut last = matches!(self.word().as_str(), "br" | "jump" | "ret");
      match self.stmt() {
        Ok(n) => v.push(n),
        Err(Stop::Bad) => return Err(Stop::Bad),
        Err(Stop::Wrong) => {
          // skips to what can begin a statement, or to the end of the function
          while !starts(self.t()) {
            if self.is('}') || *self.t() == T::End {
              last = true;
              break;
            }
            self.next()?;
          }
          v.push(Node { what: "error".into(), from: self.k[s].start, to: None, kids: vec![] });
        }
      }
      if last {
        let to = v.last().unwrap().to;
        let from = self.k[a].start;
        return Ok(Node { what: format!("block {n} {names:?}"), from, to, kids: v });
      }
    }
  }
  fn stmt(&mut self) -> P<Node> {
    let a = self.i;
    if let T::Sym(n) = self.t().clone() {
      self.next()?;
      self.eat('=')?;
      let e = self.expr()?;
      return Ok(self.node(a, format!("define {n}"), vec![e]));
    }
    match self.word().as_str() {
      "store" => {
        self.next()?;
        let v = self.value(true, true)?;
        self.eat(',')?;
        let d = self.sym()?;
        Ok(self.node(a, format!("store to {d}"), vec![v]))
      }
      "call" => self.call(),
      "br" => {
        self.next()?;
        let mut v = vec![self.operand()?];
        self.eat(',')?;
        let t = self.sym()?;
        let ta = self.opt_list(Self::operand)?;
        self.eat(',')?;
        let f = self.sym()?;
        let fa = self.opt_list(Self::operand)?;
        let what = format!("br {t} {} {f} {}", ta.len(), fa.len());
        v.extend(ta);
        v.extend(fa);
        Ok(self.node(a, what, v))
      }
      "jump" => {
        self.next()?;
        let t = self.sym()?;
        let v = self.opt_list(Self::operand)?;
        Ok(self.node(a, format!("jump {t}"), v))
      }
      "ret" => {
        let line = self.k[a].end.0;
        self.next()?;
        let v = match self.at().0 == line {
          true => vec![self.operand()?],
          false => vec![],
        };
        Ok(self.node(a, "ret", v))
      }
      _ => self.lost(),
    }
  }
  fn call(&mut self) -> P<Node> {
    let a = self.i;
    self.next()?;
    let f = self.sym()?;
    let v = self.list(Self::operand)?;
    Ok(self.node(a, format!("call {f}"), v))
  }
  fn expr(&mut self) -> P<Node> {
    let a = self.i;
    let w = self.word();
    match w.as_str() {
      "alloc" => {
        self.next()?;
        let t = self.ty()?;
        Ok(self.node(a, "alloc", vec![t]))
      }
      "load" => {
        self.next()?;
        let s = self.sym()?;
        Ok(self.node(a, format!("load {s}"), vec![]))
      }
      "getptr" | "getelemptr" => {
        self.next()?;
        let s = self.sym()?;
        self.eat(',')?;
        let v = self.operand()?;
        Ok(self.node(a, format!("{w} {s}"), vec![v]))
      }
      "call" => self.call(),
      _ if BINS.iter().any(|b| b.1 == w) => {
        self.next()?;
        let x = self.operand()?;
        self.eat(',')?;
        let y = self.operand()?;
        Ok(self.node(a, format!("binary {w}"), vec![x, y]))
      }
      _ => self.wrong(),
    }
  }
  /// The next tree, or `None` if the scanner stops it.
  fn tree(&mut self) -> Option<Node> {
    let from = self.at();
    if *self.t() == T::End {
      return Some(Node { what: "end".into(), from, to: Some(self.k[self.i].end), kids: vec![] });
    }
    match self.item() {
      Ok(n) => Some(n),
      Err(Stop::Bad) => None,
      Err(Stop::Wrong) => {
        // skips to what can begin an item
        while !matches!(self.word().as_str(), "global" | "fun" | "decl") && *self.t() != T::End {
          self.next().ok()?;
        }
        Some(Node { what: "error".into(), from, to: None, kids: vec![] })
      }
    }
  }
}

// ---- comparison ------------------------------------------------------------

fn count(n: &Node) -> usize {
  1 + n.kids.iter().map(count).sum::<usize>()
}

/// The first difference.
fn differ(want: &Node, got: &Node) -> Option<String> {
  if want.what != got.what || want.kids.len() != got.kids.len() {
    return Some(format!(
      "`{}` with {} children at {:?}, not `{}` with {} at {:?}",
      got.what,
      got.kids.len(),
      got.from,
      want.what,
      want.kids.len(),
      want.from
    ));
  }
  if want.from != got.from || (want.to.is_some() && want.to != got.to) {
    return Some(format!("`{}` is at {:?}-{:?}, not {:?}-{:?}", got.what, got.from, got.to, want.from, want.to));
  }
  want.kids.iter().zip(&got.kids).find_map(|(w, g)| differ(w, g))
}

fn same_kinds(a: &Node, b: &Node) -> bool {
  a.what == b.what && a.kids.len() == b.kids.len() && a.kids.iter().zip(&b.kids).all(|(a, b)| same_kinds(a, b))
}

/// All trees of a text, up to the end.
fn trees(src: &str) -> Result<(Vec<Box<Ast>>, usize), Fail> {
  Span::reset(FileType::Buffer);
  let mut v = vec![];
  let Ok(mut p) = Parser::new(Lexer::new(Cursor::new(src))) else { return Ok((v, Span::error_num())) };
  // every tree but the last one takes at least one token
  for _ in 0..src.len() + 2 {
    let Ok(a) = p.parse_next() else {
      ensure!(Span::error_num() > 0, "parser gives up", "without an error\n{src}");
      return Ok((v, Span::error_num()));
    };
    let end = matches!(a.kind, AstKind::End(_));
    v.push(a);
    if end {
      for _ in 0..2 {
        let again = p.parse_next();
        ensure!(
          again.as_ref().is_ok_and(|x| matches!(x.kind, AstKind::End(_))),
          "end not stable",
          "no end after the end\n{src}"
        );
      }
      return Ok((v, Span::error_num()));
    }
  }
  fail("parser does not end", src)
}

fn soup(t: &mut Tape, syms: &[String]) -> Vec<text::Tok> {
  let n = t.below(40) * t.growth(20);
  let mut v: Vec<String> = ["fun", "@f", "(", ")", "{", "%e", ":"].map(String::from).to_vec();
  for _ in 0..n {
    let w: &[&str] = match t.below(16) {
      0 => &["%a", "=", "add", "1", ",", "%b"],
      1 => &["store", "1", ",", "%p"],
      2 => &["call", "@g", "(", "%a", ")"],
      3 => &["ret"],
      4 => &["jump", "%e", "(", "1", ")"],
      5 => &["br", "%c", ",", "%e", ",", "%e"],
      6 => &["%b", ":"],
      7 => &["}"],
      8 => &["fun", "@g", "(", ")", "{", "%e", ":"],
      9 => &["global", "@g", "=", "alloc", "i32", ",", "0"],
      10 => &["decl", "@d", "(", "*", "i32", ")"],
      11 => &["%p", "=", "alloc", "(", "i32", ")", ":", "i32"],
      _ => {
        v.push(mutate::random_tok(t, syms));
        continue;
      }
    };
    v.extend(w.iter().map(|s| s.to_string()));
  }
  v.into_iter().map(|s| text::Tok { s, sp: text::Sp::Any }).collect()
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut mt = t.fork(60);
  let mut cfg = Cfg::text();
  cfg.unreachable = true;
  (cfg.max_funcs, cfg.max_blocks, cfg.max_insts) = (3, 5, 5);
  let syms: Vec<String> = ["@a", "%b", "%0", "%12", "@main", "%entry_1"].map(String::from).to_vec();
  let k = match mt.below(5) {
    0 => {
      c.class("soup");
      soup(t, &syms)
    }
    _ => {
      let s = gen_spec(t, &cfg);
      let mut k = text::tokens(t, &s).0;
      for _ in 0..mt.weighted(&[4, 3, 2, 1, 1, 1, 1]) {
        mutate::mutate(&mut mt, &mut k);
      }
      k
    }
  };
  let style = mt.below(2);
  let (src, _) = text::layout(t, &k, style);
  c.describe(src.clone());
  let (toks, bad) = match reff::scan(src.as_bytes()) {
    Ok(k) => (k, false),
    Err(e) => {
      let mut k = e.before;
      k.push(Tk { t: T::Bad, start: e.at, end: e.at });
      (k, true)
    }
  };
  let (asts, errors) = trees(&src)?;
  let got: Vec<Node> = asts.iter().map(|a| of(a)).collect();
  let mut r = Ref { k: &toks, i: 0, errors: 0, lost: false };
  let mut n = 0;
  let mut nodes = 0;
  if toks[0].t != T::Bad {
    while let Some(w) = r.tree() {
      let Some(g) = got.get(n) else { return fail("tree missing", format!("tree #{n}: {w:?}\n{src}")) };
      if let Some(d) = differ(&w, g) {
        return fail("wrong tree", format!("tree #{n}: {d}\n{src}"));
      }
      n += 1;
      nodes += count(&w);
      if w.what == "end" {
        break;
      }
    }
  }
  c.class_if(bad, "lexical error");
  c.class_if(r.lost, "unexpected start");
  if r.lost {
    ensure!(errors >= r.errors, "wrong number of errors", "{errors}, at least {}\n{src}", r.errors);
  } else if !bad {
    ensure!(n == got.len(), "too many trees", "{} trees, not {n}\n{src}", got.len());
    ensure!(errors == r.errors, "wrong number of errors", "{errors}, not {}\n{src}", r.errors);
    c.class_if(r.errors > 1, "several errors");
    c.class(if r.errors > 0 { "errors" } else { "valid" });
  }
  c.nontrivial = nodes >= 20;
  // the same tokens, laid out in another way
  if !bad && !r.lost && mt.chance(30) {
    let mut lines = 0;
    let mut k2 = k.clone();
    if mt.chance(50) {
      mutate::mutate(&mut mt, &mut k2);
      lines = 1;
    }
    let (src2, _) = text::layout(&mut mt, &k2, 1);
    let (asts2, _) = trees(&src2)?;
    c.class(if lines == 0 { "two layouts" } else { "two texts" });
    for (x, y) in asts.iter().zip(&asts2) {
      let same = same_kinds(&of(x), &of(y));
      ensure!(
        (x == y) == same && (y == x) == same,
        "tree equality",
        "trees that are {}the same compare as {}\n{src}\n--- and ---\n{src2}",
        if same { "" } else { "not " },
        x == y
      );
    }
    ensure!(asts.iter().all(|x| x == x), "tree equality", "a tree is not equal to itself\n{src}");
  }
  // a builder that is given the trees makes the program of the text
  if !bad && errors == 0 && mt.chance(20) {
    Span::reset(FileType::Buffer);
    let mut b = Builder::new();
    asts.iter().filter(|a| !matches!(a.kind, AstKind::End(_))).for_each(|a| b.build_on(a));
    let n = Span::error_num();
    match parse(&src) {
      Ok(p) => {
        c.class("built");
        ensure!(n == 0, "builder rejects trees", "{n} errors\n{src}");
        let (x, y) = (or("print", print(&p), &src)?, or("print", print(&b.program()), &src)?);
        ensure!(x == y, "builder makes another program", "{x}\n--- not ---\n{y}");
      }
      Err(_) => ensure!(n > 0, "builder accepts trees", "of a text that is rejected\n{src}"),
    }
  }
  Ok(())
}
