//! A reader of the LLVM IR subset that the printer may use (typed pointers),
//! with the well-formedness rules of LLVM: unique names, definitions that
//! dominate their uses, stated types that match, one phi entry per incoming
//! edge.

use crate::spec::Ty;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum LTy {
  Int(u32),
  Void,
  Label,
  Arr(usize, Rc<LTy>),
  Ptr(Rc<LTy>),
  Fun(Rc<LTy>, Rc<Vec<LTy>>),
}

impl LTy {
  pub fn of(t: &Ty) -> LTy {
    match t {
      Ty::I32 => LTy::Int(32),
      Ty::Unit => LTy::Void,
      Ty::Arr(b, n) => LTy::Arr(*n, Rc::new(LTy::of(b))),
      Ty::Ptr(b) => LTy::Ptr(Rc::new(LTy::of(b))),
      Ty::Fun(ps, r) => LTy::Ptr(Rc::new(LTy::Fun(
        Rc::new(LTy::of(r)),
        Rc::new(ps.iter().map(LTy::of).collect()),
      ))),
    }
  }
  pub fn cells(&self) -> usize {
    match self {
      LTy::Arr(n, b) => b.cells().saturating_mul(*n),
      LTy::Void | LTy::Label => 0,
      _ => 1,
    }
  }
  fn first_class(&self) -> bool {
    !matches!(self, LTy::Void | LTy::Fun(..) | LTy::Label)
  }
}

#[derive(Clone, PartialEq, Debug)]
pub enum LVal {
  Int(i64),
  Zero,
  Undef,
  Agg(Vec<(LTy, LVal)>),
  Global(String),
  Local(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum LInst {
  Alloca(LTy),
  Load(LTy, LTy, LVal),
  Store(LTy, LVal, LTy, LVal),
  Gep(LTy, LTy, LVal, Vec<(LTy, LVal)>),
  /// Operator, flags, type, operands.
  Bin(String, Vec<String>, LTy, LVal, LVal),
  Icmp(String, LTy, LVal, LVal),
  Zext(LTy, LVal, LTy),
  Phi(LTy, Vec<(LVal, String)>),
  Call(LTy, String, Vec<(LTy, LVal)>),
  Br(String),
  CondBr(LTy, LVal, String, String),
  Ret(Option<(LTy, LVal)>),
}

pub struct LBlock {
  pub label: String,
  pub insts: Vec<(Option<String>, LInst)>,
}

pub struct LFunc {
  pub name: String,
  pub ret: LTy,
  pub params: Vec<(Option<String>, LTy)>,
  pub blocks: Vec<LBlock>,
}

pub struct LGlobal {
  pub name: String,
  pub ty: LTy,
  pub init: LVal,
}

#[derive(Default)]
pub struct Module {
  pub globals: Vec<LGlobal>,
  pub funcs: Vec<LFunc>,
}

type R<T> = Result<T, String>;

fn is_name(c: char) -> bool {
  c.is_ascii_alphanumeric() || matches!(c, '-' | '$' | '.' | '_')
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
  Word(String),
  Num(i64),
  At(String),
  Pct(String),
  Label(String),
  Sym(char),
  Nl,
  End,
}

fn lex(s: &str) -> R<Vec<Tok>> {
  let b: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut out = vec![];
  while i < b.len() {
    let c = b[i];
    match c {
      '\n' => {
        out.push(Tok::Nl);
        i += 1;
      }
      ' ' | '\t' | '\r' => i += 1,
      ';' => {
        while i < b.len() && b[i] != '\n' {
          i += 1;
        }
      }
      '@' | '%' => {
        let st = i + 1;
        i += 1;
        while i < b.len() && is_name(b[i]) {
          i += 1;
        }
        let n: String = b[st..i].iter().collect();
        if n.is_empty() {
          return Err(format!("{c} without a name"));
        }
        if n.starts_with(|c: char| c.is_ascii_digit()) {
          return Err(format!("the name {c}{n} starts with a digit"));
        }
        if n.starts_with('-') {
          return Err(format!("the name {c}{n} starts with a dash"));
        }
        out.push(if c == '@' { Tok::At(n) } else { Tok::Pct(n) });
      }
      _ if is_name(c) => {
        let st = i;
        while i < b.len() && is_name(b[i]) {
          i += 1;
        }
        let w: String = b[st..i].iter().collect();
        if i < b.len() && b[i] == ':' {
          i += 1;
          out.push(Tok::Label(w));
        } else if c.is_ascii_digit() || c == '-' {
          // `[4 x i32]`: number and word are apart
          out.push(Tok::Num(w.parse().map_err(|_| format!("bad number {w}"))?));
        } else {
          out.push(Tok::Word(w));
        }
      }
      '[' | ']' | '(' | ')' | '{' | '}' | ',' | '=' | '*' => {
        out.push(Tok::Sym(c));
        i += 1;
      }
      _ => return Err(format!("unexpected character {c:?}")),
    }
  }
  out.push(Tok::End);
  Ok(out)
}

struct Rd {
  t: Vec<Tok>,
  i: usize,
}

impl Rd {
  fn peek(&self) -> &Tok {
    &self.t[self.i]
  }
  fn next(&mut self) -> Tok {
    let t = self.t[self.i].clone();
    if self.i + 1 < self.t.len() {
      self.i += 1;
    }
    t
  }
  fn sym(&mut self, c: char) -> R<()> {
    match self.next() {
      Tok::Sym(d) if c == d => Ok(()),
      t => Err(format!("expected {c:?}, found {t:?}")),
    }
  }
  fn is_sym(&mut self, c: char) -> bool {
    if *self.peek() == Tok::Sym(c) {
      self.next();
      return true;
    }
    false
  }
  fn is_word(&mut self, w: &str) -> bool {
    if matches!(self.peek(), Tok::Word(x) if x == w) {
      self.next();
      return true;
    }
    false
  }
  fn word(&mut self, w: &str) -> R<()> {
    if self.is_word(w) { Ok(()) } else { Err(format!("expected {w}, found {:?}", self.peek())) }
  }
  fn lines(&mut self) {
    while *self.peek() == Tok::Nl {
      self.next();
    }
  }
  fn eol(&mut self) -> R<()> {
    match self.next() {
      Tok::Nl | Tok::End => Ok(()),
      t => Err(format!("expected the end of the line, found {t:?}")),
    }
  }

  fn ty(&mut self) -> R<LTy> {
    let mut t = match self.next() {
      Tok::Word(w) if w == "void" => LTy::Void,
      Tok::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
        LTy::Int(w[1..].parse().unwrap())
      }
      Tok::Sym('[') => {
        let n = match self.next() {
          Tok::Num(n) if n >= 0 => n as usize,
          t => return Err(format!("bad array length {t:?}")),
        };
        self.word("x")?;
        let b = self.ty()?;
        if !b.first_class() {
          return Err("array of a type that has no size".into());
        }
        self.sym(']')?;
        LTy::Arr(n, Rc::new(b))
      }
      t => return Err(format!("expected a type, found {t:?}")),
    };
    loop {
      if self.is_sym('*') {
        if t == LTy::Void {
          return Err("pointer to void".into());
        }
        t = LTy::Ptr(Rc::new(t));
      } else if *self.peek() == Tok::Sym('(') {
        self.next();
        let mut ps = vec![];
        if !self.is_sym(')') {
          loop {
            let p = self.ty()?;
            if !p.first_class() {
              return Err("parameter of a type that is not first-class".into());
            }
            ps.push(p);
            if self.is_sym(')') {
              break;
            }
            self.sym(',')?;
          }
        }
        t = LTy::Fun(Rc::new(t), Rc::new(ps));
      } else {
        return Ok(t);
      }
    }
  }

  /// A value of type `t`; constants are checked against it.
  fn val(&mut self, t: &LTy) -> R<LVal> {
    match self.next() {
      Tok::Num(n) => match t {
        LTy::Int(32) => {
          if n < i32::MIN as i64 || n > u32::MAX as i64 {
            return Err(format!("{n} does not fit i32"));
          }
          Ok(LVal::Int(n as i32 as i64))
        }
        LTy::Int(1) if n == 0 || n == 1 => Ok(LVal::Int(n)),
        _ => Err(format!("integer constant {n} of type {t:?}")),
      },
      Tok::Word(w) if w == "zeroinitializer" && t.first_class() => Ok(LVal::Zero),
      Tok::Word(w) if w == "undef" && t.first_class() => Ok(LVal::Undef),
      Tok::Word(w) if w == "null" && matches!(t, LTy::Ptr(_)) => Ok(LVal::Zero),
      Tok::Word(w) if w == "true" && *t == LTy::Int(1) => Ok(LVal::Int(1)),
      Tok::Word(w) if w == "false" && *t == LTy::Int(1) => Ok(LVal::Int(0)),
      Tok::Sym('[') => {
        let LTy::Arr(n, b) = t else { return Err(format!("array constant of type {t:?}")) };
        let mut es = vec![];
        if !self.is_sym(']') {
          loop {
            let et = self.ty()?;
            if et != **b {
              return Err(format!("element of type {et:?} in a constant of type {t:?}"));
            }
            let v = self.val(&et)?;
            es.push((et, v));
            if self.is_sym(']') {
              break;
            }
            self.sym(',')?;
          }
        }
        if es.len() != *n {
          return Err(format!("{} elements in a constant of type {t:?}", es.len()));
        }
        Ok(LVal::Agg(es))
      }
      Tok::At(n) => Ok(LVal::Global(n)),
      Tok::Pct(n) => Ok(LVal::Local(n)),
      x => Err(format!("expected a value of type {t:?}, found {x:?}")),
    }
  }
  fn tval(&mut self) -> R<(LTy, LVal)> {
    let t = self.ty()?;
    let v = self.val(&t)?;
    Ok((t, v))
  }
  fn pct(&mut self) -> R<String> {
    match self.next() {
      Tok::Pct(n) => Ok(n),
      t => Err(format!("expected a local name, found {t:?}")),
    }
  }
  fn at(&mut self) -> R<String> {
    match self.next() {
      Tok::At(n) => Ok(n),
      t => Err(format!("expected a global name, found {t:?}")),
    }
  }

  fn module(&mut self) -> R<Module> {
    let mut m = Module::default();
    loop {
      self.lines();
      match self.next() {
        Tok::End => return Ok(m),
        Tok::At(name) => {
          self.sym('=')?;
          self.word("global")?;
          let (ty, init) = self.tval()?;
          if matches!(init, LVal::Local(_)) {
            return Err("local value in a global initializer".into());
          }
          m.globals.push(LGlobal { name, ty, init });
          self.eol()?;
        }
        Tok::Word(w) if w == "declare" || w == "define" => {
          let f = self.func(w == "define").map_err(|e| format!("function #{}: {e}", m.funcs.len()))?;
          m.funcs.push(f);
        }
        t => return Err(format!("unexpected {t:?} at the top level")),
      }
    }
  }

  fn func(&mut self, def: bool) -> R<LFunc> {
    let ret = self.ty()?;
    let name = self.at()?;
    self.sym('(')?;
    let mut params = vec![];
    if !self.is_sym(')') {
      loop {
        let t = self.ty()?;
        if !t.first_class() {
          return Err("parameter of a type that is not first-class".into());
        }
        let n = match self.peek() {
          Tok::Pct(_) => Some(self.pct()?),
          _ => None,
        };
        if def && n.is_none() {
          return Err("parameter without a name".into());
        }
        params.push((n, t));
        if self.is_sym(')') {
          break;
        }
        self.sym(',')?;
      }
    }
    let mut f = LFunc { name, ret, params, blocks: vec![] };
    if !def {
      self.eol()?;
      return Ok(f);
    }
    self.sym('{')?;
    self.eol()?;
    loop {
      self.lines();
      match self.peek().clone() {
        Tok::Sym('}') => {
          self.next();
          self.eol()?;
          break;
        }
        Tok::Label(l) => {
          self.next();
          f.blocks.push(LBlock { label: l, insts: vec![] });
        }
        Tok::End => return Err("missing }".into()),
        _ => {
          let i = self.inst()?;
          self.eol()?;
          match f.blocks.last_mut() {
            Some(b) => b.insts.push(i),
            None => return Err("instruction before the first label".into()),
          }
        }
      }
    }
    if f.blocks.is_empty() {
      return Err("definition without a body".into());
    }
    Ok(f)
  }

  fn inst(&mut self) -> R<(Option<String>, LInst)> {
    let name = match self.peek() {
      Tok::Pct(_) => {
        let n = self.pct()?;
        self.sym('=')?;
        Some(n)
      }
      _ => None,
    };
    let Tok::Word(op) = self.next() else {
      return Err("expected an instruction".into());
    };
    let i = match op.as_str() {
      "alloca" => LInst::Alloca(self.ty()?),
      "load" => {
        let t = self.ty()?;
        self.sym(',')?;
        let (pt, p) = self.tval()?;
        LInst::Load(t, pt, p)
      }
      "store" => {
        let (t, v) = self.tval()?;
        self.sym(',')?;
        let (pt, p) = self.tval()?;
        LInst::Store(t, v, pt, p)
      }
      "getelementptr" => {
        self.is_word("inbounds");
        let t = self.ty()?;
        self.sym(',')?;
        let (pt, p) = self.tval()?;
        let mut ix = vec![];
        while self.is_sym(',') {
          ix.push(self.tval()?);
        }
        LInst::Gep(t, pt, p, ix)
      }
      "add" | "sub" | "mul" | "sdiv" | "udiv" | "srem" | "urem" | "and" | "or" | "xor" | "shl"
      | "lshr" | "ashr" => {
        let mut fl = vec![];
        for w in ["nuw", "nsw", "exact"] {
          if self.is_word(w) {
            fl.push(w.to_string());
          }
        }
        let t = self.ty()?;
        let a = self.val(&t)?;
        self.sym(',')?;
        let b = self.val(&t)?;
        LInst::Bin(op, fl, t, a, b)
      }
      "icmp" => {
        let Tok::Word(c) = self.next() else { return Err("icmp without a condition".into()) };
        if !["eq", "ne", "sgt", "slt", "sge", "sle", "ugt", "ult", "uge", "ule"].contains(&c.as_str())
        {
          return Err(format!("icmp {c}"));
        }
        let t = self.ty()?;
        let a = self.val(&t)?;
        self.sym(',')?;
        let b = self.val(&t)?;
        LInst::Icmp(c, t, a, b)
      }
      "zext" => {
        let (t, v) = self.tval()?;
        self.word("to")?;
        LInst::Zext(t, v, self.ty()?)
      }
      "phi" => {
        let t = self.ty()?;
        let mut es = vec![];
        loop {
          self.sym('[')?;
          let v = self.val(&t)?;
          self.sym(',')?;
          let b = self.pct()?;
          self.sym(']')?;
          es.push((v, b));
          if !self.is_sym(',') {
            break;
          }
        }
        LInst::Phi(t, es)
      }
      "call" => {
        let t = self.ty()?;
        let f = self.at()?;
        self.sym('(')?;
        let mut args = vec![];
        if !self.is_sym(')') {
          loop {
            args.push(self.tval()?);
            if self.is_sym(')') {
              break;
            }
            self.sym(',')?;
          }
        }
        LInst::Call(t, f, args)
      }
      "br" => {
        if self.is_word("label") {
          LInst::Br(self.pct()?)
        } else {
          let (t, c) = self.tval()?;
          self.sym(',')?;
          self.word("label")?;
          let a = self.pct()?;
          self.sym(',')?;
          self.word("label")?;
          LInst::CondBr(t, c, a, self.pct()?)
        }
      }
      "ret" => {
        let func = self.t.get(self.i + 1) == Some(&Tok::Sym('('));
        if !func && self.is_word("void") {
          LInst::Ret(None)
        } else {
          LInst::Ret(Some(self.tval()?))
        }
      }
      _ => return Err(format!("unknown instruction {op}")),
    };
    Ok((name, i))
  }
}

pub fn read(s: &str) -> R<Module> {
  let mut r = Rd { t: lex(s)?, i: 0 };
  let m = r.module().map_err(|e| {
    let line = r.t[..r.i].iter().filter(|t| **t == Tok::Nl).count() + 1;
    format!("line {line}: {e}")
  })?;
  check(&m)?;
  Ok(m)
}

macro_rules! ck {
  ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

impl LInst {
  pub fn succs(&self) -> Vec<&String> {
    match self {
      LInst::Br(b) => vec![b],
      LInst::CondBr(_, _, a, b) => vec![a, b],
      _ => vec![],
    }
  }
  fn is_term(&self) -> bool {
    matches!(self, LInst::Br(_) | LInst::CondBr(..) | LInst::Ret(_))
  }
}

/// All names, types and the control flow.
fn check(m: &Module) -> R<()> {
  let mut g: HashMap<&str, LTy> = HashMap::new();
  for x in &m.globals {
    ck!(g.insert(&x.name, LTy::Ptr(Rc::new(x.ty.clone()))).is_none(), "@{} defined twice", x.name);
  }
  for f in &m.funcs {
    let t = LTy::Fun(Rc::new(f.ret.clone()), Rc::new(f.params.iter().map(|p| p.1.clone()).collect()));
    ck!(
      g.insert(&f.name, LTy::Ptr(Rc::new(t))).is_none(),
      "@{} defined twice",
      f.name
    );
  }
  for x in &m.globals {
    check_val(&g, &HashMap::new(), &x.ty, &x.init)?;
  }
  for f in &m.funcs {
    check_func(&g, f).map_err(|e| format!("@{}: {e}", f.name))?;
  }
  Ok(())
}

type Locals<'a> = HashMap<&'a str, LTy>;

fn check_val(g: &HashMap<&str, LTy>, l: &Locals, t: &LTy, v: &LVal) -> R<()> {
  match v {
    LVal::Agg(es) => {
      for (t, e) in es {
        ck!(!matches!(e, LVal::Local(_)), "local value in a constant");
        check_val(g, l, t, e)?;
      }
    }
    LVal::Global(n) => match g.get(n.as_str()) {
      Some(x) => ck!(x == t, "@{n} of type {x:?} is used as {t:?}"),
      None => return Err(format!("@{n} is not defined")),
    },
    LVal::Local(n) => match l.get(n.as_str()) {
      Some(x) => ck!(x == t, "%{n} of type {x:?} is used as {t:?}"),
      None => return Err(format!("%{n} is not defined")),
    },
    _ => {}
  }
  Ok(())
}

fn result(i: &LInst, g: &HashMap<&str, LTy>) -> R<LTy> {
  let pointee = |t: &LTy| match t {
    LTy::Ptr(b) => Ok((**b).clone()),
    t => Err(format!("{t:?} is not a pointer")),
  };
  Ok(match i {
    LInst::Alloca(t) => {
      ck!(t.first_class(), "alloca of {t:?}");
      LTy::Ptr(Rc::new(t.clone()))
    }
    LInst::Load(t, p, _) => {
      ck!(pointee(p)? == *t && t.first_class(), "load of {t:?} from {p:?}");
      t.clone()
    }
    LInst::Store(t, _, p, _) => {
      ck!(pointee(p)? == *t && t.first_class(), "store of {t:?} to {p:?}");
      LTy::Void
    }
    LInst::Gep(t, p, _, ix) => {
      ck!(pointee(p)? == *t, "getelementptr of {t:?} with {p:?}");
      ck!(!ix.is_empty(), "getelementptr without an index");
      ck!(!matches!(t, LTy::Fun(..)), "getelementptr of a function");
      let mut t = t.clone();
      for (k, (it, _)) in ix.iter().enumerate() {
        ck!(matches!(it, LTy::Int(_)), "index of type {it:?}");
        if k > 0 {
          t = match t {
            LTy::Arr(_, b) => (*b).clone(),
            t => return Err(format!("getelementptr into {t:?}")),
          };
        }
      }
      LTy::Ptr(Rc::new(t))
    }
    LInst::Bin(op, _, t, _, _) => {
      ck!(matches!(t, LTy::Int(_)), "{op} of {t:?}");
      t.clone()
    }
    LInst::Icmp(_, t, _, _) => {
      ck!(matches!(t, LTy::Int(_) | LTy::Ptr(_)), "icmp of {t:?}");
      LTy::Int(1)
    }
    LInst::Zext(a, _, b) => match (a, b) {
      (LTy::Int(x), LTy::Int(y)) if x < y => b.clone(),
      _ => return Err(format!("zext from {a:?} to {b:?}")),
    },
    LInst::Phi(t, _) => {
      ck!(t.first_class(), "phi of {t:?}");
      t.clone()
    }
    LInst::Call(t, f, args) => {
      let Some(LTy::Ptr(ft)) = g.get(f.as_str()) else { return Err(format!("@{f} is not defined")) };
      let LTy::Fun(r, ps) = &**ft else { return Err(format!("@{f} is not a function")) };
      ck!(**r == *t, "call of @{f}, which returns {r:?}, as {t:?}");
      let at: Vec<LTy> = args.iter().map(|a| a.0.clone()).collect();
      ck!(at == **ps, "call of @{f} with {at:?} instead of {ps:?}");
      t.clone()
    }
    LInst::Br(_) | LInst::Ret(_) => LTy::Void,
    LInst::CondBr(t, ..) => {
      ck!(*t == LTy::Int(1), "br on {t:?}");
      LTy::Void
    }
  })
}

fn check_func(g: &HashMap<&str, LTy>, f: &LFunc) -> R<()> {
  let mut l: Locals = HashMap::new();
  for (n, t) in &f.params {
    if let Some(n) = n {
      ck!(l.insert(n, t.clone()).is_none(), "%{n} defined twice");
    }
  }
  if f.blocks.is_empty() {
    return Ok(());
  }
  let mut idx: HashMap<&str, usize> = HashMap::new();
  // where each value is defined: block and position
  let mut at: HashMap<&str, (usize, usize)> = HashMap::new();
  for (bi, b) in f.blocks.iter().enumerate() {
    ck!(l.insert(&b.label, LTy::Label).is_none(), "%{} defined twice", b.label);
    idx.insert(&b.label, bi);
    for (k, (n, i)) in b.insts.iter().enumerate() {
      let t = result(i, g).map_err(|e| format!("{}: {e}", b.label))?;
      match n {
        Some(n) => {
          ck!(t != LTy::Void, "%{n} names an instruction without a value");
          ck!(l.insert(n, t).is_none(), "%{n} defined twice");
          at.insert(n, (bi, k));
        }
        None => ck!(
          t == LTy::Void || matches!(i, LInst::Call(..)),
          "{i:?} has a value but no name"
        ),
      }
    }
  }
  let n = f.blocks.len();
  let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
  let mut succs: Vec<Vec<usize>> = vec![vec![]; n];
  for (bi, b) in f.blocks.iter().enumerate() {
    ck!(!b.insts.is_empty(), "block {} is empty", b.label);
    for (k, (_, i)) in b.insts.iter().enumerate() {
      ck!(
        i.is_term() == (k + 1 == b.insts.len()),
        "block {}: terminator in a wrong place, or none",
        b.label
      );
      ck!(
        !matches!(i, LInst::Phi(..))
          || k == 0
          || matches!(b.insts[k - 1].1, LInst::Phi(..)),
        "block {}: phi after another instruction",
        b.label
      );
      for s in i.succs() {
        let s = *idx.get(s.as_str()).ok_or(format!("label %{s} is not defined"))?;
        ck!(s != 0, "the entry block has a predecessor");
        succs[bi].push(s);
        preds[s].push(bi);
      }
    }
  }
  // dominators over reachable blocks
  let mut reach = vec![false; n];
  let mut work = vec![0];
  while let Some(b) = work.pop() {
    if !std::mem::replace(&mut reach[b], true) {
      work.extend(&succs[b]);
    }
  }
  let dom = Dom::new(&succs, &preds);
  let avail = |v: &LVal, b: usize, k: usize| -> R<()> {
    if let LVal::Local(n) = v {
      if let Some((db, dk)) = at.get(n.as_str()) {
        let ok = !reach[b] || if *db == b { *dk < k } else { dom.over(*db, b) };
        ck!(ok, "%{n} does not dominate its use in {}", f.blocks[b].label);
      }
    }
    Ok(())
  };
  for (bi, b) in f.blocks.iter().enumerate() {
    for (k, (_, i)) in b.insts.iter().enumerate() {
      let mut us: Vec<(LTy, &LVal)> = vec![];
      match i {
        LInst::Load(_, t, v) | LInst::Zext(t, v, _) | LInst::CondBr(t, v, ..) => {
          us.push((t.clone(), v))
        }
        LInst::Store(t, v, u, w) => us.extend([(t.clone(), v), (u.clone(), w)]),
        LInst::Gep(_, t, v, ix) => {
          us.push((t.clone(), v));
          us.extend(ix.iter().map(|(t, v)| (t.clone(), v)));
        }
        LInst::Bin(_, _, t, a, b) | LInst::Icmp(_, t, a, b) => {
          us.extend([(t.clone(), a), (t.clone(), b)])
        }
        LInst::Call(_, _, args) => us.extend(args.iter().map(|(t, v)| (t.clone(), v))),
        LInst::Ret(None) => ck!(f.ret == LTy::Void, "ret void in a function of {:?}", f.ret),
        LInst::Ret(Some((t, v))) => {
          ck!(f.ret == *t, "ret of {t:?} in a function of {:?}", f.ret);
          us.push((t.clone(), v));
        }
        LInst::Phi(t, es) => {
          let mut from: Vec<usize> = vec![];
          for (v, p) in es {
            let p = *idx.get(p.as_str()).ok_or(format!("label %{p} is not defined"))?;
            from.push(p);
            check_val(g, &l, t, v)?;
            avail(v, p, usize::MAX)?;
          }
          from.sort();
          let mut ps = preds[bi].clone();
          ps.sort();
          ck!(
            from == ps,
            "block {}: phi entries for {from:?}, predecessors are {ps:?}",
            b.label
          );
        }
        _ => {}
      }
      for (t, v) in us {
        check_val(g, &l, &t, v).map_err(|e| format!("{}: {e}", b.label))?;
        avail(v, bi, k)?;
      }
    }
  }
  Ok(())
}

/// Which blocks dominate which: immediate dominators over the reachable
/// blocks, and when a walk over their tree enters and leaves each.
struct Dom {
  enter: Vec<usize>,
  leave: Vec<usize>,
}

impl Dom {
  fn new(succs: &[Vec<usize>], preds: &[Vec<usize>]) -> Dom {
    let n = succs.len();
    // reverse postorder
    let (mut num, mut post, mut seen) = (vec![usize::MAX; n], vec![], vec![false; n]);
    let mut work = vec![(0, 0)];
    seen[0] = true;
    while let Some((b, k)) = work.pop() {
      if let Some(&x) = succs[b].get(k) {
        work.push((b, k + 1));
        if !std::mem::replace(&mut seen[x], true) {
          work.push((x, 0));
        }
      } else {
        post.push(b);
      }
    }
    post.reverse();
    for (i, b) in post.iter().enumerate() {
      num[*b] = i;
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    loop {
      let mut changed = false;
      for &b in &post[1..] {
        let mut d = usize::MAX;
        for &p in &preds[b] {
          if idom[p] == usize::MAX {
            continue;
          }
          if d == usize::MAX {
            d = p;
            continue;
          }
          let mut p = p;
          while d != p {
            while num[d] > num[p] {
              d = idom[d];
            }
            while num[p] > num[d] {
              p = idom[p];
            }
          }
        }
        if idom[b] != d {
          idom[b] = d;
          changed = true;
        }
      }
      if !changed {
        break;
      }
    }
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    for &b in &post[1..] {
      kids[idom[b]].push(b);
    }
    let (mut enter, mut leave) = (vec![usize::MAX; n], vec![0; n]);
    let (mut time, mut work) = (0, vec![(0, 0)]);
    while let Some((b, k)) = work.pop() {
      if k == 0 {
        enter[b] = time;
        time += 1;
      }
      if let Some(&x) = kids[b].get(k) {
        work.push((b, k + 1));
        work.push((x, 0));
      } else {
        leave[b] = time;
      }
    }
    Dom { enter, leave }
  }
  /// Does reachable `a` dominate reachable `b`?
  fn over(&self, a: usize, b: usize) -> bool {
    self.enter[a] != usize::MAX && self.enter[a] <= self.enter[b] && self.enter[b] < self.leave[a]
  }
}

#[cfg(test)]
#[test]
fn dominators() {
  // against the definition: `a` dominates `b` if `b` is out of reach without `a`
  let mut x = 1u64;
  let mut rnd = |n: usize| {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    (x % n as u64) as usize
  };
  for _ in 0..20_000 {
    let n = 1 + rnd(9);
    let (mut succs, mut preds) = (vec![vec![]; n], vec![vec![]; n]);
    for b in 0..n {
      for _ in 0..rnd(3) {
        let s = rnd(n);
        if s != 0 {
          succs[b].push(s);
          preds[s].push(b);
        }
      }
    }
    let reach = |without: usize| {
      let mut r = vec![false; n];
      let mut work = vec![0];
      while let Some(b) = work.pop() {
        if b != without && !std::mem::replace(&mut r[b], true) {
          work.extend(&succs[b]);
        }
      }
      r
    };
    let all = reach(n);
    let d = Dom::new(&succs, &preds);
    for a in 0..n {
      let r = reach(a);
      for b in 0..n {
        if all[a] && all[b] {
          assert_eq!(d.over(a, b), !r[b], "{succs:?} {a} {b}");
        }
      }
    }
  }
}
