//! Edit histories over a whole program, with a model that is compared with
//! the real program after every edit.  The model keeps handles as they are
//! (they are opaque names), but derives users, types, parents and order itself.

use crate::api::{bin, ty, unbin, unty};
use crate::gen::{gen_ty, Cfg};
use crate::runner::*;
use crate::spec::{Bin, Ty, BINS};
use crate::tape::Tape;
use crate::ensure;
use koopa::ir::builder_traits::*;
use koopa::ir::dfg::DataFlowGraph;
use koopa::ir::entities::ValueData;
use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, Value, ValueKind};
use std::collections::{HashMap, HashSet};

#[derive(Clone, PartialEq, Debug)]
pub enum Mk {
  Int(i32),
  Zero,
  Undef,
  Agg(Vec<Value>),
  FArg(usize),
  BArg(usize),
  Alloc,
  GAlloc(Value),
  Load(Value),
  Store(Value, Value),
  GetPtr(Value, Value),
  GetElemPtr(Value, Value),
  Bin(Bin, Value, Value),
  Br(Value, BasicBlock, BasicBlock, Vec<Value>, Vec<Value>),
  Jump(BasicBlock, Vec<Value>),
  Call(Function, Vec<Value>),
  Ret(Option<Value>),
}

impl Mk {
  pub fn ops(&self) -> Vec<Value> {
    match self {
      Mk::Agg(v) | Mk::Jump(_, v) | Mk::Call(_, v) => v.clone(),
      Mk::GAlloc(a) | Mk::Load(a) => vec![*a],
      Mk::Store(a, b) | Mk::GetPtr(a, b) | Mk::GetElemPtr(a, b) | Mk::Bin(_, a, b) => vec![*a, *b],
      Mk::Br(c, _, _, x, y) => {
        let mut v = vec![*c];
        v.extend(x);
        v.extend(y);
        v
      }
      Mk::Ret(v) => v.iter().copied().collect(),
      _ => vec![],
    }
  }
  pub fn bbs(&self) -> Vec<BasicBlock> {
    match self {
      Mk::Br(_, a, b, ..) => vec![*a, *b],
      Mk::Jump(a, _) => vec![*a],
      _ => vec![],
    }
  }
  fn is_const(&self) -> bool {
    matches!(self, Mk::Int(_) | Mk::Zero | Mk::Undef | Mk::Agg(_))
  }
  pub fn word(&self) -> &'static str {
    match self {
      Mk::Int(_) => "int",
      Mk::Zero => "zeroinit",
      Mk::Undef => "undef",
      Mk::Agg(_) => "aggregate",
      Mk::FArg(_) => "function argument",
      Mk::BArg(_) => "block argument",
      Mk::Alloc => "alloc",
      Mk::GAlloc(_) => "global alloc",
      Mk::Load(_) => "load",
      Mk::Store(..) => "store",
      Mk::GetPtr(..) => "getptr",
      Mk::GetElemPtr(..) => "getelemptr",
      Mk::Bin(..) => "binary",
      Mk::Br(..) => "branch",
      Mk::Jump(..) => "jump",
      Mk::Call(..) => "call",
      Mk::Ret(_) => "return",
    }
  }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MVal {
  pub ty: Ty,
  pub name: Option<String>,
  pub kind: Mk,
}

pub struct MBb {
  pub name: Option<String>,
  pub params: Vec<Value>,
}

pub struct MFunc {
  pub h: Function,
  pub name: String,
  pub ptys: Vec<Ty>,
  pub ret: Ty,
  pub params: Vec<Value>,
  pub vals: Vec<(Value, MVal)>,
  pub bbs: Vec<(BasicBlock, MBb)>,
  pub layout: Vec<(BasicBlock, Vec<Value>)>,
}

impl MFunc {
  fn val(&self, v: Value) -> Option<&MVal> {
    self.vals.iter().find(|x| x.0 == v).map(|x| &x.1)
  }
  fn val_mut(&mut self, v: Value) -> &mut MVal {
    &mut self.vals.iter_mut().find(|x| x.0 == v).unwrap().1
  }
  fn bb(&self, b: BasicBlock) -> Option<&MBb> {
    self.bbs.iter().find(|x| x.0 == b).map(|x| &x.1)
  }
  fn parent(&self, v: Value) -> Option<BasicBlock> {
    self.layout.iter().find(|b| b.1.contains(&v)).map(|b| b.0)
  }
}

#[derive(Default)]
pub struct Model {
  pub gvals: Vec<(Value, MVal)>,
  pub glayout: Vec<Value>,
  pub funcs: Vec<MFunc>,
  dead_vals: Vec<Value>,
  dead_bbs: Vec<BasicBlock>,
  dead_funcs: Vec<Function>,
  /// Values of removed functions: global values may still list them.
  stale: HashSet<Value>,
  seen_vals: HashSet<Value>,
  seen_bbs: HashSet<BasicBlock>,
  seen_funcs: HashSet<Function>,
}

/// A request to a builder.
#[derive(Clone, Debug)]
pub enum Req {
  Int(i32),
  Zero(Ty),
  Undef(Ty),
  Agg(Vec<Value>),
  GAlloc(Value),
  Alloc(Ty),
  Load(Value),
  Store(Value, Value),
  GetPtr(Value, Value),
  GetElemPtr(Value, Value),
  Bin(Bin, Value, Value),
  Br(Value, BasicBlock, BasicBlock),
  BrArgs(Value, BasicBlock, BasicBlock, Vec<Value>, Vec<Value>),
  Jump(BasicBlock),
  JumpArgs(BasicBlock, Vec<Value>),
  Call(Function, Vec<Value>),
  Ret(Option<Value>),
  /// A copy of the data of an existing value.
  Copy(Value),
}

fn local_req<B: LocalInstBuilder>(b: B, r: &Req, copy: Option<ValueData>) -> Value {
  match r.clone() {
    Req::Int(i) => b.integer(i),
    Req::Zero(t) => b.zero_init(ty(&t)),
    Req::Undef(t) => b.undef(ty(&t)),
    Req::Agg(v) => b.aggregate(v),
    Req::GAlloc(_) => unreachable!(),
    Req::Alloc(t) => b.alloc(ty(&t)),
    Req::Load(a) => b.load(a),
    Req::Store(a, d) => b.store(a, d),
    Req::GetPtr(a, i) => b.get_ptr(a, i),
    Req::GetElemPtr(a, i) => b.get_elem_ptr(a, i),
    Req::Bin(o, x, y) => b.binary(bin(o), x, y),
    Req::Br(c, x, y) => b.branch(c, x, y),
    Req::BrArgs(c, x, y, p, q) => b.branch_with_args(c, x, y, p, q),
    Req::Jump(x) => b.jump(x),
    Req::JumpArgs(x, p) => b.jump_with_args(x, p),
    Req::Call(f, a) => b.call(f, a),
    Req::Ret(v) => b.ret(v),
    Req::Copy(_) => b.raw(copy.unwrap()),
  }
}

fn global_req<B: GlobalInstBuilder>(b: B, r: &Req, copy: Option<ValueData>) -> Value {
  match r.clone() {
    Req::Int(i) => b.integer(i),
    Req::Zero(t) => b.zero_init(ty(&t)),
    Req::Undef(t) => b.undef(ty(&t)),
    Req::Agg(v) => b.aggregate(v),
    Req::GAlloc(v) => b.global_alloc(v),
    Req::Copy(_) => b.raw(copy.unwrap()),
    _ => unreachable!(),
  }
}

fn data_kind(d: &ValueData) -> Mk {
  match d.kind() {
    ValueKind::Integer(i) => Mk::Int(i.value()),
    ValueKind::ZeroInit(_) => Mk::Zero,
    ValueKind::Undef(_) => Mk::Undef,
    ValueKind::Aggregate(a) => Mk::Agg(a.elems().to_vec()),
    ValueKind::FuncArgRef(a) => Mk::FArg(a.index()),
    ValueKind::BlockArgRef(a) => Mk::BArg(a.index()),
    ValueKind::Alloc(_) => Mk::Alloc,
    ValueKind::GlobalAlloc(g) => Mk::GAlloc(g.init()),
    ValueKind::Load(l) => Mk::Load(l.src()),
    ValueKind::Store(s) => Mk::Store(s.value(), s.dest()),
    ValueKind::GetPtr(g) => Mk::GetPtr(g.src(), g.index()),
    ValueKind::GetElemPtr(g) => Mk::GetElemPtr(g.src(), g.index()),
    ValueKind::Binary(b) => Mk::Bin(unbin(b.op()), b.lhs(), b.rhs()),
    ValueKind::Branch(b) => Mk::Br(
      b.cond(),
      b.true_bb(),
      b.false_bb(),
      b.true_args().to_vec(),
      b.false_args().to_vec(),
    ),
    ValueKind::Jump(j) => Mk::Jump(j.target(), j.args().to_vec()),
    ValueKind::Call(c) => Mk::Call(c.callee(), c.args().to_vec()),
    ValueKind::Return(r) => Mk::Ret(r.value()),
  }
}

fn is_const_kind(k: &ValueKind) -> (bool, bool, bool) {
  (k.is_const(), k.is_global_alloc(), k.is_local_inst())
}

/// What may go on in a history.
#[derive(Clone, Copy)]
pub struct Weights {
  pub values: u32,
  pub layout: u32,
  pub program: u32,
  /// Requests that are mostly ill-typed or mention absent things.
  pub wild: u32,
  pub steps: usize,
}

pub struct Eng<'t, 'd, 'c> {
  pub p: Program,
  pub m: Model,
  t: &'t mut Tape<'d>,
  c: &'c mut Case,
  log: Vec<String>,
  /// Short names of handles, for the log.
  ids: Vec<Value>,
  bids: Vec<BasicBlock>,
  fids: Vec<Function>,
  cfg: Cfg,
  pub done: bool,
  /// A function that was removed and may be added again.
  parked: Option<(FunctionData, MFunc)>,
}

fn ok_name(n: &Option<String>) -> bool {
  n.as_ref().is_none_or(|n| n.len() > 1 && (n.starts_with('%') || n.starts_with('@')))
}

/// The typing rules, from the documentation of the builder methods.
/// `f`: the function for local requests.
pub fn rule(m: &Model, f: Option<usize>, r: &Req) -> Option<MVal> {
  let look = |v: &Value| -> Option<&MVal> {
    m.gvals
      .iter()
      .find(|x| x.0 == *v)
      .map(|x| &x.1)
      .or_else(|| f.and_then(|f| m.funcs[f].val(*v)))
  };
  let t_of = |v: &Value| look(v).map(|x| x.ty.clone());
  let bb = |b: &BasicBlock| -> Option<Vec<Ty>> {
    m.funcs[f?].bb(*b)?.params.iter().map(t_of).collect()
  };
  let args = |want: &[Ty], got: &[Value]| -> Option<()> {
    if want.len() != got.len() {
      return None;
    }
    want.iter().zip(got).all(|(w, g)| t_of(g).as_ref() == Some(w)).then_some(())
  };
  let i32 = |v: &Value| (t_of(v)? == Ty::I32).then_some(());
  let (ty, kind) = match r {
    Req::Int(i) => (Ty::I32, Mk::Int(*i)),
    Req::Zero(t) if !t.is_unit() => (t.clone(), Mk::Zero),
    Req::Undef(t) if !t.is_unit() => (t.clone(), Mk::Undef),
    Req::Zero(_) | Req::Undef(_) => return None,
    Req::Agg(v) => {
      let b = t_of(v.first()?)?;
      for e in v {
        let e = look(e)?;
        if !e.kind.is_const() || e.ty != b || e.ty.is_unit() {
          return None;
        }
      }
      (Ty::arr(b, v.len()), Mk::Agg(v.clone()))
    }
    Req::GAlloc(v) => {
      let t = t_of(v)?;
      if t.is_unit() {
        return None;
      }
      (Ty::ptr(t), Mk::GAlloc(*v))
    }
    Req::Alloc(t) => {
      if t.is_unit() {
        return None;
      }
      (Ty::ptr(t.clone()), Mk::Alloc)
    }
    Req::Load(v) => (t_of(v)?.pointee()?.clone(), Mk::Load(*v)),
    Req::Store(v, d) => {
      if t_of(d)? != Ty::ptr(t_of(v)?) {
        return None;
      }
      (Ty::Unit, Mk::Store(*v, *d))
    }
    Req::GetPtr(s, i) => {
      i32(i)?;
      let t = t_of(s)?;
      t.pointee()?;
      (t, Mk::GetPtr(*s, *i))
    }
    Req::GetElemPtr(s, i) => {
      i32(i)?;
      let Ty::Arr(b, _) = t_of(s)?.pointee()?.clone() else { return None };
      (Ty::Ptr(b), Mk::GetElemPtr(*s, *i))
    }
    Req::Bin(o, x, y) => {
      i32(x)?;
      i32(y)?;
      (Ty::I32, Mk::Bin(*o, *x, *y))
    }
    Req::Br(c, x, y) => {
      i32(c)?;
      if !bb(x)?.is_empty() || !bb(y)?.is_empty() {
        return None;
      }
      (Ty::Unit, Mk::Br(*c, *x, *y, vec![], vec![]))
    }
    Req::BrArgs(c, x, y, p, q) => {
      i32(c)?;
      if x == y && !(p.is_empty() && q.is_empty()) {
        return None;
      }
      args(&bb(x)?, p)?;
      args(&bb(y)?, q)?;
      (Ty::Unit, Mk::Br(*c, *x, *y, p.clone(), q.clone()))
    }
    Req::Jump(x) => {
      if !bb(x)?.is_empty() {
        return None;
      }
      (Ty::Unit, Mk::Jump(*x, vec![]))
    }
    Req::JumpArgs(x, p) => {
      args(&bb(x)?, p)?;
      (Ty::Unit, Mk::Jump(*x, p.clone()))
    }
    Req::Call(g, a) => {
      let g = m.funcs.iter().find(|x| x.h == *g)?;
      args(&g.ptys, a)?;
      let h = g.h;
      (g.ret.clone(), Mk::Call(h, a.clone()))
    }
    Req::Ret(v) => {
      if let Some(v) = v {
        if t_of(v)?.is_unit() {
          return None;
        }
      }
      (Ty::Unit, Mk::Ret(*v))
    }
    Req::Copy(v) => return look(v).cloned(),
  };
  Some(MVal { ty, name: None, kind })
}

impl<'t, 'd, 'c> Eng<'t, 'd, 'c> {
  pub fn new(t: &'t mut Tape<'d>, c: &'c mut Case) -> Self {
    let mut cfg = Cfg::text();
    cfg.fun_types = true;
    Eng {
      p: Program::new(),
      m: Model::default(),
      t,
      c,
      log: vec![],
      ids: vec![],
      bids: vec![],
      fids: vec![],
      cfg,
      done: false,
      parked: None,
    }
  }

  fn v(&self, v: Value) -> String {
    format!("v{}", self.ids.iter().position(|x| *x == v).map_or("?".into(), |i| i.to_string()))
  }
  fn vs(&self, v: &[Value]) -> String {
    v.iter().map(|x| self.v(*x)).collect::<Vec<_>>().join(",")
  }
  fn b(&self, v: BasicBlock) -> String {
    format!("b{}", self.bids.iter().position(|x| *x == v).map_or("?".into(), |i| i.to_string()))
  }
  fn f(&self, v: Function) -> String {
    format!("f{}", self.fids.iter().position(|x| *x == v).map_or("?".into(), |i| i.to_string()))
  }
  fn say(&mut self, s: String) {
    self.log.push(s);
  }
  fn req(&self, r: &Req) -> String {
    match r {
      Req::Int(i) => format!("integer({i})"),
      Req::Zero(t) => format!("zero_init({})", t.show()),
      Req::Undef(t) => format!("undef({})", t.show()),
      Req::Agg(v) => format!("aggregate({})", self.vs(v)),
      Req::GAlloc(v) => format!("global_alloc({})", self.v(*v)),
      Req::Alloc(t) => format!("alloc({})", t.show()),
      Req::Load(v) => format!("load({})", self.v(*v)),
      Req::Store(a, b) => format!("store({}, {})", self.v(*a), self.v(*b)),
      Req::GetPtr(a, b) => format!("get_ptr({}, {})", self.v(*a), self.v(*b)),
      Req::GetElemPtr(a, b) => format!("get_elem_ptr({}, {})", self.v(*a), self.v(*b)),
      Req::Bin(o, a, b) => format!("binary({}, {}, {})", o.name(), self.v(*a), self.v(*b)),
      Req::Br(c, x, y) => format!("branch({}, {}, {})", self.v(*c), self.b(*x), self.b(*y)),
      Req::BrArgs(c, x, y, p, q) => format!(
        "branch_with_args({}, {}({}), {}({}))",
        self.v(*c),
        self.b(*x),
        self.vs(p),
        self.b(*y),
        self.vs(q)
      ),
      Req::Jump(x) => format!("jump({})", self.b(*x)),
      Req::JumpArgs(x, p) => format!("jump_with_args({}({}))", self.b(*x), self.vs(p)),
      Req::Call(f, a) => format!("call({}({}))", self.f(*f), self.vs(a)),
      Req::Ret(v) => format!("ret({})", v.map_or("".into(), |v| self.v(v))),
      Req::Copy(v) => format!("raw(copy of {})", self.v(*v)),
    }
  }

  pub fn finish(self) -> (Program, Model) {
    let s = self.log.join("\n");
    self.c.describe(s);
    (self.p, self.m)
  }

  pub fn trace(&self) -> String {
    self.log.join("\n")
  }

  // ---- choices -----------------------------------------------------------

  fn name(&mut self, wild: bool) -> Option<String> {
    if wild && self.t.chance(25) {
      return Some((*self.t.pick(&["", "x", "%", "@", "1", "#a", "a%", " %x", "main@"])).into());
    }
    if self.t.chance(50) {
      return None;
    }
    let p = *self.t.pick(&["%", "@"]);
    let n = *self.t.pick(&["a", "b", "0", "1", "x_0", "entry", "a_b"]);
    Some(format!("{p}{n}"))
  }

  fn some_ty(&mut self) -> Ty {
    let c = self.cfg;
    gen_ty(self.t, &c, 3)
  }

  /// Any type, including ones that are not allowed everywhere.
  fn wild_ty(&mut self) -> Ty {
    match self.t.below(6) {
      0 => Ty::Unit,
      1 => Ty::ptr(Ty::Unit),
      2 => Ty::fun(vec![Ty::I32], Ty::Unit),
      _ => self.some_ty(),
    }
  }

  /// A value visible in the function (or global ones only).
  fn any_val(&mut self, f: Option<usize>) -> Option<Value> {
    let mut v: Vec<Value> = self.m.gvals.iter().map(|x| x.0).collect();
    if let Some(f) = f {
      v.extend(self.m.funcs[f].vals.iter().map(|x| x.0));
    }
    (!v.is_empty()).then(|| {
      // prefer recent ones
      let n = v.len();
      let i = if self.t.chance(50) { n - 1 - self.t.below(n.min(6)) } else { self.t.below(n) };
      v[i]
    })
  }

  fn val_of(&mut self, f: Option<usize>, p: impl Fn(&MVal) -> bool) -> Option<Value> {
    let mut v: Vec<Value> = vec![];
    if let Some(f) = f {
      v.extend(self.m.funcs[f].vals.iter().filter(|x| p(&x.1)).map(|x| x.0));
    }
    v.extend(self.m.gvals.iter().filter(|x| p(&x.1)).map(|x| x.0));
    (!v.is_empty()).then(|| *self.t.pick(&v))
  }

  /// A value that does not exist where it is used.
  fn absent_val(&mut self, f: Option<usize>) -> Option<Value> {
    let mut v = self.m.dead_vals.clone();
    v.extend(self.m.stale.iter().filter(|x| !self.m.dead_vals.contains(x)).take(0));
    for (i, g) in self.m.funcs.iter().enumerate() {
      if f != Some(i) {
        v.extend(g.vals.iter().map(|x| x.0));
      }
    }
    (!v.is_empty()).then(|| *self.t.pick(&v))
  }

  fn wild_val(&mut self, f: Option<usize>) -> Option<Value> {
    if self.t.chance(8) {
      if let Some(v) = self.absent_val(f) {
        return Some(v);
      }
    }
    self.any_val(f)
  }

  fn typed(&mut self, f: Option<usize>, ty: &Ty, wild: bool) -> Option<Value> {
    if wild && self.t.chance(25) {
      return self.wild_val(f);
    }
    let ty = ty.clone();
    self.val_of(f, |v| v.ty == ty)
  }

  fn any_bb(&mut self, f: usize, wild: bool) -> Option<BasicBlock> {
    if wild && self.t.chance(6) {
      let mut b = self.m.dead_bbs.clone();
      for (i, g) in self.m.funcs.iter().enumerate() {
        if i != f {
          b.extend(g.bbs.iter().map(|x| x.0));
        }
      }
      if !b.is_empty() {
        return Some(*self.t.pick(&b));
      }
    }
    let b: Vec<BasicBlock> = self.m.funcs[f].bbs.iter().map(|x| x.0).collect();
    (!b.is_empty()).then(|| *self.t.pick(&b))
  }

  fn bb_args(&mut self, f: usize, b: BasicBlock, wild: bool) -> Option<Vec<Value>> {
    let Some(x) = self.m.funcs[f].bb(b) else { return Some(vec![]) };
    let tys: Vec<Ty> = x
      .params
      .iter()
      .map(|p| self.m.funcs[f].val(*p).map_or(Ty::I32, |v| v.ty.clone()))
      .collect();
    self.args(f, &tys, wild)
  }

  fn args(&mut self, f: usize, tys: &[Ty], wild: bool) -> Option<Vec<Value>> {
    let mut a = vec![];
    for t in tys {
      a.push(self.typed(Some(f), t, wild)?);
    }
    if wild {
      match self.t.below(8) {
        6 => {
          a.pop();
        }
        7 => a.extend(self.any_val(Some(f))),
        _ => {}
      }
    }
    Some(a)
  }

  fn int(&mut self, f: Option<usize>, wild: bool) -> Option<Value> {
    self.typed(f, &Ty::I32, wild)
  }

  fn ptr(&mut self, f: Option<usize>, wild: bool) -> Option<Value> {
    if wild && self.t.chance(25) {
      return self.wild_val(f);
    }
    self.val_of(f, |v| matches!(v.ty, Ty::Ptr(_)))
  }

  fn gen_req(&mut self, f: Option<usize>, wild: bool) -> Option<Req> {
    let Some(fi) = f else {
      return Some(match self.t.weighted(&[3, 2, 1, 3, 4, 1]) {
        0 => Req::Int(self.t.int()),
        1 => Req::Zero(if wild { self.wild_ty() } else { self.some_ty() }),
        2 => Req::Undef(if wild { self.wild_ty() } else { self.some_ty() }),
        3 => self.agg(f, wild)?,
        4 => Req::GAlloc(if wild { self.wild_val(f)? } else { self.any_val(f)? }),
        _ => Req::Copy(self.any_val(f)?),
      });
    };
    let w = if wild {
      [1, 2, 2, 4, 2, 3, 3, 3, 3, 4, 3, 5, 2, 4, 5, 3, 0]
    } else {
      [3, 1, 1, 2, 3, 3, 3, 2, 2, 5, 2, 4, 1, 3, 3, 2, 2]
    };
    Some(match self.t.weighted(&w) {
      0 => Req::Int(self.t.int()),
      1 => Req::Zero(if wild { self.wild_ty() } else { self.some_ty() }),
      2 => Req::Undef(if wild { self.wild_ty() } else { self.some_ty() }),
      3 => self.agg(f, wild)?,
      4 => Req::Alloc(if wild { self.wild_ty() } else { self.some_ty() }),
      5 => Req::Load(self.ptr(f, wild)?),
      6 => {
        let d = self.ptr(f, wild)?;
        let t = self.ty_of(f, d).and_then(|t| t.pointee().cloned()).unwrap_or(Ty::I32);
        Req::Store(self.typed(f, &t, wild)?, d)
      }
      7 => Req::GetPtr(self.ptr(f, wild)?, self.int(f, wild)?),
      8 => {
        let s = if wild && self.t.chance(25) {
          self.wild_val(f)?
        } else if wild && self.t.chance(25) {
          self.ptr(f, false)?
        } else {
          self.val_of(f, |v| matches!(v.ty.pointee(), Some(Ty::Arr(..))))?
        };
        Req::GetElemPtr(s, self.int(f, wild)?)
      }
      9 => Req::Bin(self.t.pick(&BINS).0, self.int(f, wild)?, self.int(f, wild)?),
      10 => {
        let c = self.int(f, wild)?;
        let pick = |e: &mut Self| {
          if wild {
            return e.any_bb(fi, wild);
          }
          let b: Vec<BasicBlock> = e.m.funcs[fi]
            .bbs
            .iter()
            .filter(|x| x.1.params.is_empty())
            .map(|x| x.0)
            .collect();
          (!b.is_empty()).then(|| *e.t.pick(&b))
        };
        let (x, y) = (pick(self)?, pick(self)?);
        Req::Br(c, x, y)
      }
      11 => {
        let c = self.int(f, wild)?;
        let x = self.any_bb(fi, wild)?;
        let y = self.any_bb(fi, wild)?;
        let p = self.bb_args(fi, x, wild)?;
        let q = self.bb_args(fi, y, wild)?;
        if !wild && x == y && !p.is_empty() {
          return None;
        }
        Req::BrArgs(c, x, y, p, q)
      }
      12 => {
        let x = self.any_bb(fi, wild)?;
        if !wild && !self.m.funcs[fi].bb(x).unwrap().params.is_empty() {
          return None;
        }
        Req::Jump(x)
      }
      13 => {
        let x = self.any_bb(fi, wild)?;
        Req::JumpArgs(x, self.bb_args(fi, x, wild)?)
      }
      14 => {
        if wild && self.t.chance(8) && !self.m.dead_funcs.is_empty() {
          let d = self.m.dead_funcs.clone();
          return Some(Req::Call(*self.t.pick(&d), vec![]));
        }
        let g = self.t.below(self.m.funcs.len());
        let tys = self.m.funcs[g].ptys.clone();
        Req::Call(self.m.funcs[g].h, self.args(fi, &tys, wild)?)
      }
      15 => {
        if self.t.chance(30) {
          Req::Ret(None)
        } else if wild {
          Req::Ret(Some(self.wild_val(f)?))
        } else {
          Req::Ret(Some(self.val_of(f, |v| !v.ty.is_unit())?))
        }
      }
      _ => Req::Copy(self.any_val(f)?),
    })
  }

  fn agg(&mut self, f: Option<usize>, wild: bool) -> Option<Req> {
    if wild && self.t.chance(12) {
      return Some(Req::Agg(vec![]));
    }
    let first = self.val_of(f, |v| v.kind.is_const())?;
    let ty = self.ty_of(f, first)?;
    let n = if self.t.chance(4) { self.t.range(5, 140) } else { self.t.range(1, 4) };
    let mut v = vec![first];
    for i in 1..n {
      if n > 4 && i > 1 && i + 2 < n {
        v.push(v[i % 2]);
        continue;
      }
      let e = if wild && self.t.chance(30) {
        // anything, or a variable of the right type
        if self.t.chance(50) { self.wild_val(f)? } else { self.typed(f, &ty, false)? }
      } else {
        self.val_of(f, |v| v.kind.is_const() && v.ty == ty)?
      };
      v.push(e);
    }
    if wild && self.t.chance(20) {
      v[0] = self.wild_val(f)?;
    }
    Some(Req::Agg(v))
  }

  fn ty_of(&self, f: Option<usize>, v: Value) -> Option<Ty> {
    self
      .m
      .gvals
      .iter()
      .find(|x| x.0 == v)
      .map(|x| x.1.ty.clone())
      .or_else(|| f.and_then(|f| self.m.funcs[f].val(v)).map(|x| x.ty.clone()))
  }

  fn copy_of(&self, f: Option<usize>, r: &Req) -> Option<ValueData> {
    let Req::Copy(v) = r else { return None };
    if v.is_global() {
      return Some(self.p.borrow_value(*v).clone());
    }
    Some(self.p.func(self.m.funcs[f?].h).dfg().value(*v).clone())
  }

  fn dfg(&mut self, f: usize) -> &mut DataFlowGraph {
    self.p.func_mut(self.m.funcs[f].h).dfg_mut()
  }

  fn new_handle(&mut self, v: Value, global: bool) -> Res {
    ensure!(self.m.seen_vals.insert(v), "handle reused", "a value has the handle of another");
    ensure!(
      v.is_global() == global,
      "global handle",
      "is_global() of a {} value is {}",
      if global { "global" } else { "local" },
      v.is_global()
    );
    self.ids.push(v);
    Ok(())
  }

  // ---- operations --------------------------------------------------------

  pub fn op_new(&mut self, f: Option<usize>, wild: bool) -> Res {
    let Some(r) = self.gen_req(f, wild) else { return Ok(()) };
    let mut want = rule(&self.m, f, &r);
    let place = match f {
      Some(f) => self.f(self.m.funcs[f].h),
      None => "program".into(),
    };
    let msg = format!("{place}: {}", self.req(&r));
    self.say(msg.clone());
    let mut copy = self.copy_of(f, &r);
    // a copy of a global variable, with another initializer of the same type
    if let (None, Some(MVal { kind: Mk::GAlloc(i), .. }), Some(d)) = (f, &mut want, &mut copy) {
      let ty = self.ty_of(None, *i);
      let others: Vec<Value> = self
        .m
        .gvals
        .iter()
        .filter(|x| Some(&x.1.ty) == ty.as_ref() && !matches!(x.1.kind, Mk::GAlloc(_)))
        .map(|x| x.0)
        .collect();
      if !others.is_empty() {
        let n = *self.t.pick(&others);
        if let ValueKind::GlobalAlloc(g) = d.kind_mut() {
          *g.init_mut() = n;
          *i = n;
          let x = format!("  with init = {}", self.v(n));
          self.say(x);
        }
      }
    }
    let got = match f {
      Some(f) => no_panic(|| local_req(self.dfg(f).new_value(), &r, copy)),
      None => no_panic(|| global_req(self.p.new_value(), &r, copy)),
    };
    match (got, want) {
      (Ok(v), Some(m)) => {
        self.c.class(m.kind.word());
        self.new_handle(v, f.is_none())?;
        match f {
          Some(f) => self.m.funcs[f].vals.push((v, m)),
          None => {
            if matches!(m.kind, Mk::GAlloc(_)) {
              self.m.glayout.push(v);
            }
            self.m.gvals.push((v, m));
          }
        }
        let x = format!("  -> {}", self.v(v));
        self.say(x);
        Ok(())
      }
      (Err(_), None) => {
        self.c.class("rejected");
        Ok(())
      }
      (Err(e), Some(_)) => fail("valid request rejected", format!("{msg}: rejected ({e})\n{}", self.trace())),
      (Ok(_), None) => fail("invalid request accepted", format!("{msg}: accepted\n{}", self.trace())),
    }
  }

  pub fn op_replace(&mut self, f: usize, wild: bool) -> Res {
    let vals: Vec<Value> = self.m.funcs[f]
      .vals
      .iter()
      .filter(|x| !matches!(x.1.kind, Mk::FArg(_) | Mk::BArg(_)))
      .map(|x| x.0)
      .collect();
    if vals.is_empty() {
      return Ok(());
    }
    let v = *self.t.pick(&vals);
    let Some(r) = self.gen_req(Some(f), wild) else { return Ok(()) };
    let want = rule(&self.m, Some(f), &r);
    if want.as_ref().is_some_and(|w| {
      w.kind.ops().contains(&v) || matches!(w.kind, Mk::FArg(_) | Mk::BArg(_) | Mk::GAlloc(_))
    }) || matches!(r, Req::Copy(s) if s == v)
    {
      return Ok(());
    }
    let msg = format!("{}: replace {} with {}", self.f(self.m.funcs[f].h), self.v(v), self.req(&r));
    self.say(msg.clone());
    let copy = self.copy_of(Some(f), &r);
    let got = no_panic(|| local_req(self.dfg(f).replace_value_with(v), &r, copy));
    match (got, want) {
      (Ok(x), Some(m)) => {
        ensure!(x == v, "replaced handle", "{msg}: another handle was returned");
        self.c.class("replace");
        *self.m.funcs[f].val_mut(v) = m;
        Ok(())
      }
      (Err(_), None) => Ok(()),
      (Err(e), Some(_)) => fail("valid request rejected", format!("{msg}: rejected ({e})\n{}", self.trace())),
      (Ok(_), None) => fail("invalid request accepted", format!("{msg}: accepted\n{}", self.trace())),
    }
  }

  pub fn op_update(&mut self, f: usize) -> Res {
    let vals: Vec<(Value, MVal)> = self.m.funcs[f]
      .vals
      .iter()
      .filter(|x| !matches!(x.1.kind, Mk::FArg(_) | Mk::BArg(_) | Mk::Zero | Mk::Undef | Mk::Alloc))
      .cloned()
      .collect();
    if vals.is_empty() {
      return Ok(());
    }
    let (v, mut m) = self.t.pick(&vals).clone();
    // a new operand: mostly of the same type, never the value itself
    let n_ops = m.kind.ops().len();
    let slot = self.t.below(n_ops.max(1));
    let repl = match m.kind.ops().get(slot) {
      Some(o) => {
        let ty = self.ty_of(Some(f), *o);
        let x = match ty {
          Some(ty) if self.t.chance(80) => self.typed(Some(f), &ty, false),
          _ => self.any_val(Some(f)),
        };
        x.filter(|x| *x != v)
      }
      None => None,
    };
    let what = self.t.below(6);
    let bb = self.any_bb(f, false);
    let extra = self.any_val(Some(f)).filter(|x| *x != v);
    let op = self.t.pick(&BINS).0;
    let num = self.t.int();
    let callee = self.m.funcs[self.t.below(self.m.funcs.len())].h;
    // the same change to the model and, through the closure, to the data
    type Change = Box<dyn FnOnce(&mut ValueData)>;
    let mut desc = String::new();
    macro_rules! k {
      ($d:ident, $var:ident) => {
        match $d.kind_mut() {
          ValueKind::$var(x) => x,
          _ => panic!("the value is of another kind"),
        }
      };
    }
    let ch: Option<Change> = match &mut m.kind {
      Mk::Int(i) => {
        *i = num;
        desc = format!("value = {num}");
        Some(Box::new(move |d| *k!(d, Integer).value_mut() = num))
      }
      Mk::Agg(es) => repl.map(|r| {
        desc = format!("elems[{slot}] = {}", self.v(r));
        es[slot] = r;
        Box::new(move |d: &mut ValueData| k!(d, Aggregate).elems_mut()[slot] = r) as Change
      }),
      Mk::Load(s) => repl.map(|r| {
        *s = r;
        desc = format!("src = {}", self.v(r));
        Box::new(move |d: &mut ValueData| *k!(d, Load).src_mut() = r) as Change
      }),
      Mk::Store(a, b) => repl.map(|r| {
        desc = format!("operand {slot} = {}", self.v(r));
        if slot == 0 {
          *a = r;
          Box::new(move |d: &mut ValueData| *k!(d, Store).value_mut() = r) as Change
        } else {
          *b = r;
          Box::new(move |d: &mut ValueData| *k!(d, Store).dest_mut() = r)
        }
      }),
      Mk::GetPtr(a, b) => repl.map(|r| {
        desc = format!("operand {slot} = {}", self.v(r));
        if slot == 0 {
          *a = r;
          Box::new(move |d: &mut ValueData| *k!(d, GetPtr).src_mut() = r) as Change
        } else {
          *b = r;
          Box::new(move |d: &mut ValueData| *k!(d, GetPtr).index_mut() = r)
        }
      }),
      Mk::GetElemPtr(a, b) => repl.map(|r| {
        desc = format!("operand {slot} = {}", self.v(r));
        if slot == 0 {
          *a = r;
          Box::new(move |d: &mut ValueData| *k!(d, GetElemPtr).src_mut() = r) as Change
        } else {
          *b = r;
          Box::new(move |d: &mut ValueData| *k!(d, GetElemPtr).index_mut() = r)
        }
      }),
      Mk::Bin(o, a, b) => match (what, repl) {
        (0, _) => {
          *o = op;
          desc = format!("op = {}", op.name());
          Some(Box::new(move |d| *k!(d, Binary).op_mut() = bin(op)))
        }
        (1, _) => {
          // swap the operands
          std::mem::swap(a, b);
          let (x, y) = (*a, *b);
          desc = "swap operands".into();
          Some(Box::new(move |d| {
            let b = k!(d, Binary);
            *b.lhs_mut() = x;
            *b.rhs_mut() = y;
          }))
        }
        (_, Some(r)) => {
          desc = format!("operand {slot} = {}", self.v(r));
          if slot == 0 {
            *a = r;
            Some(Box::new(move |d: &mut ValueData| *k!(d, Binary).lhs_mut() = r))
          } else {
            *b = r;
            Some(Box::new(move |d: &mut ValueData| *k!(d, Binary).rhs_mut() = r))
          }
        }
        _ => None,
      },
      Mk::Br(c, x, y, p, q) => match (what, bb, repl) {
        (0, Some(b), _) => {
          *x = b;
          desc = format!("true_bb = {}", self.b(b));
          Some(Box::new(move |d| *k!(d, Branch).true_bb_mut() = b))
        }
        (1, Some(b), _) => {
          *y = b;
          desc = format!("false_bb = {}", self.b(b));
          Some(Box::new(move |d| *k!(d, Branch).false_bb_mut() = b))
        }
        (2, ..) if extra.is_some() => {
          let e = extra.unwrap();
          if num % 2 == 0 {
            p.push(e);
            desc = format!("true_args.push({})", self.v(e));
            Some(Box::new(move |d| k!(d, Branch).true_args_mut().push(e)))
          } else {
            q.push(e);
            desc = format!("false_args.push({})", self.v(e));
            Some(Box::new(move |d| k!(d, Branch).false_args_mut().push(e)))
          }
        }
        (3, ..) => {
          p.pop();
          q.clear();
          desc = "true_args.pop(), false_args.clear()".into();
          Some(Box::new(move |d| {
            let b = k!(d, Branch);
            b.true_args_mut().pop();
            b.false_args_mut().clear();
          }))
        }
        (_, _, Some(r)) => {
          desc = format!("operand {slot} = {}", self.v(r));
          let tl = p.len();
          if slot == 0 {
            *c = r;
            Some(Box::new(move |d: &mut ValueData| *k!(d, Branch).cond_mut() = r))
          } else if slot <= tl {
            p[slot - 1] = r;
            Some(Box::new(move |d: &mut ValueData| k!(d, Branch).true_args_mut()[slot - 1] = r))
          } else {
            q[slot - 1 - tl] = r;
            Some(Box::new(move |d: &mut ValueData| {
              k!(d, Branch).false_args_mut()[slot - 1 - tl] = r
            }))
          }
        }
        _ => None,
      },
      Mk::Jump(x, p) => match (what, bb, repl) {
        (0 | 1, Some(b), _) => {
          *x = b;
          desc = format!("target = {}", self.b(b));
          Some(Box::new(move |d| *k!(d, Jump).target_mut() = b))
        }
        (2, ..) if extra.is_some() => {
          let e = extra.unwrap();
          p.push(e);
          desc = format!("args.push({})", self.v(e));
          Some(Box::new(move |d| k!(d, Jump).args_mut().push(e)))
        }
        (3, ..) => {
          p.pop();
          desc = "args.pop()".into();
          Some(Box::new(move |d| {
            k!(d, Jump).args_mut().pop();
          }))
        }
        (_, _, Some(r)) => {
          p[slot] = r;
          desc = format!("args[{slot}] = {}", self.v(r));
          Some(Box::new(move |d: &mut ValueData| k!(d, Jump).args_mut()[slot] = r))
        }
        _ => None,
      },
      Mk::Call(g, a) => match (what, repl) {
        (0, _) => {
          *g = callee;
          desc = format!("callee = {}", self.f(callee));
          Some(Box::new(move |d| *k!(d, Call).callee_mut() = callee))
        }
        (2, _) if extra.is_some() => {
          let e = extra.unwrap();
          a.push(e);
          desc = format!("args.push({})", self.v(e));
          Some(Box::new(move |d| k!(d, Call).args_mut().push(e)))
        }
        (_, Some(r)) => {
          a[slot] = r;
          desc = format!("args[{slot}] = {}", self.v(r));
          Some(Box::new(move |d: &mut ValueData| k!(d, Call).args_mut()[slot] = r))
        }
        _ => None,
      },
      Mk::Ret(o) => {
        let n = if what == 0 { None } else { extra };
        *o = n;
        desc = format!("value = {}", n.map_or("none".into(), |v| self.v(v)));
        Some(Box::new(move |d| *k!(d, Return).value_mut() = n))
      }
      _ => None,
    };
    let Some(ch) = ch else { return Ok(()) };
    let msg = format!("{}: update {}: {desc}", self.f(self.m.funcs[f].h), self.v(v));
    self.say(msg.clone());
    if let Err(e) = no_panic(|| self.dfg(f).update_value(v, ch)) {
      return fail("update rejected", format!("{msg}: {e}\n{}", self.trace()));
    }
    self.c.class("update");
    *self.m.funcs[f].val_mut(v) = m;
    Ok(())
  }

  /// Users of a value among the values of the model.
  fn users(&self, f: Option<usize>, v: Value) -> Vec<Value> {
    let mut u: Vec<Value> = vec![];
    if let Some(f) = f {
      u.extend(self.m.funcs[f].vals.iter().filter(|x| x.1.kind.ops().contains(&v)).map(|x| x.0));
    } else {
      u.extend(self.m.gvals.iter().filter(|x| x.1.kind.ops().contains(&v)).map(|x| x.0));
      for g in &self.m.funcs {
        u.extend(g.vals.iter().filter(|x| x.1.kind.ops().contains(&v)).map(|x| x.0));
      }
    }
    u
  }

  fn bb_users(&self, f: usize, b: BasicBlock) -> Vec<Value> {
    self.m.funcs[f].vals.iter().filter(|x| x.1.kind.bbs().contains(&b)).map(|x| x.0).collect()
  }

  fn same_data(&self, d: &ValueData, m: &MVal, what: &str) -> Res {
    let k = data_kind(d);
    ensure!(k == m.kind, "wrong data", "{what} is a {k:?}, expected {:?}\n{}", m.kind, self.trace());
    ensure!(
      unty(d.ty()) == m.ty,
      "wrong type",
      "{what} ({}) has type {}, expected {}\n{}",
      m.kind.word(),
      d.ty(),
      m.ty.show(),
      self.trace()
    );
    ensure!(*d.name() == m.name, "wrong name", "{what} is named {:?}, expected {:?}", d.name(), m.name);
    Ok(())
  }

  pub fn op_remove(&mut self, f: usize) -> Res {
    let used: HashSet<Value> = self.m.funcs[f].vals.iter().flat_map(|x| x.1.kind.ops()).collect();
    let free_only = self.t.chance(92);
    let vals: Vec<Value> = self.m.funcs[f]
      .vals
      .iter()
      .filter(|x| !matches!(x.1.kind, Mk::FArg(_) | Mk::BArg(_)))
      .filter(|x| !free_only || !used.contains(&x.0))
      .map(|x| x.0)
      .collect();
    if vals.is_empty() {
      return Ok(());
    }
    let v = *self.t.pick(&vals);
    let h = self.m.funcs[f].h;
    if let Some(b) = self.m.funcs[f].parent(v) {
      // leaves the layout first
      let x = self.p.func_mut(h).layout_mut().bb_mut(b).insts_mut().remove(&v);
      ensure!(x.is_some(), "layout", "an instruction of the layout could not be removed\n{}", self.trace());
      let l = &mut self.m.funcs[f].layout;
      l.iter_mut().for_each(|x| x.1.retain(|y| *y != v));
    }
    let msg = format!("{}: remove {}", self.f(h), self.v(v));
    self.say(msg.clone());
    match no_panic(|| self.dfg(f).remove_value(v)) {
      Ok(d) => {
        ensure!(!used.contains(&v), "used value removed", "{msg}: it is in use\n{}", self.trace());
        self.c.class("remove");
        let i = self.m.funcs[f].vals.iter().position(|x| x.0 == v).unwrap();
        let (_, m) = self.m.funcs[f].vals.remove(i);
        self.same_data(&d, &m, "the removed value")?;
        self.m.dead_vals.push(v);
        Ok(())
      }
      Err(e) => {
        ensure!(used.contains(&v), "unused value kept", "{msg}: {e}\n{}", self.trace());
        self.c.class("remove used");
        // the program is not defined after this
        self.done = true;
        Ok(())
      }
    }
  }

  pub fn op_remove_bb(&mut self, f: usize) -> Res {
    let Some(b) = self.any_bb(f, false) else { return Ok(()) };
    let h = self.m.funcs[f].h;
    let params = self.m.funcs[f].bb(b).unwrap().params.clone();
    let free = self.bb_users(f, b).is_empty()
      && params.iter().all(|p| self.users(Some(f), *p).is_empty());
    if !free && !self.t.chance(8) {
      return Ok(());
    }
    if let Some(i) = self.m.funcs[f].layout.iter().position(|x| x.0 == b) {
      let r = self.p.func_mut(h).layout_mut().bbs_mut().remove(&b);
      ensure!(r.is_some(), "layout", "a block of the layout could not be removed\n{}", self.trace());
      self.m.funcs[f].layout.remove(i);
    }
    let msg = format!("{}: remove block {}", self.f(h), self.b(b));
    self.say(msg.clone());
    match no_panic(|| self.dfg(f).remove_bb(b)) {
      Ok(d) => {
        ensure!(free, "used block removed", "{msg}: it is in use\n{}", self.trace());
        ensure!(d.params() == params, "wrong block", "{msg}: other parameters came back");
        self.c.class("remove block");
        let m = &mut self.m.funcs[f];
        m.bbs.retain(|x| x.0 != b);
        m.vals.retain(|x| !params.contains(&x.0));
        self.m.dead_bbs.push(b);
        self.m.dead_vals.extend(params);
        Ok(())
      }
      Err(e) => {
        ensure!(!free, "unused block kept", "{msg}: {e}\n{}", self.trace());
        self.done = true;
        Ok(())
      }
    }
  }

  pub fn op_new_bb(&mut self, f: usize, wild: bool) -> Res {
    let name = self.name(wild);
    let form = self.t.below(3);
    let n = if form == 0 {
      0
    } else if self.t.chance(3) {
      self.t.range(4, 30)
    } else {
      self.t.below(4)
    };
    let mut ps: Vec<(Option<String>, Ty)> = vec![];
    for i in 0..n {
      let ty = if n > 4 && i + 2 < n {
        Ty::I32
      } else if wild && self.t.chance(20) { self.wild_ty() } else { self.some_ty() };
      let pn = if form == 2 { self.name(false) } else { None };
      ps.push((pn, ty));
    }
    let legal = ok_name(&name) && ps.iter().all(|p| !p.1.is_unit());
    let h = self.m.funcs[f].h;
    let msg = format!(
      "{}: new block {name:?}({})",
      self.f(h),
      ps.iter().map(|p| format!("{:?}: {}", p.0, p.1.show())).collect::<Vec<_>>().join(", ")
    );
    self.say(msg.clone());
    let got = no_panic(|| {
      let b = self.dfg(f).new_bb();
      match form {
        0 => b.basic_block(name.clone()),
        1 => b.basic_block_with_params(name.clone(), ps.iter().map(|p| ty(&p.1)).collect()),
        _ => b.basic_block_with_param_names(
          name.clone(),
          ps.iter().map(|p| (p.0.clone(), ty(&p.1))).collect(),
        ),
      }
    });
    match got {
      Ok(b) => {
        ensure!(legal, "invalid request accepted", "{msg}: accepted\n{}", self.trace());
        ensure!(self.m.seen_bbs.insert(b), "handle reused", "a block has the handle of another");
        self.bids.push(b);
        let params = self.p.func(h).dfg().bb(b).params().to_vec();
        ensure!(params.len() == ps.len(), "wrong block", "{msg}: {} parameters", params.len());
        for (i, (v, (name, ty))) in params.iter().zip(ps).enumerate() {
          self.new_handle(*v, false)?;
          self.m.funcs[f].vals.push((*v, MVal { ty, name, kind: Mk::BArg(i) }));
        }
        let x = format!("  -> {}({})", self.b(b), self.vs(&params));
        self.say(x);
        self.m.funcs[f].bbs.push((b, MBb { name, params }));
        self.c.class("block");
        Ok(())
      }
      Err(e) => {
        ensure!(!legal, "valid request rejected", "{msg}: rejected ({e})\n{}", self.trace());
        self.c.class("rejected");
        Ok(())
      }
    }
  }

  fn op_names(&mut self, f: usize, wild: bool) -> Res {
    let name = self.name(wild);
    let h = self.m.funcs[f].h;
    match self.t.below(4) {
      0 => {
        let Some(b) = self.any_bb(f, false) else { return Ok(()) };
        if !ok_name(&name) {
          return Ok(());
        }
        let msg = format!("{}: name block {} {name:?}", self.f(h), self.b(b));
        self.say(msg);
        self.dfg(f).bb_mut(b).set_name(name.clone());
        self.m.funcs[f].bbs.iter_mut().find(|x| x.0 == b).unwrap().1.name = name;
      }
      1 => {
        // block parameters: remove an unused one, or add one
        let Some(b) = self.any_bb(f, false) else { return Ok(()) };
        let ps = self.m.funcs[f].bb(b).unwrap().params.clone();
        let i = self.t.below(ps.len() + 1);
        if i < ps.len() {
          let v = ps[i];
          if !self.users(Some(f), v).is_empty() {
            return Ok(());
          }
          let msg = format!("{}: remove parameter {i} of {}", self.f(h), self.b(b));
          self.say(msg);
          self.dfg(f).bb_mut(b).params_mut().remove(i);
          self.dfg(f).remove_value(v);
          let m = &mut self.m.funcs[f];
          m.vals.retain(|x| x.0 != v);
          m.bbs.iter_mut().find(|x| x.0 == b).unwrap().1.params.remove(i);
          self.m.dead_vals.push(v);
          if self.t.chance(60) {
            // the parameters after it get their new indices
            let rest = self.m.funcs[f].bb(b).unwrap().params.clone();
            for (k, v) in rest.into_iter().enumerate().skip(i) {
              let msg = format!("{}: update {}: index = {k}", self.f(h), self.v(v));
              self.say(msg.clone());
              let r = no_panic(|| {
                self.dfg(f).update_value(v, |d| match d.kind_mut() {
                  ValueKind::BlockArgRef(x) => *x.index_mut() = k,
                  _ => panic!("the value is of another kind"),
                })
              });
              if let Err(e) = r {
                return fail("update rejected", format!("{msg}: {e}\n{}", self.trace()));
              }
              self.c.class("update index");
              self.m.funcs[f].val_mut(v).kind = Mk::BArg(k);
            }
          }
        } else if let Some(v) = ps.first() {
          let mut d = self.p.func(h).dfg().value(*v).clone();
          let mut m = self.m.funcs[f].val(*v).unwrap().clone();
          if let (ValueKind::BlockArgRef(x), true) = (d.kind_mut(), self.t.chance(50)) {
            *x.index_mut() = ps.len();
            m.kind = Mk::BArg(ps.len());
          }
          let n = self.dfg(f).new_value().raw(d);
          self.new_handle(n, false)?;
          self.dfg(f).bb_mut(b).params_mut().push(n);
          let msg = format!("{}: copy parameter 0 of {} -> {}", self.f(h), self.b(b), self.v(n));
          self.say(msg);
          let mf = &mut self.m.funcs[f];
          mf.vals.push((n, m));
          mf.bbs.iter_mut().find(|x| x.0 == b).unwrap().1.params.push(n);
        }
      }
      _ => {
        let v = if wild { self.wild_val(Some(f)) } else { self.any_val(Some(f)) };
        let Some(v) = v else { return Ok(()) };
        let exists = self.m.funcs[f].val(v).is_some();
        let legal = exists && ok_name(&name);
        let msg = format!("{}: name {} {name:?}", self.f(h), self.v(v));
        self.say(msg.clone());
        let r = no_panic(|| self.dfg(f).set_value_name(v, name.clone()));
        ensure!(
          r.is_ok() == legal,
          if legal { "valid request rejected" } else { "invalid request accepted" },
          "{msg}: {r:?}\n{}",
          self.trace()
        );
        if legal {
          self.m.funcs[f].val_mut(v).name = name;
        }
      }
    }
    Ok(())
  }

  /// Queries about things that do not exist.
  fn op_absent(&mut self, f: usize) -> Res {
    let h = self.m.funcs[f].h;
    let v = match self.absent_val(Some(f)) {
      Some(v) => v,
      None => return Ok(()),
    };
    let what = self.t.below(5);
    let msg = format!("{}: absent {} ({what})", self.f(h), self.v(v));
    self.say(msg.clone());
    let r = match what {
      0 => no_panic(|| {
        self.p.func(h).dfg().value(v);
      }),
      1 => no_panic(|| {
        self.dfg(f).remove_value(v);
      }),
      2 => no_panic(|| self.dfg(f).update_value(v, |_| ())),
      3 => no_panic(|| {
        self.dfg(f).replace_value_with(v).integer(1);
      }),
      _ => no_panic(|| {
        self.p.borrow_value(v);
      }),
    };
    ensure!(r.is_err(), "absent value found", "{msg}: no panic\n{}", self.trace());
    ensure!(!self.p.func(h).dfg().values().contains_key(&v), "absent value found", "{msg}");
    ensure!(self.p.func(h).layout().parent_bb(v).is_none(), "absent value found", "{msg}: it has a parent");
    Ok(())
  }

  // ---- layout ------------------------------------------------------------

  fn op_layout_bb(&mut self, f: usize) -> Res {
    let h = self.m.funcs[f].h;
    let Some(b) = self.any_bb(f, false) else { return Ok(()) };
    let n = self.m.funcs[f].layout.len();
    let at = self.t.below(n.max(1));
    let anchor = self.m.funcs[f].layout.get(at).map(|x| x.0);
    let what = self.t.weighted(&[6, 3, 3, 3, 1, 1, 2, 2, 1]);
    let dup = self.m.funcs[f].layout.iter().any(|x| x.0 == b);
    let desc = [
      "push back",
      "push front",
      "insert after",
      "insert before",
      "remove front",
      "remove back",
      "remove",
      "remove current",
      "clear",
    ][what];
    if what == 8 && !self.t.chance(30) {
      return Ok(());
    }
    let msg = format!("{}: layout {desc} {} (at {at})", self.f(h), self.b(b));
    self.say(msg.clone());
    let l = self.p.func_mut(h).layout_mut().bbs_mut();
    let ml = &mut self.m.funcs[f].layout;
    let (got, want): (Option<BasicBlock>, Option<BasicBlock>) = match what {
      0 => {
        let r = l.push_key_back(b);
        if !dup {
          ml.push((b, vec![]));
        }
        (r.err(), dup.then_some(b))
      }
      1 => {
        let r = l.push_key_front(b);
        if !dup {
          ml.insert(0, (b, vec![]));
        }
        (r.err(), dup.then_some(b))
      }
      2 | 3 => {
        let Some(a) = anchor else { return Ok(()) };
        let mut cur = l.cursor_mut(a);
        let r = if what == 2 { cur.insert_key_after(b) } else { cur.insert_key_before(b) };
        if !dup {
          ml.insert(if what == 2 { at + 1 } else { at }, (b, vec![]));
        }
        (r.err(), dup.then_some(b))
      }
      4 | 5 => {
        let k = if what == 4 { l.front_key().copied() } else { l.back_key().copied() };
        let r = k.and_then(|k| l.remove(&k));
        let m = if ml.is_empty() {
          None
        } else if what == 4 {
          Some(ml.remove(0).0)
        } else {
          ml.pop().map(|x| x.0)
        };
        (r.map(|x| x.0), m)
      }
      6 => {
        let r = l.remove(&b);
        ml.retain(|x| x.0 != b);
        (r.map(|x| x.0), dup.then_some(b))
      }
      7 => {
        let Some(a) = anchor else { return Ok(()) };
        let mut cur = l.cursor_mut(a);
        let r = cur.remove_current();
        ml.remove(at);
        // the cursor moves on
        let next = cur.key().copied();
        let wn = ml.get(at).map(|x| x.0);
        ensure!(next == wn, "cursor", "{msg}: the cursor is elsewhere\n{}", self.trace());
        (r.map(|x| x.0), Some(a))
      }
      _ => {
        l.clear();
        ml.clear();
        (None, None)
      }
    };
    ensure!(got == want, "layout edit", "{msg}: unexpected result\n{}", self.trace());
    self.c.class("layout of blocks");
    Ok(())
  }

  fn op_layout_inst(&mut self, f: usize) -> Res {
    let h = self.m.funcs[f].h;
    let n = self.m.funcs[f].layout.len();
    if n == 0 {
      return Ok(());
    }
    let bi = self.t.below(n);
    let b = self.m.funcs[f].layout[bi].0;
    // an instruction: out of the layout, or one of this block
    let free: Vec<Value> = self.m.funcs[f]
      .vals
      .iter()
      .filter(|x| {
        !matches!(x.1.kind, Mk::FArg(_) | Mk::BArg(_)) && !x.1.kind.is_const()
      })
      .map(|x| x.0)
      .filter(|v| self.m.funcs[f].parent(*v).is_none_or(|p| p == b))
      .collect();
    if free.is_empty() {
      return Ok(());
    }
    let k = free.len();
    let v = if self.t.chance(50) { free[k - 1] } else { *self.t.pick(&free) };
    let len = self.m.funcs[f].layout[bi].1.len();
    let at = self.t.below(len.max(1));
    let anchor = self.m.funcs[f].layout[bi].1.get(at).copied();
    let dup = self.m.funcs[f].layout[bi].1.contains(&v);
    let what = self.t.weighted(&[8, 3, 3, 3, 1, 1, 2, 2, 1, 2]);
    if what == 8 && !self.t.chance(40) {
      return Ok(());
    }
    let desc = [
      "push back",
      "push front",
      "insert after",
      "insert before",
      "remove front",
      "remove back",
      "remove",
      "remove current",
      "clear",
      "move",
    ][what];
    let to = self.m.funcs[f].layout[self.t.below(n)].0;
    let msg = format!("{}: {} {desc} {} (at {at})", self.f(h), self.b(b), self.v(v));
    self.say(msg.clone());
    let layout = self.p.func_mut(h).layout_mut();
    let ml = &mut self.m.funcs[f].layout[bi].1;
    let l = layout.bb_mut(b).insts_mut();
    let (got, want): (Option<Value>, Option<Value>) = match what {
      0 => {
        let r = l.push_key_back(v);
        if !dup {
          ml.push(v);
        }
        (r.err(), dup.then_some(v))
      }
      1 => {
        let r = l.push_key_front(v);
        if !dup {
          ml.insert(0, v);
        }
        (r.err(), dup.then_some(v))
      }
      2 | 3 => {
        let Some(a) = anchor else { return Ok(()) };
        let mut cur = l.cursor_mut(a);
        let r = if what == 2 { cur.insert_key_after(v) } else { cur.insert_key_before(v) };
        if !dup {
          ml.insert(if what == 2 { at + 1 } else { at }, v);
        }
        (r.err(), dup.then_some(v))
      }
      4 | 5 => {
        let k = if what == 4 { l.front_key().copied() } else { l.back_key().copied() };
        let r = k.and_then(|k| l.remove(&k));
        let m = if ml.is_empty() {
          None
        } else if what == 4 {
          Some(ml.remove(0))
        } else {
          ml.pop()
        };
        (r.map(|x| x.0), m)
      }
      6 => {
        let r = l.remove(&v);
        ml.retain(|x| *x != v);
        (r.map(|x| x.0), dup.then_some(v))
      }
      7 => {
        let Some(a) = anchor else { return Ok(()) };
        let mut cur = l.cursor_mut(a);
        let r = cur.remove_current();
        ml.remove(at);
        (r.map(|x| x.0), Some(a))
      }
      8 => {
        l.clear();
        ml.clear();
        (None, None)
      }
      _ => {
        // move to another block: out of the one, into the other
        let Some(a) = anchor else { return Ok(()) };
        let r = l.remove(&a).map(|x| x.0);
        ml.remove(at);
        let e = layout.bb_mut(to).insts_mut().push_key_back(a);
        self.m.funcs[f].layout.iter_mut().find(|x| x.0 == to).unwrap().1.push(a);
        ensure!(e.is_ok(), "layout edit", "{msg}: rejected\n{}", self.trace());
        (r, Some(a))
      }
    };
    ensure!(got == want, "layout edit", "{msg}: unexpected result\n{}", self.trace());
    self.c.class("layout of instructions");
    Ok(())
  }

  // ---- program -----------------------------------------------------------

  pub fn op_new_func(&mut self, wild: bool) -> Res {
    let name = match self.name(wild) {
      Some(n) => n,
      None => "@f".into(),
    };
    let n = if self.t.chance(4) { self.t.range(4, 40) } else { self.t.below(4) };
    let form = self.t.weighted(&[3, 3, 2, 1, 1, 1]);
    let mut ps: Vec<(Option<String>, Ty)> = vec![];
    for i in 0..n {
      let ty = if n > 4 && i + 2 < n {
        Ty::I32
      } else if wild && self.t.chance(15) { self.wild_ty() } else { self.some_ty() };
      let w2 = wild && self.t.chance(20);
      let pn = if matches!(form, 1 | 4) { self.name(w2) } else { None };
      ps.push((pn, ty));
    }
    let ret = if self.t.chance(40) { Ty::Unit } else { self.some_ty() };
    let legal = ok_name(&Some(name.clone()))
      && ps.iter().all(|p| !p.1.is_unit() && ok_name(&p.0));
    let msg = format!(
      "new function {name:?} ({}): {} (form {form})",
      ps.iter().map(|p| format!("{:?}: {}", p.0, p.1.show())).collect::<Vec<_>>().join(", "),
      ret.show()
    );
    self.say(msg.clone());
    let tys: Vec<Type> = ps.iter().map(|p| ty(&p.1)).collect();
    let named: Vec<(Option<String>, Type)> = ps.iter().map(|p| (p.0.clone(), ty(&p.1))).collect();
    let rt = ty(&ret);
    let nm = name.clone();
    #[allow(deprecated)]
    let got = no_panic(|| match form {
      0 => self.p.new_func_def(nm, tys, rt),
      1 => self.p.new_func_def_with_param_names(nm, named, rt),
      2 => self.p.new_func_decl(nm, tys, rt),
      3 => self.p.new_func(FunctionData::new(nm, tys, rt)),
      4 => self.p.new_func(FunctionData::with_param_names(nm, named, rt)),
      _ => self.p.new_func(FunctionData::new_decl(nm, tys, rt)),
    });
    match got {
      Ok(h) => {
        ensure!(legal, "invalid request accepted", "{msg}: accepted\n{}", self.trace());
        ensure!(self.m.seen_funcs.insert(h), "handle reused", "a function has the handle of another");
        self.fids.push(h);
        let decl = matches!(form, 2 | 5);
        let params = self.p.func(h).params().to_vec();
        let want = if decl { 0 } else { ps.len() };
        ensure!(params.len() == want, "wrong function", "{msg}: {} parameters", params.len());
        let mut vals = vec![];
        for (i, v) in params.iter().enumerate() {
          self.new_handle(*v, false)?;
          let (name, ty) = ps[i].clone();
          vals.push((*v, MVal { ty, name, kind: Mk::FArg(i) }));
        }
        let ptys = ps.into_iter().map(|p| p.1).collect();
        self.m.funcs.push(MFunc {
          h,
          name,
          ptys,
          ret,
          params,
          vals,
          bbs: vec![],
          layout: vec![],
        });
        Ok(())
      }
      Err(e) => {
        ensure!(!legal, "valid request rejected", "{msg}: rejected ({e})\n{}", self.trace());
        self.c.class("rejected");
        Ok(())
      }
    }
  }

  fn op_program(&mut self, wild: bool) -> Res {
    let back = if self.parked.is_some() { 3 } else { 0 };
    match self.t.weighted(&[4, 6, 3, 3, 2, 1, back]) {
      0 => self.op_new_func(wild),
      6 => {
        // add a removed function again
        let (d, mut m) = self.parked.take().unwrap();
        let old = m.h;
        #[allow(deprecated)]
        let h = match no_panic(|| self.p.new_func(d)) {
          Ok(h) => h,
          Err(e) => return fail("function not added", format!("{e}\n{}", self.trace())),
        };
        ensure!(self.m.seen_funcs.insert(h), "handle reused", "a function has the handle of another");
        self.fids.push(h);
        let msg = format!("add the removed {} again: {}", self.f(old), self.f(h));
        self.say(msg);
        for x in &m.vals {
          self.m.stale.remove(&x.0);
        }
        m.h = h;
        self.m.funcs.push(m);
        self.c.class("function added again");
        Ok(())
      }
      1 => self.op_new(None, wild),
      2 => {
        // remove a global value
        let free_only = self.t.chance(90);
        let vals: Vec<Value> = self
          .m
          .gvals
          .iter()
          .map(|x| x.0)
          .filter(|v| !free_only || self.users(None, *v).is_empty())
          .collect();
        if vals.is_empty() {
          return Ok(());
        }
        let v = *self.t.pick(&vals);
        let stale = self.p.borrow_value(v).used_by().iter().any(|u| self.m.stale.contains(u));
        if stale {
          return Ok(());
        }
        let used = !self.users(None, v).is_empty();
        let msg = format!("program: remove {}", self.v(v));
        self.say(msg.clone());
        match no_panic(|| self.p.remove_value(v)) {
          Ok(d) => {
            ensure!(!used, "used value removed", "{msg}: it is in use\n{}", self.trace());
            let i = self.m.gvals.iter().position(|x| x.0 == v).unwrap();
            let (_, m) = self.m.gvals.remove(i);
            self.same_data(&d, &m, "the removed value")?;
            self.m.glayout.retain(|x| *x != v);
            self.m.dead_vals.push(v);
            self.c.class("remove global");
          }
          Err(e) => {
            ensure!(used, "unused value kept", "{msg}: {e}\n{}", self.trace());
            self.done = true;
          }
        }
        Ok(())
      }
      3 => {
        let name = self.name(wild);
        let Some(v) = (if wild { self.wild_val(None) } else { self.any_val(None) }) else {
          return Ok(());
        };
        let legal = ok_name(&name) && self.m.gvals.iter().any(|x| x.0 == v);
        let msg = format!("program: name {} {name:?}", self.v(v));
        self.say(msg.clone());
        let r = no_panic(|| self.p.set_value_name(v, name.clone()));
        ensure!(
          r.is_ok() == legal,
          if legal { "valid request rejected" } else { "invalid request accepted" },
          "{msg}: {r:?}\n{}",
          self.trace()
        );
        if legal {
          self.m.gvals.iter_mut().find(|x| x.0 == v).unwrap().1.name = name;
        }
        Ok(())
      }
      4 => {
        if self.m.funcs.is_empty() {
          return Ok(());
        }
        let i = self.t.below(self.m.funcs.len());
        let n = format!("@g{}", self.t.below(3));
        let msg = format!("name {} {n}", self.f(self.m.funcs[i].h));
        self.say(msg);
        self.p.func_mut(self.m.funcs[i].h).set_name(n.clone());
        self.m.funcs[i].name = n;
        Ok(())
      }
      _ => {
        if wild && self.t.chance(30) && !self.m.dead_funcs.is_empty() {
          let d = self.m.dead_funcs.clone();
          let h = *self.t.pick(&d);
          let msg = format!("remove absent {}", self.f(h));
          self.say(msg.clone());
          match no_panic(|| self.p.remove_func(h).is_some()) {
            Ok(false) => {}
            r => return fail("absent function removed", format!("{msg}: {r:?}")),
          }
          ensure!(no_panic(|| { self.p.func(h); }).is_err(), "absent function found", "{msg}");
          return Ok(());
        }
        if self.m.funcs.len() < 2 {
          return Ok(());
        }
        let i = self.t.below(self.m.funcs.len());
        let h = self.m.funcs[i].h;
        let msg = format!("remove {}", self.f(h));
        self.say(msg.clone());
        let d = match no_panic(|| self.p.remove_func(h)) {
          Ok(Some(d)) => d,
          Ok(None) => return fail("function not removed", format!("{msg}: none\n{}", self.trace())),
          Err(e) => return fail("function not removed", format!("{msg}: {e}\n{}", self.trace())),
        };
        let m = self.m.funcs.remove(i);
        ensure!(d.name() == m.name && d.params() == m.params, "wrong function", "{msg}: another one came back");
        self.m.stale.extend(m.vals.iter().map(|x| x.0));
        self.m.dead_funcs.push(h);
        if self.parked.is_none() && self.t.chance(50) {
          self.parked = Some((d, m));
        }
        self.c.class("remove function");
        Ok(())
      }
    }
  }

  pub fn step(&mut self, w: &Weights) -> Res {
    let wild = self.t.below(100) < w.wild as usize;
    if self.m.funcs.is_empty() {
      return self.op_new_func(false);
    }
    let f = self.t.below(self.m.funcs.len());
    match self.t.weighted(&[w.values, w.layout, w.program]) {
      0 => match self.t.weighted(&[10, 4, 4, 5, 3, 1, 2, 1]) {
        0 => self.op_new(Some(f), wild),
        1 => self.op_replace(f, wild),
        2 => self.op_update(f),
        3 => self.op_remove(f),
        4 => self.op_new_bb(f, wild),
        5 => self.op_remove_bb(f),
        6 => self.op_names(f, wild),
        _ => self.op_absent(f),
      },
      1 => match self.t.weighted(&[2, 4, 2, 1]) {
        0 => self.op_layout_bb(f),
        1 => self.op_layout_inst(f),
        2 => self.op_new(Some(f), false),
        _ => self.op_new_bb(f, false),
      },
      _ => self.op_program(wild),
    }
  }

  // ---- comparison --------------------------------------------------------

  fn check_vals<'v>(
    &self,
    f: Option<usize>,
    real: &std::collections::HashMap<Value, ValueData>,
    vals: impl Iterator<Item = &'v (Value, MVal)>,
  ) -> Res {
    let mut n = 0;
    for (v, m) in vals {
      n += 1;
      let Some(d) = real.get(v) else {
        return fail("value missing", format!("{} does not exist\n{}", self.v(*v), self.trace()));
      };
      self.same_data(d, m, &self.v(*v))?;
      let ops: Vec<Value> = d.kind().value_uses().collect();
      ensure!(ops == m.kind.ops(), "wrong uses", "value_uses of {}: {}\n{}", self.v(*v), self.vs(&ops), self.trace());
      let bbs: Vec<BasicBlock> = d.kind().bb_uses().collect();
      ensure!(bbs == m.kind.bbs(), "wrong uses", "bb_uses of {} are wrong\n{}", self.v(*v), self.trace());
      let cls = is_const_kind(d.kind());
      let want = (
        m.kind.is_const(),
        matches!(m.kind, Mk::GAlloc(_)),
        !m.kind.is_const() && !matches!(m.kind, Mk::GAlloc(_) | Mk::FArg(_) | Mk::BArg(_)),
      );
      ensure!(cls == want, "wrong class", "a {} is {cls:?}", m.kind.word());
      let users: HashSet<Value> = self.users(f, *v).into_iter().collect();
      let real: HashSet<Value> = d
        .used_by()
        .iter()
        .copied()
        .filter(|u| !self.m.stale.contains(u))
        .collect();
      if users != real {
        let show = |s: &HashSet<Value>| {
          let mut x: Vec<usize> =
            s.iter().map(|v| self.ids.iter().position(|y| y == v).unwrap_or(9999)).collect();
          x.sort();
          x
        };
        return fail(
          "wrong users",
          format!(
            "{} ({}) is used by {:?}, expected {:?}\n{}",
            self.v(*v),
            m.kind.word(),
            show(&real),
            show(&users),
            self.trace()
          ),
        );
      }
    }
    ensure!(real.len() == n, "extra values", "{} values, expected {n}\n{}", real.len(), self.trace());
    Ok(())
  }

  fn check_func(&self, i: usize) -> Res {
    let m = &self.m.funcs[i];
    let Some(fd) = self.p.funcs().get(&m.h) else {
      return fail("function missing", format!("{} does not exist\n{}", self.f(m.h), self.trace()));
    };
    ensure!(fd.name() == m.name, "wrong function", "{} is named {}", self.f(m.h), fd.name());
    let want = Ty::fun(m.ptys.clone(), m.ret.clone());
    ensure!(unty(fd.ty()) == want, "wrong function", "{} has type {}", self.f(m.h), fd.ty());
    ensure!(fd.params() == m.params, "wrong function", "{} has other parameters", self.f(m.h));
    self.check_vals(Some(i), fd.dfg().values(), m.vals.iter())?;
    for (b, mb) in &m.bbs {
      let Some(d) = fd.dfg().bbs().get(b) else {
        return fail("block missing", format!("{} does not exist\n{}", self.b(*b), self.trace()));
      };
      ensure!(*d.name() == mb.name, "wrong block", "{} is named {:?}", self.b(*b), d.name());
      ensure!(d.params() == mb.params, "wrong block", "{} has other parameters\n{}", self.b(*b), self.trace());
      let want: HashSet<Value> = self.bb_users(i, *b).into_iter().collect();
      ensure!(
        *d.used_by() == want,
        "wrong users",
        "{} is used by {} values, expected {}\n{}",
        self.b(*b),
        d.used_by().len(),
        want.len(),
        self.trace()
      );
    }
    ensure!(fd.dfg().bbs().len() == m.bbs.len(), "extra blocks", "{} blocks\n{}", fd.dfg().bbs().len(), self.trace());
    // layout
    let l = fd.layout();
    let keys: Vec<BasicBlock> = l.bbs().keys().copied().take(m.layout.len() + 1).collect();
    let want: Vec<BasicBlock> = m.layout.iter().map(|x| x.0).collect();
    ensure!(keys == want, "wrong layout", "{}: blocks are in another order\n{}", self.f(m.h), self.trace());
    ensure!(l.bbs().len() == want.len(), "wrong layout", "{}: {} blocks\n{}", self.f(m.h), l.bbs().len(), self.trace());
    ensure!(l.bbs().is_empty() == want.is_empty(), "wrong layout", "is_empty");
    ensure!(l.entry_bb() == want.first().copied(), "wrong layout", "{}: wrong entry\n{}", self.f(m.h), self.trace());
    ensure!(l.bbs().back_key() == want.last(), "wrong layout", "{}: wrong last block\n{}", self.f(m.h), self.trace());
    let mut back = vec![];
    let mut cur = l.bbs().cursor_back();
    while let Some(k) = cur.key() {
      back.push(*k);
      cur.move_prev();
      ensure!(back.len() <= want.len(), "wrong layout", "endless list of blocks\n{}", self.trace());
    }
    back.reverse();
    ensure!(back == want, "wrong layout", "{}: backwards, blocks differ\n{}", self.f(m.h), self.trace());
    let mut all: Vec<Value> = vec![];
    for (b, insts) in &m.layout {
      let Some(node) = l.bbs().node(b) else {
        return fail("wrong layout", format!("no node for {}\n{}", self.b(*b), self.trace()));
      };
      let keys: Vec<Value> = node.insts().keys().copied().take(insts.len() + 1).collect();
      ensure!(
        keys == *insts,
        "wrong layout",
        "{} lists {}, expected {}\n{}",
        self.b(*b),
        self.vs(&keys),
        self.vs(insts),
        self.trace()
      );
      ensure!(node.insts().len() == insts.len(), "wrong layout", "{}: length\n{}", self.b(*b), self.trace());
      ensure!(node.insts().front_key() == insts.first(), "wrong layout", "front of {}", self.b(*b));
      let mut back = vec![];
      let mut cur = node.insts().cursor_back();
      while let Some(k) = cur.key() {
        back.push(*k);
        cur.move_prev();
        ensure!(back.len() <= insts.len(), "wrong layout", "endless list of instructions");
      }
      back.reverse();
      ensure!(back == *insts, "wrong layout", "{} differs backwards\n{}", self.b(*b), self.trace());
      for v in insts {
        ensure!(node.insts().contains_key(v), "wrong layout", "{} is not found", self.v(*v));
        ensure!(
          l.parent_bb(*v) == Some(*b),
          "wrong parent",
          "the parent of {} is not {}\n{}",
          self.v(*v),
          self.b(*b),
          self.trace()
        );
      }
      all.extend(insts);
    }
    for (v, _) in m.vals.iter().filter(|x| !all.contains(&x.0)) {
      ensure!(
        l.parent_bb(*v).is_none(),
        "wrong parent",
        "{} is not in the layout but has a parent\n{}",
        self.v(*v),
        self.trace()
      );
    }
    Ok(())
  }

  pub fn check(&self) -> Res {
    self.check_vals(None, &self.p.borrow_values(), self.m.gvals.iter())?;
    ensure!(
      self.p.inst_layout() == self.m.glayout,
      "wrong global layout",
      "the program lists {}, expected {}\n{}",
      self.vs(self.p.inst_layout()),
      self.vs(&self.m.glayout),
      self.trace()
    );
    let want: Vec<Function> = self.m.funcs.iter().map(|x| x.h).collect();
    ensure!(self.p.func_layout() == want, "wrong function layout", "functions differ\n{}", self.trace());
    ensure!(self.p.funcs().len() == want.len(), "wrong function layout", "{} functions", self.p.funcs().len());
    for i in 0..self.m.funcs.len() {
      self.check_func(i)?;
    }
    Ok(())
  }
}

/// Runs one history.
pub fn history(t: &mut Tape, c: &mut Case, w: &Weights) -> Res {
  let mut e = Eng::new(t, c);
  let mut r = Ok(());
  for _ in 0..w.steps {
    if e.t.exhausted() || e.done {
      break;
    }
    r = e.step(w);
    if r.is_ok() && !e.done {
      r = e.check();
    }
    if r.is_err() {
      break;
    }
  }
  let n = e.log.len();
  e.c.nontrivial = n >= 12;
  e.finish();
  r
}

// ---- structural equality ---------------------------------------------------

fn to_req(m: &MVal) -> Option<Req> {
  Some(match m.kind.clone() {
    Mk::Int(i) => Req::Int(i),
    Mk::Zero => Req::Zero(m.ty.clone()),
    Mk::Undef => Req::Undef(m.ty.clone()),
    Mk::Agg(v) => Req::Agg(v),
    Mk::Alloc => Req::Alloc(m.ty.pointee()?.clone()),
    Mk::GAlloc(v) => Req::GAlloc(v),
    Mk::Load(a) => Req::Load(a),
    Mk::Store(a, b) => Req::Store(a, b),
    Mk::GetPtr(a, b) => Req::GetPtr(a, b),
    Mk::GetElemPtr(a, b) => Req::GetElemPtr(a, b),
    Mk::Bin(o, a, b) => Req::Bin(o, a, b),
    Mk::Br(c, x, y, p, q) => Req::BrArgs(c, x, y, p, q),
    Mk::Jump(x, p) => Req::JumpArgs(x, p),
    Mk::Call(f, a) => Req::Call(f, a),
    Mk::Ret(v) => Req::Ret(v),
    Mk::FArg(_) | Mk::BArg(_) => return None,
  })
}

fn req_ops(r: &mut Req) -> Vec<&mut Value> {
  match r {
    Req::Agg(v) | Req::JumpArgs(_, v) | Req::Call(_, v) => v.iter_mut().collect(),
    Req::GAlloc(a) | Req::Load(a) => vec![a],
    Req::Store(a, b) | Req::GetPtr(a, b) | Req::GetElemPtr(a, b) | Req::Bin(_, a, b) => vec![a, b],
    Req::BrArgs(c, _, _, p, q) => std::iter::once(c).chain(p).chain(q).collect(),
    Req::Ret(v) => v.iter_mut().collect(),
    _ => vec![],
  }
}

impl Eng<'_, '_, '_> {
  fn mval(&self, f: usize, v: Value) -> &MVal {
    let g = self.m.gvals.iter().find(|x| x.0 == v).map(|x| &x.1);
    g.or_else(|| self.m.funcs[f].val(v)).unwrap()
  }

  /// The reference: equality of trees.
  fn tree_eq(&self, f: usize, a: Value, b: Value) -> bool {
    if a == b {
      return true;
    }
    let (x, y) = (self.mval(f, a), self.mval(f, b));
    if x.ty != y.ty {
      return false;
    }
    let head = match (&x.kind, &y.kind) {
      (Mk::Int(i), Mk::Int(j)) => i == j,
      (Mk::FArg(i), Mk::FArg(j)) | (Mk::BArg(i), Mk::BArg(j)) => i == j,
      (Mk::Bin(o, ..), Mk::Bin(p, ..)) => o == p,
      (Mk::Br(_, a, b, p, q), Mk::Br(_, c, d, r, s)) => {
        a == c && b == d && p.len() == r.len() && q.len() == s.len()
      }
      (Mk::Jump(a, _), Mk::Jump(b, _)) => a == b,
      (Mk::Call(g, _), Mk::Call(h, _)) => g == h,
      (p, q) => std::mem::discriminant(p) == std::mem::discriminant(q),
    };
    let (p, q) = (x.kind.ops(), y.kind.ops());
    head && p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| self.tree_eq(f, *a, *b))
  }

  /// The sum of the sizes of all values as trees.
  fn tree_sizes(&self, f: usize) -> u64 {
    type Map<'a> = HashMap<Value, (&'a MVal, u64)>;
    fn size(m: &mut Map, v: Value) -> u64 {
      let Some((x, n)) = m.get(&v).copied() else { return 1 };
      if n > 0 {
        return n;
      }
      let n = x.kind.ops().into_iter().fold(1u64, |n, o| n.saturating_add(size(m, o)));
      m.get_mut(&v).unwrap().1 = n;
      n
    }
    let all: Vec<&(Value, MVal)> = self.m.gvals.iter().chain(&self.m.funcs[f].vals).collect();
    let mut m: Map = all.iter().map(|x| (x.0, (&x.1, 0))).collect();
    all.iter().fold(0u64, |n, x| n.saturating_add(size(&mut m, x.0)))
  }

  /// A near-copy of an existing value.
  fn near_copy(&mut self, f: usize) -> Res {
    let global = self.t.chance(25);
    let vals: Vec<Value> = if global {
      self.m.gvals.iter().map(|x| x.0).collect()
    } else {
      self.m.funcs[f].vals.iter().map(|x| x.0).collect()
    };
    if vals.is_empty() {
      return Ok(());
    }
    let v = vals[vals.len() - 1 - self.t.below(vals.len().min(10))];
    let scope = if global { None } else { Some(f) };
    let Some(mut r) = to_req(&self.mval(f, v).clone()) else { return Ok(()) };
    if !global && matches!(r, Req::GAlloc(_)) {
      return Ok(()); // a local copy of a global allocation: no builder makes another
    }
    // operands become equal ones
    let change = self.t.weighted(&[5, 4, 4]);
    let n = req_ops(&mut r).len();
    let slot = self.t.below(n.max(1));
    for i in 0..n {
      let o = *req_ops(&mut r)[i];
      let mut cands: Vec<Value> = self
        .m
        .gvals
        .iter()
        .map(|x| x.0)
        .chain(self.m.funcs[f].vals.iter().map(|x| x.0))
        .filter(|x| !global || x.is_global())
        .collect();
      let diff = change == 1 && i == slot;
      let oty = self.mval(f, o).ty.clone();
      cands.retain(|x| self.mval(f, *x).ty == oty && self.tree_eq(f, *x, o) != diff);
      if matches!(r, Req::Agg(_)) {
        cands.retain(|x| self.mval(f, *x).kind.is_const());
      }
      if !cands.is_empty() {
        let x = *self.t.pick(&cands);
        *req_ops(&mut r)[i] = x;
      }
    }
    if change == 2 {
      let any = self.any_bb(f, false);
      let num = self.t.int();
      let what = self.t.below(3);
      let new_ty = self.some_ty();
      let op = self.t.pick(&BINS).0;
      let callees: Vec<Function> = {
        let m = self.mval(f, v).clone();
        match &m.kind {
          Mk::Call(g, _) => {
            let g = self.m.funcs.iter().find(|x| x.h == *g).unwrap();
            let key = (g.ptys.clone(), g.ret.clone());
            self.m.funcs.iter().filter(|x| (x.ptys.clone(), x.ret.clone()) == key).map(|x| x.h).collect()
          }
          _ => vec![],
        }
      };
      let extra = self.val_of(scope, |v| v.kind.is_const());
      match &mut r {
        Req::Int(i) => *i = num,
        Req::Zero(t) | Req::Undef(t) | Req::Alloc(t) => *t = new_ty,
        Req::Bin(o, ..) => *o = op,
        Req::BrArgs(_, x, y, p, q) => {
          if let Some(b) = any {
            match what {
              0 => *x = b,
              1 => *y = b,
              _ => {
                std::mem::swap(x, y);
                std::mem::swap(p, q);
              }
            }
          }
        }
        Req::JumpArgs(x, _) => {
          if let Some(b) = any {
            *x = b;
          }
        }
        Req::Call(g, _) => *g = *self.t.pick(&callees),
        Req::Ret(v) => *v = if v.is_some() { None } else { extra },
        Req::Agg(v) => {
          if v.len() > 1 && what == 0 {
            v.pop();
          } else {
            v.push(v[0]);
          }
        }
        _ => {}
      }
    }
    self.issue(scope, r)
  }

  /// Issues a request that may be ill-typed; ignores it if so.
  fn issue(&mut self, f: Option<usize>, r: Req) -> Res {
    let Some(m) = rule(&self.m, f, &r) else { return Ok(()) };
    let msg = format!("{}: {}", if f.is_some() { "f" } else { "program" }, self.req(&r));
    let v = match f {
      Some(f) => local_req(self.dfg(f).new_value(), &r, None),
      None => global_req(self.p.new_value(), &r, None),
    };
    self.new_handle(v, f.is_none())?;
    let x = format!("{msg} -> {}", self.v(v));
    self.say(x);
    self.c.class(m.kind.word());
    match f {
      Some(f) => self.m.funcs[f].vals.push((v, m)),
      None => self.m.gvals.push((v, m)),
    }
    Ok(())
  }
}

/// Grows values of one function and compares all pairs.
pub fn equal_pairs(e: &mut Eng) -> Res {
  for _ in 0..e.t.range(1, 3) {
    e.op_new_func(false)?;
  }
  if e.t.chance(60) {
    // a second function of the same type
    let m = &e.m.funcs[0];
    let tys: Vec<Type> = m.ptys.iter().map(ty).collect();
    let (ptys, ret) = (m.ptys.clone(), m.ret.clone());
    let h = e.p.new_func_decl("@same".into(), tys, ty(&ret));
    e.fids.push(h);
    e.m.funcs.push(MFunc {
      h,
      name: "@same".into(),
      ptys,
      ret,
      params: vec![],
      vals: vec![],
      bbs: vec![],
      layout: vec![],
    });
  }
  let f = 0;
  for _ in 0..e.t.range(0, 3) {
    e.op_new_bb(f, false)?;
  }
  let n = e.t.range(5, 36) * e.t.growth(12);
  let mut near = 0;
  for _ in 0..n {
    // comparing walks trees: values that share their operands can be exponential ones
    if e.t.exhausted() || e.tree_sizes(f) > 30_000 {
      break;
    }
    match e.t.weighted(&[5, 7, 1, 1]) {
      0 => e.op_new(Some(f), false)?,
      1 => {
        near += 1;
        e.near_copy(f)?
      }
      2 => e.op_new(None, false)?,
      _ => e.op_names(f, false)?,
    }
  }
  let mut vals: Vec<Value> = e.m.gvals.iter().map(|x| x.0).collect();
  vals.extend(e.m.funcs[f].vals.iter().map(|x| x.0));
  let dfg = e.p.func(e.m.funcs[f].h).dfg();
  let data = |v: Value| -> ValueData {
    if v.is_global() { e.p.borrow_value(v).clone() } else { dfg.value(v).clone() }
  };
  let mut equal = false;
  for a in &vals {
    for b in &vals {
      let want = e.tree_eq(f, *a, *b);
      let got = dfg.value_eq(*a, *b);
      if a != b && want {
        equal = true;
        e.c.classes.push("equal pair");
      }
      let k = e.mval(f, *a).kind.word();
      ensure!(
        got == want,
        format!("equality of {k}"),
        "value_eq({}, {}) is {got} ({k}, {})\n{}",
        e.v(*a),
        e.v(*b),
        e.mval(f, *b).kind.word(),
        e.trace()
      );
      if want || a == b {
        ensure!(
          dfg.data_eq(&data(*a), &data(*b)) == want,
          "data equality",
          "data_eq({}, {}) is {}\n{}",
          e.v(*a),
          e.v(*b),
          !want,
          e.trace()
        );
      }
    }
  }
  e.c.classes.sort();
  e.c.classes.dedup();
  e.c.nontrivial = vals.len() >= 8 && near >= 2 && equal;
  Ok(())
}
