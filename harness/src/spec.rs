//! An independent model of a Koopa IR program.  Generators produce it, the
//! text renderer and the API builder consume it, and `extract` reads it back
//! out of a `koopa::ir::Program`, so that two programs can be compared up to
//! the identity of handles.

use std::collections::{HashMap, VecDeque};
use std::sync::Arc as Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
  I32,
  Unit,
  Arr(Rc<Ty>, usize),
  Ptr(Rc<Ty>),
  Fun(Rc<Vec<Ty>>, Rc<Ty>),
}

impl Ty {
  pub fn arr(b: Ty, n: usize) -> Ty {
    Ty::Arr(Rc::new(b), n)
  }
  pub fn ptr(b: Ty) -> Ty {
    Ty::Ptr(Rc::new(b))
  }
  pub fn fun(ps: Vec<Ty>, r: Ty) -> Ty {
    Ty::Fun(Rc::new(ps), Rc::new(r))
  }
  pub fn is_unit(&self) -> bool {
    *self == Ty::Unit
  }
  pub fn pointee(&self) -> Option<&Ty> {
    match self {
      Ty::Ptr(b) => Some(b),
      _ => None,
    }
  }
  /// The canonical textual form (written from the language description).
  pub fn show(&self) -> String {
    match self {
      Ty::I32 => "i32".into(),
      Ty::Unit => "unit".into(),
      Ty::Arr(b, n) => format!("[{}, {}]", b.show(), n),
      Ty::Ptr(b) => format!("*{}", b.show()),
      Ty::Fun(ps, r) => {
        let ps: Vec<_> = ps.iter().map(|p| p.show()).collect();
        if r.is_unit() {
          format!("({})", ps.join(", "))
        } else {
          format!("({}): {}", ps.join(", "), r.show())
        }
      }
    }
  }
  pub fn has_fun(&self) -> bool {
    match self {
      Ty::I32 | Ty::Unit => false,
      Ty::Arr(b, _) | Ty::Ptr(b) => b.has_fun(),
      Ty::Fun(..) => true,
    }
  }
  /// Number of scalar cells a value of this type occupies.
  pub fn cells(&self) -> usize {
    match self {
      Ty::Arr(b, n) => b.cells().saturating_mul(*n),
      Ty::Unit => 0,
      _ => 1,
    }
  }
  /// Size in bytes with the given pointer size.
  pub fn size(&self, ptr: usize) -> usize {
    match self {
      Ty::I32 => 4,
      Ty::Unit => 0,
      Ty::Arr(b, n) => b.size(ptr) * n,
      Ty::Ptr(_) | Ty::Fun(..) => ptr,
    }
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin {
  Ne,
  Eq,
  Gt,
  Lt,
  Ge,
  Le,
  Add,
  Sub,
  Mul,
  Div,
  Mod,
  And,
  Or,
  Xor,
  Shl,
  Shr,
  Sar,
}

pub const BINS: [(Bin, &str); 17] = [
  (Bin::Add, "add"),
  (Bin::Sub, "sub"),
  (Bin::Mul, "mul"),
  (Bin::Ne, "ne"),
  (Bin::Eq, "eq"),
  (Bin::Gt, "gt"),
  (Bin::Lt, "lt"),
  (Bin::Ge, "ge"),
  (Bin::Le, "le"),
  (Bin::And, "and"),
  (Bin::Or, "or"),
  (Bin::Xor, "xor"),
  (Bin::Shl, "shl"),
  (Bin::Shr, "shr"),
  (Bin::Sar, "sar"),
  (Bin::Div, "div"),
  (Bin::Mod, "mod"),
];

impl Bin {
  pub fn name(self) -> &'static str {
    BINS.iter().find(|(b, _)| *b == self).unwrap().1
  }
}

/// A constant.  The type of each node is explicit.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Const {
  Int(i32),
  Zero(Ty),
  Undef(Ty),
  Agg(Vec<Const>, Ty),
}

impl Const {
  pub fn ty(&self) -> Ty {
    match self {
      Const::Int(_) => Ty::I32,
      Const::Zero(t) | Const::Undef(t) | Const::Agg(_, t) => t.clone(),
    }
  }
  pub fn has_undef(&self) -> bool {
    match self {
      Const::Undef(_) => true,
      Const::Agg(es, _) => es.iter().any(|e| e.has_undef()),
      _ => false,
    }
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  Const(Const),
  Global(usize),
  /// Parameter of the current function.
  Arg(usize),
  /// Parameter of a block.
  Param(usize, usize),
  /// Instruction `1` of block `0`.
  Inst(usize, usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Edge {
  pub to: usize,
  pub args: Vec<Op>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
  Alloc(Ty),
  Load(Op),
  Store(Op, Op),
  GetPtr(Op, Op),
  GetElemPtr(Op, Op),
  Bin(Bin, Op, Op),
  Call(usize, Vec<Op>),
  Br(Op, Edge, Edge),
  Jump(Edge),
  Ret(Option<Op>),
}

impl Kind {
  pub fn is_term(&self) -> bool {
    matches!(self, Kind::Br(..) | Kind::Jump(..) | Kind::Ret(..))
  }
  pub fn ops(&self) -> Vec<&Op> {
    match self {
      Kind::Alloc(_) => vec![],
      Kind::Load(a) => vec![a],
      Kind::Store(a, b) | Kind::GetPtr(a, b) | Kind::GetElemPtr(a, b) | Kind::Bin(_, a, b) => {
        vec![a, b]
      }
      Kind::Call(_, v) => v.iter().collect(),
      Kind::Br(c, t, f) => std::iter::once(c).chain(&t.args).chain(&f.args).collect(),
      Kind::Jump(e) => e.args.iter().collect(),
      Kind::Ret(v) => v.iter().collect(),
    }
  }
  pub fn ops_mut(&mut self) -> Vec<&mut Op> {
    match self {
      Kind::Alloc(_) => vec![],
      Kind::Load(a) => vec![a],
      Kind::Store(a, b) | Kind::GetPtr(a, b) | Kind::GetElemPtr(a, b) | Kind::Bin(_, a, b) => {
        vec![a, b]
      }
      Kind::Call(_, v) => v.iter_mut().collect(),
      Kind::Br(c, t, f) => std::iter::once(c).chain(&mut t.args).chain(&mut f.args).collect(),
      Kind::Jump(e) => e.args.iter_mut().collect(),
      Kind::Ret(v) => v.iter_mut().collect(),
    }
  }
  pub fn edges(&self) -> Vec<&Edge> {
    match self {
      Kind::Br(_, t, f) => vec![t, f],
      Kind::Jump(e) => vec![e],
      _ => vec![],
    }
  }
  pub fn edges_mut(&mut self) -> Vec<&mut Edge> {
    match self {
      Kind::Br(_, t, f) => vec![t, f],
      Kind::Jump(e) => vec![e],
      _ => vec![],
    }
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Inst {
  pub name: Option<String>,
  pub ty: Ty,
  pub kind: Kind,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Block {
  pub name: Option<String>,
  pub params: Vec<(Option<String>, Ty)>,
  pub insts: Vec<Inst>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Func {
  pub name: String,
  pub params: Vec<(Option<String>, Ty)>,
  pub ret: Ty,
  /// Empty for declarations.
  pub blocks: Vec<Block>,
}

impl Func {
  pub fn is_decl(&self) -> bool {
    self.blocks.is_empty()
  }
  pub fn ty(&self) -> Ty {
    Ty::fun(self.params.iter().map(|p| p.1.clone()).collect(), self.ret.clone())
  }
  pub fn succs(&self, b: usize) -> Vec<usize> {
    match self.blocks[b].insts.last() {
      Some(i) => i.kind.edges().iter().map(|e| e.to).collect(),
      None => vec![],
    }
  }
  pub fn op_ty(&self, spec: &Spec, op: &Op) -> Ty {
    match op {
      Op::Const(c) => c.ty(),
      Op::Global(g) => Ty::ptr(spec.globals[*g].init.ty()),
      Op::Arg(i) => self.params[*i].1.clone(),
      Op::Param(b, i) => self.blocks[*b].params[*i].1.clone(),
      Op::Inst(b, i) => self.blocks[*b].insts[*i].ty.clone(),
    }
  }
  /// Keeps the blocks in `order` only, in that order.
  pub fn reorder(&mut self, order: &[usize]) {
    let map: HashMap<usize, usize> = order.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    let fix = |b: &mut usize| *b = map.get(b).copied().unwrap_or(usize::MAX);
    let mut blocks: Vec<Block> = order.iter().map(|b| self.blocks[*b].clone()).collect();
    for b in &mut blocks {
      for i in &mut b.insts {
        for o in i.kind.ops_mut() {
          match o {
            Op::Param(b, _) | Op::Inst(b, _) => fix(b),
            _ => {}
          }
        }
        for e in i.kind.edges_mut() {
          fix(&mut e.to);
        }
      }
    }
    self.blocks = blocks;
  }
  /// Blocks reachable from the entry in breadth-first order.
  pub fn bfs(&self) -> Vec<usize> {
    let mut seen = vec![false; self.blocks.len()];
    let mut q = VecDeque::new();
    let mut out = vec![];
    if self.blocks.is_empty() {
      return out;
    }
    q.push_back(0);
    while let Some(b) = q.pop_front() {
      if std::mem::replace(&mut seen[b], true) {
        continue;
      }
      out.push(b);
      q.extend(self.succs(b));
    }
    out
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Global {
  pub name: Option<String>,
  pub init: Const,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Spec {
  pub globals: Vec<Global>,
  pub funcs: Vec<Func>,
}

impl Spec {
  /// Puts every function's blocks in breadth-first order and drops the
  /// unreachable ones.
  pub fn canon_blocks(&mut self) {
    for f in &mut self.funcs {
      let o = f.bfs();
      f.reorder(&o);
    }
  }
  /// Forgets every local name.
  pub fn strip_local_names(&mut self) {
    for f in &mut self.funcs {
      for p in &mut f.params {
        p.0 = None;
      }
      for b in &mut f.blocks {
        b.name = None;
        for p in &mut b.params {
          p.0 = None;
        }
        for i in &mut b.insts {
          i.name = None;
        }
      }
    }
  }
  pub fn strip_global_names(&mut self) {
    for g in &mut self.globals {
      g.name = None;
    }
  }
  /// Drops `%<digits>` names, which the text form treats as temporaries.
  pub fn strip_temp_names(&mut self) {
    let fix = |n: &mut Option<String>| {
      if n.as_deref().is_some_and(is_temp) {
        *n = None;
      }
    };
    for g in &mut self.globals {
      fix(&mut g.name);
    }
    for f in &mut self.funcs {
      for p in &mut f.params {
        fix(&mut p.0);
      }
      for b in &mut f.blocks {
        fix(&mut b.name);
        for p in &mut b.params {
          fix(&mut p.0);
        }
        for i in &mut b.insts {
          fix(&mut i.name);
        }
      }
    }
  }
  pub fn n_insts(&self) -> usize {
    self.funcs.iter().flat_map(|f| &f.blocks).map(|b| b.insts.len()).sum()
  }
}

pub fn is_temp(n: &str) -> bool {
  n.starts_with('%') && n[1..].chars().all(|c| c.is_ascii_digit())
}

/// The first difference between two programs, for messages.
pub fn diff(a: &Spec, b: &Spec) -> Option<String> {
  if a == b {
    return None;
  }
  if a.globals.len() != b.globals.len() {
    return Some(format!("{} globals vs {}", a.globals.len(), b.globals.len()));
  }
  for (i, (x, y)) in a.globals.iter().zip(&b.globals).enumerate() {
    if x != y {
      return Some(format!("global #{i}: {x:?} vs {y:?}"));
    }
  }
  if a.funcs.len() != b.funcs.len() {
    return Some(format!("{} functions vs {}", a.funcs.len(), b.funcs.len()));
  }
  for (i, (x, y)) in a.funcs.iter().zip(&b.funcs).enumerate() {
    if x == y {
      continue;
    }
    if x.name != y.name || x.params != y.params || x.ret != y.ret {
      return Some(format!(
        "function #{i} signature: {} {:?} {:?} vs {} {:?} {:?}",
        x.name, x.params, x.ret, y.name, y.params, y.ret
      ));
    }
    if x.blocks.len() != y.blocks.len() {
      return Some(format!("function {}: {} blocks vs {}", x.name, x.blocks.len(), y.blocks.len()));
    }
    for (j, (p, q)) in x.blocks.iter().zip(&y.blocks).enumerate() {
      if p.name != q.name || p.params != q.params {
        return Some(format!(
          "function {} block #{j}: {:?}{:?} vs {:?}{:?}",
          x.name, p.name, p.params, q.name, q.params
        ));
      }
      if p.insts.len() != q.insts.len() {
        return Some(format!(
          "function {} block #{j}: {} instructions vs {}",
          x.name,
          p.insts.len(),
          q.insts.len()
        ));
      }
      for (k, (s, t)) in p.insts.iter().zip(&q.insts).enumerate() {
        if s != t {
          return Some(format!("function {} block #{j} inst #{k}: {s:?} vs {t:?}", x.name));
        }
      }
    }
  }
  Some("programs differ".into())
}
