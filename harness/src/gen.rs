//! Decodes a tape into a well-formed program (`Spec`).

use crate::spec::*;
use crate::tape::Tape;
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq)]
pub enum Names {
  /// Valid text-form names, unique per function and globally.
  Text,
  /// What the builder API permits: duplicates, clashes, generated-looking
  /// names, no names.
  Api,
}

#[derive(Clone, Copy)]
pub struct Cfg {
  pub names: Names,
  /// Only constants that the text form can express in operand position.
  pub text_ops: bool,
  /// Calls to functions defined later are allowed.
  pub forward_calls: bool,
  /// No undefined values, so that programs have one meaning.
  pub runnable: bool,
  pub fun_types: bool,
  /// Arrays too long to be kept in memory.
  pub huge: bool,
  /// Unreachable blocks may be present.
  pub unreachable: bool,
  pub max_globals: usize,
  pub max_funcs: usize,
  pub max_blocks: usize,
  pub max_insts: usize,
  /// Many parameters.
  pub wide: bool,
}

impl Cfg {
  pub fn text() -> Cfg {
    Cfg {
      names: Names::Text,
      text_ops: true,
      forward_calls: false,
      runnable: false,
      fun_types: true,
      huge: true,
      unreachable: false,
      max_globals: 4,
      max_funcs: 5,
      max_blocks: 8,
      max_insts: 8,
      wide: false,
    }
  }
  pub fn api() -> Cfg {
    Cfg { names: Names::Api, text_ops: false, forward_calls: true, ..Cfg::text() }
  }
}

pub fn gen_ty(t: &mut Tape, cfg: &Cfg, depth: usize) -> Ty {
  let w: [u32; 4] = if depth == 0 {
    [1, 0, 0, 0]
  } else if cfg.fun_types {
    [6, 4, 4, 1]
  } else {
    [6, 4, 4, 0]
  };
  match t.weighted(&w) {
    0 => Ty::I32,
    1 => {
      let n = match t.below(8) {
        0..=5 => t.range(1, 4),
        6 => t.range(5, 12),
        _ => t.range(1, 40),
      };
      Ty::arr(gen_ty(t, cfg, depth - 1), n)
    }
    2 if cfg.huge && t.chance(6) => {
      let n: &[usize] = if !cfg.text_ops {
        &[(1 << 32) + 1, 0x7fff_ffff, 0x8000_0000, usize::MAX, 70000, 256]
      } else {
        &[0x7fff_ffff, 70000, 256, 65536, (1 << 32) + 3, i64::MAX as usize]
      };
      Ty::ptr(Ty::arr(gen_ty(t, cfg, depth - 1), *t.pick(n)))
    }
    2 => Ty::ptr(gen_ty(t, cfg, depth - 1)),
    _ => {
      let n = t.below(4);
      let ps = (0..n).map(|_| gen_ty(t, cfg, depth - 1)).collect();
      let r = if t.chance(50) { gen_ty(t, cfg, depth - 1) } else { Ty::Unit };
      let f = Ty::fun(ps, r);
      if t.chance(50) { f } else { Ty::ptr(f) }
    }
  }
}

pub fn gen_const(t: &mut Tape, cfg: &Cfg, ty: &Ty) -> Const {
  let undef = !cfg.runnable;
  match ty {
    Ty::I32 => match t.below(10) {
      0..=7 => Const::Int(t.int()),
      8 => Const::Zero(Ty::I32),
      _ if undef => Const::Undef(Ty::I32),
      _ => Const::Int(t.int()),
    },
    Ty::Arr(b, n) => match t.below(8) {
      0 | 1 => Const::Zero(ty.clone()),
      2 if undef => Const::Undef(ty.clone()),
      _ if ty.cells() > 64 => Const::Zero(ty.clone()),
      _ => Const::Agg((0..*n).map(|_| gen_const(t, cfg, b)).collect(), ty.clone()),
    },
    _ => {
      if undef && t.chance(40) {
        Const::Undef(ty.clone())
      } else {
        Const::Zero(ty.clone())
      }
    }
  }
}

/// An operand constant of the given type, if the configuration has one.
fn gen_op_const(t: &mut Tape, cfg: &Cfg, ty: &Ty) -> Option<Op> {
  if cfg.text_ops {
    if *ty == Ty::I32 && (cfg.runnable || !t.chance(12)) {
      return Some(Op::Const(Const::Int(t.int())));
    }
    return (!cfg.runnable).then(|| Op::Const(Const::Undef(ty.clone())));
  }
  Some(Op::Const(gen_const(t, cfg, ty)))
}

struct Sig {
  params: Vec<Ty>,
  ret: Ty,
}

struct Fg<'a> {
  cfg: &'a Cfg,
  globals: Vec<Ty>,
  sigs: &'a [Sig],
  me: usize,
  /// Callable functions.
  callees: Vec<usize>,
}

type Pool = Vec<(Op, Ty)>;

impl Fg<'_> {
  fn op(&self, t: &mut Tape, pool: &Pool, ty: &Ty) -> Option<Op> {
    let c: Vec<&Op> = pool.iter().filter(|x| x.1 == *ty).map(|x| &x.0).collect();
    if c.is_empty() || t.chance(25) {
      if let Some(o) = gen_op_const(t, self.cfg, ty) {
        return Some(o);
      }
    }
    if c.is_empty() {
      return None;
    }
    // recent values first: a small choice is a recent value
    let i = t.below(c.len());
    Some(c[c.len() - 1 - i].clone())
  }

  fn op_where(&self, t: &mut Tape, pool: &Pool, f: impl Fn(&Ty) -> bool) -> Option<(Op, Ty)> {
    let c: Vec<&(Op, Ty)> = pool.iter().filter(|x| f(&x.1)).collect();
    if c.is_empty() {
      return None;
    }
    let i = t.below(c.len());
    Some(c[c.len() - 1 - i].clone())
  }

  fn inst(&self, t: &mut Tape, pool: &Pool) -> (Ty, Kind) {
    for _ in 0..3 {
      let k = match t.weighted(&[6, 2, 4, 4, 2, 3, 3]) {
        0 => None,
        1 => {
          let ty = gen_ty(t, self.cfg, 3);
          if ty.cells() > 4000 && !self.cfg.huge {
            None
          } else {
            Some((Ty::ptr(ty.clone()), Kind::Alloc(ty)))
          }
        }
        2 => self
          .op_where(t, pool, |ty| ty.pointee().is_some())
          .map(|(o, ty)| (ty.pointee().unwrap().clone(), Kind::Load(o))),
        3 => self
          .op_where(t, pool, |ty| ty.pointee().is_some())
          .and_then(|(d, ty)| {
            let b = ty.pointee().unwrap().clone();
            let v = if t.chance(35) {
              Some(Op::Const(gen_const(t, self.cfg, &b)))
            } else {
              self.op(t, pool, &b)
            };
            v.map(|v| (Ty::Unit, Kind::Store(v, d)))
          }),
        4 => self
          .op_where(t, pool, |ty| ty.pointee().is_some())
          .and_then(|(o, ty)| self.index(t, pool, None).map(|n| (ty, Kind::GetPtr(o, n)))),
        5 => self.op_where(t, pool, |ty| matches!(ty.pointee(), Some(Ty::Arr(..)))).and_then(
          |(o, ty)| {
            let Some(Ty::Arr(b, n)) = ty.pointee() else { unreachable!() };
            self.index(t, pool, Some(*n)).map(|i| (Ty::ptr((**b).clone()), Kind::GetElemPtr(o, i)))
          },
        ),
        _ => {
          if self.callees.is_empty() {
            None
          } else {
            let c = *t.pick(&self.callees);
            let args: Option<Vec<Op>> =
              self.sigs[c].params.iter().map(|ty| self.op(t, pool, ty)).collect();
            args.map(|a| (self.sigs[c].ret.clone(), Kind::Call(c, a)))
          }
        }
      };
      if let Some(k) = k {
        return k;
      }
      if t.exhausted() {
        break;
      }
    }
    let op = t.pick(&BINS).0;
    let a = self.op(t, pool, &Ty::I32).unwrap_or(Op::Const(Const::Int(0)));
    let b = if matches!(op, Bin::Div | Bin::Mod) && self.cfg.runnable && !t.chance(20) {
      Op::Const(Const::Int(t.range(1, 9) as i32))
    } else if matches!(op, Bin::Shl | Bin::Shr | Bin::Sar) && self.cfg.runnable && !t.chance(20) {
      Op::Const(Const::Int(t.below(32) as i32))
    } else {
      self.op(t, pool, &Ty::I32).unwrap_or(Op::Const(Const::Int(0)))
    };
    (Ty::I32, Kind::Bin(op, a, b))
  }

  fn index(&self, t: &mut Tape, pool: &Pool, len: Option<usize>) -> Option<Op> {
    if self.cfg.runnable && !t.chance(6) {
      let n = len.unwrap_or(if t.chance(25) { 3 } else { 1 }).clamp(1, 1 << 20);
      return Some(Op::Const(Const::Int(t.below(n) as i32)));
    }
    self.op(t, pool, &Ty::I32)
  }

  fn func(&self, t: &mut Tape, name: String, decl: bool) -> Func {
    let sig = &self.sigs[self.me];
    let mut f = Func {
      name,
      params: sig.params.iter().map(|p| (None, p.clone())).collect(),
      ret: sig.ret.clone(),
      blocks: vec![],
    };
    if decl {
      return f;
    }
    let cfg = self.cfg;
    // control-flow graph: a random tree plus extra edges
    let n = match t.below(4) {
      0 => 1,
      1 => t.range(1, 3.min(cfg.max_blocks)),
      _ => t.range(1, cfg.max_blocks),
    };
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 1..n {
      let c: Vec<usize> = (0..b).filter(|p| succ[*p].len() < 2).collect();
      let i = t.below(c.len());
      succ[c[c.len() - 1 - i]].push(b);
    }
    for s in &mut succ {
      if n < 2 {
        break;
      }
      match s.len() {
        0 => match t.weighted(&[3, 2, 1]) {
          0 => {}
          1 => s.push(t.range(1, n - 1)),
          _ => {
            s.push(t.range(1, n - 1));
            s.push(t.range(1, n - 1));
          }
        },
        1 => {
          if t.chance(40) {
            let e = if t.chance(20) { s[0] } else { t.range(1, n - 1) };
            s.push(e);
          }
        }
        _ => {}
      }
      if s.len() == 2 && t.chance(50) {
        s.swap(0, 1);
      }
    }
    // which blocks may not have parameters: both edges of a branch lead here
    let mut no_params = vec![false; n];
    no_params[0] = true;
    for s in &succ {
      if s.len() == 2 && s[0] == s[1] {
        no_params[s[0]] = true;
      }
    }
    // reverse post-order and dominators
    let rpo = {
      let mut seen = vec![false; n];
      let mut post = vec![];
      fn go(b: usize, succ: &[Vec<usize>], seen: &mut [bool], post: &mut Vec<usize>) {
        if std::mem::replace(&mut seen[b], true) {
          return;
        }
        for s in &succ[b] {
          go(*s, succ, seen, post);
        }
        post.push(b);
      }
      go(0, &succ, &mut seen, &mut post);
      post.reverse();
      post
    };
    let mut dom: Vec<HashSet<usize>> = vec![(0..n).collect(); n];
    dom[0] = [0].into();
    loop {
      let mut changed = false;
      for b in rpo.iter().skip(1) {
        let mut d: Option<HashSet<usize>> = None;
        for p in 0..n {
          if succ[p].contains(b) {
            d = Some(match d {
              None => dom[p].clone(),
              Some(d) => d.intersection(&dom[p]).copied().collect(),
            });
          }
        }
        let mut d = d.unwrap_or_default();
        d.insert(*b);
        if d != dom[*b] {
          dom[*b] = d;
          changed = true;
        }
      }
      if !changed {
        break;
      }
    }
    // values
    let mut base: Pool = vec![];
    for (i, ty) in self.globals.iter().enumerate() {
      base.push((Op::Global(i), ty.clone()));
    }
    for (i, p) in sig.params.iter().enumerate() {
      base.push((Op::Arg(i), p.clone()));
    }
    f.blocks = (0..n).map(|_| Block { name: None, params: vec![], insts: vec![] }).collect();
    let mut own: Vec<Pool> = vec![vec![]; n];
    let push = |f: &mut Func, own: &mut Vec<Pool>, b: usize, ty: Ty, kind: Kind| {
      let o = Op::Inst(b, f.blocks[b].insts.len());
      if !ty.is_unit() {
        own[b].push((o.clone(), ty.clone()));
      }
      f.blocks[b].insts.push(Inst { name: None, ty, kind });
      o
    };
    for (pos, b) in rpo.iter().copied().enumerate() {
      if pos == 0 {
        let k = t.below(4);
        for _ in 0..k {
          let ty = if t.chance(40) { Ty::I32 } else { gen_ty(t, cfg, 3) };
          if ty.cells() > 4000 && !self.cfg.huge {
            continue;
          }
          let p = push(&mut f, &mut own, 0, Ty::ptr(ty.clone()), Kind::Alloc(ty.clone()));
          if cfg.runnable {
            let c = gen_const(t, cfg, &ty);
            push(&mut f, &mut own, 0, Ty::Unit, Kind::Store(Op::Const(c), p.clone()));
          }
          if t.chance(25) {
            push(&mut f, &mut own, 0, ty, Kind::Load(p));
          }
        }
      } else if !no_params[b] {
        // parameters: only types every predecessor can supply
        let k = if cfg.wide { t.below(14) } else { t.weighted(&[5, 3, 2, 1]) };
        for i in 0..k {
          let ty = if t.chance(70) {
            Ty::I32
          } else if !cfg.runnable && t.chance(40) {
            gen_ty(t, cfg, 2)
          } else {
            let c: Vec<Ty> = base.iter().chain(&own[0]).map(|x| x.1.clone()).collect();
            if c.is_empty() {
              Ty::I32
            } else {
              t.pick(&c).clone()
            }
          };
          f.blocks[b].params.push((None, ty.clone()));
          own[b].push((Op::Param(b, i), ty));
        }
      }
      let k = t.below(cfg.max_insts + 1);
      let mut pool = base.clone();
      for d in &rpo {
        if *d != b && dom[b].contains(d) {
          pool.extend(own[*d].iter().cloned());
        }
      }
      pool.extend(own[b].iter().cloned());
      for _ in 0..k {
        let before = own[b].len();
        let (ty, kind) = self.inst(t, &pool);
        push(&mut f, &mut own, b, ty, kind);
        pool.extend(own[b][before..].iter().cloned());
      }
    }
    // terminators (all parameters are known now)
    let mut dead_ret = vec![];
    for b in rpo.iter().copied() {
      let mut pool = base.clone();
      for d in &rpo {
        if *d != b && dom[b].contains(d) {
          pool.extend(own[*d].iter().cloned());
        }
      }
      pool.extend(own[b].iter().cloned());
      let edge = |t: &mut Tape, f: &Func, to: usize| Edge {
        to,
        args: f.blocks[to]
          .params
          .iter()
          .map(|p| self.op(t, &pool, &p.1).expect("edge argument"))
          .collect(),
      };
      let kind = match succ[b].len() {
        0 => {
          if sig.ret.is_unit() {
            Kind::Ret(None)
          } else {
            match self.op(t, &pool, &sig.ret) {
              Some(o) => Kind::Ret(Some(o)),
              None => {
                dead_ret.push(b);
                Kind::Ret(None)
              }
            }
          }
        }
        1 => Kind::Jump(edge(t, &f, succ[b][0])),
        _ => {
          let c = self.op(t, &pool, &Ty::I32).unwrap_or(Op::Const(Const::Int(0)));
          let (x, y) = (edge(t, &f, succ[b][0]), edge(t, &f, succ[b][1]));
          Kind::Br(c, x, y)
        }
      };
      push(&mut f, &mut own, b, Ty::Unit, kind);
    }
    // return values no constant expresses: load one from a fresh variable
    for b in dead_ret {
      let at = f.blocks[b].insts.len() - 1;
      let ty = sig.ret.clone();
      let alloc = Inst { name: None, ty: Ty::ptr(ty.clone()), kind: Kind::Alloc(ty.clone()) };
      let st = Kind::Store(Op::Const(gen_const(t, cfg, &ty)), Op::Inst(b, at));
      let load = Inst { name: None, ty: ty.clone(), kind: Kind::Load(Op::Inst(b, at)) };
      f.blocks[b].insts[at].kind = Kind::Ret(Some(Op::Inst(b, at + 2)));
      f.blocks[b].insts.splice(
        at..at,
        [alloc, Inst { name: None, ty: Ty::Unit, kind: st }, load],
      );
    }
    // unreachable blocks
    if cfg.unreachable && t.chance(25) {
      for _ in 0..t.range(1, 2) {
        let u = f.blocks.len();
        f.blocks.push(Block { name: None, params: vec![], insts: vec![] });
        own.push(vec![]);
        let mut pool = base.clone();
        for _ in 0..t.below(3) {
          let before = own[u].len();
          let (ty, kind) = self.inst(t, &pool);
          push(&mut f, &mut own, u, ty, kind);
          pool.extend(own[u][before..].iter().cloned());
        }
        let to = t.range(1, u.max(1));
        let to = if to > u { u } else { to };
        let args: Option<Vec<Op>> = if u == 0 {
          None
        } else {
          f.blocks[to].params.iter().map(|p| self.op(t, &pool, &p.1)).collect()
        };
        let kind = match args {
          Some(args) => Kind::Jump(Edge { to, args }),
          None => Kind::Jump(Edge { to: u, args: vec![] }),
        };
        push(&mut f, &mut own, u, Ty::Unit, kind);
      }
    }
    // any order of the blocks after the entry is fine
    let m = f.blocks.len();
    let mut order: Vec<usize> = (0..m).collect();
    if t.chance(50) {
      for i in (2..m).rev() {
        let j = i - t.below(i);
        order.swap(i, j);
      }
    }
    f.reorder(&order);
    f
  }
}

pub fn gen_spec(t: &mut Tape, cfg: &Cfg) -> Spec {
  let mut grown = cfg.clone();
  // sometimes much more of one kind
  match t.weighted(&[92, 2, 1, 2, 1, 2]) {
    0 => {}
    1 => grown.max_globals *= 8,
    2 => grown.max_funcs *= 4,
    3 => grown.max_blocks *= 5,
    4 => grown.max_insts *= 8,
    _ => grown.wide = true,
  }
  grown.max_globals *= t.growth(30);
  grown.max_funcs *= t.growth(12);
  grown.max_blocks *= t.growth(8);
  grown.max_insts *= t.growth(20);
  let cfg = &grown;
  let mut names = t.fork(160.max(t.rest() / 8));
  let mut s = Spec::default();
  let ng = t.below(cfg.max_globals + 1);
  for _ in 0..ng {
    let ty = gen_ty(t, cfg, 3);
    let init = gen_const(t, cfg, &ty);
    s.globals.push(Global { name: None, init });
  }
  let nf = t.range(1, cfg.max_funcs);
  let mut sigs = vec![];
  let mut decls = vec![];
  for i in 0..nf {
    decls.push(if i + 1 == nf { t.chance(3) } else { t.chance(30) });
    let np = match t.below(10) {
      0..=5 => t.below(3),
      6..=8 if cfg.wide => t.below(40),
      6..=8 => t.below(6),
      _ => t.below(14),
    };
    let params = (0..np)
      .map(|_| if t.chance(60) { Ty::I32 } else { gen_ty(t, cfg, 2) })
      .collect();
    let ret = match t.weighted(&[4, 3, 1]) {
      0 => Ty::I32,
      1 => Ty::Unit,
      _ => gen_ty(t, cfg, 2),
    };
    sigs.push(Sig { params, ret });
  }
  let globals: Vec<Ty> = s.globals.iter().map(|g| Ty::ptr(g.init.ty())).collect();
  for i in 0..nf {
    let rec = !cfg.runnable || t.chance(15);
    let callees =
      (0..nf).filter(|c| *c != i || rec).filter(|c| *c <= i || cfg.forward_calls && rec).collect();
    let g = Fg { cfg, globals: globals.clone(), sigs: &sigs, me: i, callees };
    let f = g.func(t, String::new(), decls[i]);
    s.funcs.push(f);
  }
  assign_names(&mut names, cfg, &mut s);
  s
}

const BASES: [&str; 24] = [
  "x", "y", "main", "a", "b", "entry", "i32", "ret", "while_body", "_", "x_0", "x_1", "_1", "A9z",
  "then", "X", "x_0_0", "bb", "tmp", "global", "f", "a_b_c", "_x", "end",
];

fn ident(t: &mut Tape) -> String {
  let p = if t.chance(40) { '@' } else { '%' };
  let mut s = format!("{p}{}", t.pick(&BASES));
  match t.below(12) {
    10 => s.push_str(&format!("{}", t.below(1000))),
    11 => {
      if t.chance(12) {
        // names around the limit of LLVM printers, many of them with equal beginnings
        let c = *t.pick(&['x', 'y', '_']);
        let n = if t.chance(80) { t.range(507, 518) } else { t.range(200, 2000) };
        while s.len() < n {
          s.push(c);
        }
        for _ in 0..t.below(3) {
          s.push(*t.pick(&['q', 'Z', '_', '7']));
        }
        return s;
      }
      let n = t.range(1, 60);
      for _ in 0..n {
        s.push(*t.pick(&['q', 'Z', '_', '7', 'k']));
      }
    }
    _ => {}
  }
  s
}

fn fresh(t: &mut Tape, used: &mut HashSet<String>) -> String {
  let n = ident(t);
  if used.insert(n.clone()) {
    return n;
  }
  let mut i = 0;
  loop {
    let m = if t.exhausted() || i > 3 { format!("{n}u{i}") } else { format!("{n}_{i}") };
    if used.insert(m.clone()) {
      return m;
    }
    i += 1;
  }
}

pub fn assign_names(t: &mut Tape, cfg: &Cfg, s: &mut Spec) {
  let mut globals: HashSet<String> = HashSet::new();
  // globals and functions always have distinct names of their own
  let api = cfg.names == Names::Api;
  for g in &mut s.globals {
    g.name = if t.chance(if api { 15 } else { 5 }) { None } else { Some(fresh(t, &mut globals)) };
  }
  for f in &mut s.funcs {
    f.name = fresh(t, &mut globals);
  }
  for f in &mut s.funcs {
    let decl = f.is_decl();
    let mut locals = globals.clone();
    let mut blocks = HashSet::new();
    let mut val = |t: &mut Tape, anon: u32| -> Option<String> {
      if t.chance(anon) {
        None
      } else if api {
        // collisions of every kind
        Some(match t.below(6) {
          0 | 1 => ident(t),
          2 if t.chance(8) => format!("%1234567890123456789{}", t.below(2)),
          2 => format!("%{}", t.below(6)),
          3 => t.pick(&["%x", "%y", "@x", "%x_0"]).to_string(),
          4 if !globals.is_empty() => {
            let mut v: Vec<_> = globals.iter().cloned().collect();
            v.sort();
            t.pick(&v).clone()
          }
          _ => fresh(t, &mut locals),
        })
      } else {
        Some(fresh(t, &mut locals))
      }
    };
    let anon_style = [50, 5, 95][t.below(3)];
    if !decl {
      for p in &mut f.params {
        p.0 = val(t, anon_style);
      }
    }
    for b in &mut f.blocks {
      b.name = if t.chance(anon_style / 2) {
        None
      } else if api {
        Some(match t.below(5) {
          0 | 1 => ident(t),
          2 => format!("%{}", t.below(6)),
          3 => t.pick(&["%x", "%bb", "@x", "%entry", "%bb0"]).to_string(),
          _ => fresh(t, &mut blocks),
        })
      } else {
        Some(fresh(t, &mut blocks))
      };
      for p in &mut b.params {
        p.0 = val(t, anon_style);
      }
      for i in &mut b.insts {
        if !i.ty.is_unit() {
          i.name = val(t, anon_style);
        }
      }
    }
  }
}

/// A program of thousands of blocks, functions or instructions.
pub fn gen_big(t: &mut Tape) -> Spec {
  let mut s = Spec::default();
  let inst = |ty: Ty, kind: Kind| Inst { name: None, ty, kind };
  let jump = |to: usize| inst(Ty::Unit, Kind::Jump(Edge { to, args: vec![] }));
  let ret = || inst(Ty::Unit, Kind::Ret(Some(Op::Const(Const::Int(3)))));
  let block = |insts: Vec<Inst>| Block { name: None, params: vec![], insts };
  let n = t.range(2000, 9000);
  match t.below(8) {
    0 => {
      // a chain of blocks, in order or reversed, some of them branching ahead
      let back = t.chance(50);
      let at = |i: usize| if back && i > 0 { n - i } else { i };
      let mut blocks = vec![block(vec![]); n];
      for i in 0..n {
        let last = if i + 1 == n {
          ret()
        } else if i % 5 == 3 && i + 2 < n {
          let e = |k: usize| Edge { to: at(i + k), args: vec![] };
          inst(Ty::Unit, Kind::Br(Op::Arg(0), e(1), e(2)))
        } else {
          jump(at(i + 1))
        };
        blocks[at(i)] = block(vec![last]);
      }
      s.funcs.push(Func {
        name: "@chain".into(),
        params: vec![(Some("%a".into()), Ty::I32)],
        ret: Ty::I32,
        blocks,
      });
    }
    1 => {
      // each function calls the next one
      for i in 0..n {
        let mut is = vec![];
        if i + 1 < n {
          is.push(inst(Ty::I32, Kind::Call(i + 1, vec![])));
        }
        is.push(ret());
        s.funcs.push(Func {
          name: format!("@f{i}"),
          params: vec![],
          ret: Ty::I32,
          blocks: vec![block(is)],
        });
      }
    }
    2 => {
      // thousands of globals, all of them used, the first one most of all
      for i in 0..n {
        let init = match i % 4 {
          0 => Const::Zero(Ty::I32),
          1 => Const::Agg(vec![Const::Int(i as i32), Const::Int(-1)], Ty::arr(Ty::I32, 2)),
          _ => Const::Int(i as i32),
        };
        s.globals.push(Global { name: Some(format!("@g{i}")), init });
      }
      let mut is = vec![];
      for i in 0..n {
        if i % 4 != 1 {
          let v = if i % 8 == 0 || is.is_empty() { Op::Const(Const::Int(i as i32)) } else { Op::Inst(0, 0) };
          is.push(inst(Ty::I32, Kind::Load(Op::Global(i))));
          is.push(inst(Ty::Unit, Kind::Store(v, Op::Global(0))));
        }
      }
      is.push(ret());
      s.funcs.push(Func { name: "@user".into(), params: vec![], ret: Ty::I32, blocks: vec![block(is)] });
    }
    3 => {
      // hundreds of parameters, and calls that pass them, shifted
      let n = n / 10;
      let name = |i: usize| if i % 2 == 0 { Some(format!("@p{i}")) } else { None };
      let ty = |i: usize| if i % 3 == 0 { Ty::ptr(Ty::I32) } else { Ty::I32 };
      let params: Vec<_> = (0..n).map(|i| (name(i), ty(i))).collect();
      let args: Vec<_> = (0..n).map(|i| Op::Arg(if i + 3 < n { i + 3 } else { i % 3 })).collect();
      let args: Vec<_> = args.into_iter().enumerate().map(|(i, a)| match a {
        Op::Arg(k) if ty(k) == ty(i) => a,
        _ => Op::Arg(i),
      }).collect();
      let d = params.iter().map(|p| (None, p.1.clone())).collect();
      s.funcs.push(Func { name: "@many".into(), params: d, ret: Ty::I32, blocks: vec![] });
      let is = vec![
        inst(Ty::I32, Kind::Call(0, args.clone())),
        inst(Ty::I32, Kind::Bin(Bin::Add, Op::Inst(0, 0), Op::Arg(n - if n % 3 == 1 { 2 } else { 1 }))),
        inst(Ty::Unit, Kind::Ret(Some(Op::Inst(0, 1)))),
      ];
      s.funcs.push(Func { name: "@pass".into(), params, ret: Ty::I32, blocks: vec![block(is)] });
    }
    4 => {
      // one block with parameters that every other block may go to
      let n = n / 4;
      let edge = |i: usize| Edge { to: n, args: vec![Op::Arg(0), Op::Const(Const::Int(i as i32))] };
      let mut blocks: Vec<_> = (0..n)
        .map(|i| {
          let last = if i + 1 < n {
            inst(Ty::Unit, Kind::Br(Op::Arg(0), Edge { to: i + 1, args: vec![] }, edge(i)))
          } else {
            inst(Ty::Unit, Kind::Jump(edge(i)))
          };
          block(vec![last])
        })
        .collect();
      blocks.push(Block {
        name: Some("%all".into()),
        params: vec![(None, Ty::I32), (Some("%x".into()), Ty::I32)],
        insts: vec![inst(Ty::Unit, Kind::Ret(Some(Op::Param(n, 1))))],
      });
      s.funcs.push(Func { name: "@wide".into(), params: vec![(None, Ty::I32)], ret: Ty::I32, blocks });
    }
    5 => {
      // a large aggregate of aggregates
      let row = |i: usize| Const::Agg((0..3).map(|k| Const::Int((i * 3 + k) as i32)).collect(), Ty::arr(Ty::I32, 3));
      let ty = Ty::arr(Ty::arr(Ty::I32, 3), n);
      let all = Const::Agg((0..n).map(row).collect(), ty.clone());
      s.globals.push(Global { name: Some("@table".into()), init: all });
      let is = vec![
        inst(Ty::ptr(Ty::arr(Ty::I32, 3)), Kind::GetElemPtr(Op::Global(0), Op::Const(Const::Int(n as i32 - 1)))),
        inst(Ty::ptr(Ty::I32), Kind::GetElemPtr(Op::Inst(0, 0), Op::Const(Const::Int(1)))),
        inst(Ty::I32, Kind::Load(Op::Inst(0, 1))),
        inst(Ty::Unit, Kind::Ret(Some(Op::Inst(0, 2)))),
      ];
      s.funcs.push(Func { name: "@last".into(), params: vec![], ret: Ty::I32, blocks: vec![block(is)] });
    }
    6 => {
      // hundreds of variables of one name
      let n = n / 10;
      let mut is = vec![];
      for i in 0..n {
        let mut a = inst(Ty::ptr(Ty::I32), Kind::Alloc(Ty::I32));
        a.name = Some(if i % 100 == 7 { format!("%v_{i}") } else { "%v".into() });
        is.push(a);
      }
      for i in 0..n {
        is.push(inst(Ty::Unit, Kind::Store(Op::Const(Const::Int(i as i32)), Op::Inst(0, i))));
      }
      is.push(inst(Ty::I32, Kind::Load(Op::Inst(0, n / 2))));
      is.push(inst(Ty::Unit, Kind::Ret(Some(Op::Inst(0, 2 * n)))));
      s.funcs.push(Func { name: "@vars".into(), params: vec![], ret: Ty::I32, blocks: vec![block(is)] });
    }
    _ => {
      // each instruction uses the one before, or one far away
      let n = if t.chance(10) { t.range(65_500, 70_000) } else { n };
      let mut is = vec![];
      for i in 0..n {
        let a = if i == 0 { Op::Const(Const::Int(1)) } else { Op::Inst(0, i - 1) };
        is.push(inst(Ty::I32, Kind::Bin(Bin::Add, a, Op::Const(Const::Int(i as i32)))));
      }
      is.push(inst(Ty::Unit, Kind::Ret(Some(Op::Inst(0, n - 1)))));
      s.funcs.push(Func {
        name: "@long".into(),
        params: vec![],
        ret: Ty::I32,
        blocks: vec![block(is)],
      });
    }
  }
  s
}

#[cfg(test)]
#[test]
fn stats() {
  use std::collections::BTreeMap;
  let mut x = 88172645463325252u64;
  let mut rnd = || {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    x as u32
  };
  for (which, len) in [("api", 700), ("text", 500)] {
    let mut h: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for _ in 0..20_000 {
      let n = rnd() as usize % len;
      let w: Vec<u32> = (0..n).map(|_| rnd()).collect();
      let cfg = if which == "api" { Cfg::api() } else { Cfg::text() };
      let s = gen_spec(&mut Tape::new(&w), &cfg);
      let mut m: BTreeMap<&str, usize> = BTreeMap::new();
      let mut up = |k: &'static str, v: usize| {
        let e = m.entry(k).or_default();
        *e = (*e).max(v);
      };
      fn depth(t: &Ty) -> usize {
        match t {
          Ty::Arr(b, _) | Ty::Ptr(b) => 1 + depth(b),
          Ty::Fun(p, r) => 1 + p.iter().map(depth).max().unwrap_or(0).max(depth(r)),
          _ => 0,
        }
      }
      fn alen(t: &Ty) -> usize {
        match t {
          Ty::Arr(b, n) => alen(b).max(*n),
          Ty::Ptr(b) => alen(b),
          _ => 0,
        }
      }
      fn cd(c: &Const) -> (usize, usize) {
        match c {
          Const::Agg(e, _) => (1 + e.iter().map(|e| cd(e).0).max().unwrap_or(0), e.len().max(e.iter().map(|e| cd(e).1).max().unwrap_or(0))),
          _ => (0, 0),
        }
      }
      up("globals", s.globals.len());
      up("funcs", s.funcs.len());
      for g in &s.globals {
        up("type depth", depth(&g.init.ty()));
        up("array len", alen(&g.init.ty()));
        up("agg depth", cd(&g.init).0);
        up("agg len", cd(&g.init).1);
        up("name len", g.name.as_ref().map_or(0, |n| n.len()));
      }
      for f in &s.funcs {
        up("params", f.params.len());
        up("blocks", f.blocks.len());
        up("func name", f.name.len());
        let mut preds = vec![0; f.blocks.len()];
        for p in &f.params {
          up("type depth", depth(&p.1));
        }
        for b in &f.blocks {
          up("bparams", b.params.len());
          up("insts", b.insts.len());
          for i in &b.insts {
            up("type depth", depth(&i.ty));
            match &i.kind {
              Kind::Alloc(t) => up("array len", alen(t)),
              Kind::Store(Op::Const(c), _) => {
                up("agg depth", cd(c).0);
                up("agg len", cd(c).1);
              }
              Kind::Br(_, a, b) => {
                preds[a.to] += 1;
                preds[b.to] += 1;
              }
              Kind::Jump(a) => preds[a.to] += 1,
              _ => {}
            }
          }
        }
        up("preds", preds.into_iter().max().unwrap_or(0));
      }
      for (k, v) in m {
        h.entry(k).or_default().push(v);
      }
    }
    for (k, mut v) in h {
      v.sort();
      let q = |p: f64| v[((v.len() - 1) as f64 * p) as usize];
      println!("{which} {k}: 50% {} 90% {} 99% {} 99.9% {} max {}", q(0.5), q(0.9), q(0.99), q(0.999), q(1.0));
    }
  }
}
