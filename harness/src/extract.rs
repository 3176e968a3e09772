//! Reads a `koopa::ir::Program` back into a `Spec`, and checks every
//! structural invariant of the in-memory form on the way.

use crate::api::{unbin, unty};
use crate::spec::*;
use koopa::ir::entities::{FunctionData, ValueData};
use koopa::ir::{BasicBlock, Function, Program, Value, ValueKind};
use std::collections::{HashMap, HashSet};

macro_rules! ck {
  ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

struct Ctx<'a> {
  p: &'a Program,
  globals: HashMap<Value, usize>,
  funcs: HashMap<Function, usize>,
}

fn konst(vals: &dyn Fn(Value) -> Option<(ValueKind, Ty)>, v: Value) -> Result<Const, String> {
  let (k, t) = vals(v).ok_or_else(|| format!("constant operand {v:?} does not exist"))?;
  Ok(match k {
    ValueKind::Integer(i) => {
      ck!(t == Ty::I32, "integer constant of type {}", t.show());
      Const::Int(i.value())
    }
    ValueKind::ZeroInit(_) => Const::Zero(t),
    ValueKind::Undef(_) => Const::Undef(t),
    ValueKind::Aggregate(a) => {
      let es = a.elems().iter().map(|e| konst(vals, *e)).collect::<Result<Vec<_>, _>>()?;
      ck!(!es.is_empty(), "empty aggregate");
      for e in &es {
        ck!(e.ty() == es[0].ty(), "aggregate elements of different types");
      }
      ck!(
        t == Ty::arr(es[0].ty(), es.len()),
        "aggregate of {} x {} has type {}",
        es.len(),
        es[0].ty().show(),
        t.show()
      );
      Const::Agg(es, t)
    }
    k => return Err(format!("expected a constant, found {k:?}")),
  })
}

pub fn extract(p: &Program) -> Result<Spec, String> {
  let mut spec = Spec::default();
  let mut cx = Ctx { p, globals: HashMap::new(), funcs: HashMap::new() };
  let gvals = |v: Value| {
    let m = p.borrow_values();
    m.get(&v).map(|d| (d.kind().clone(), unty(d.ty())))
  };
  for v in p.inst_layout() {
    ck!(v.is_global(), "a global value's handle is not global");
    let (name, ty, kind) = {
      let m = p.borrow_values();
      let d = m.get(v).ok_or("global in layout does not exist")?;
      (d.name().clone(), unty(d.ty()), d.kind().clone())
    };
    let ValueKind::GlobalAlloc(g) = kind else {
      return Err("global layout holds a non-alloc".into());
    };
    let init = konst(&gvals, g.init())?;
    ck!(ty == Ty::ptr(init.ty()), "global alloc of {} has type {}", init.ty().show(), ty.show());
    ck!(cx.globals.insert(*v, spec.globals.len()).is_none(), "global twice in layout");
    spec.globals.push(Global { name, init });
  }
  ck!(
    p.func_layout().len() == p.funcs().len(),
    "{} functions in the layout, {} in the map",
    p.func_layout().len(),
    p.funcs().len()
  );
  for (i, f) in p.func_layout().iter().enumerate() {
    ck!(cx.funcs.insert(*f, i).is_none(), "function twice in layout");
    ck!(p.funcs().contains_key(f), "function in layout does not exist");
  }
  for f in p.func_layout() {
    let fd = p.func(*f);
    spec.funcs.push(func(&cx, fd).map_err(|e| format!("function {}: {e}", fd.name()))?);
  }
  Ok(spec)
}

fn func(cx: &Ctx, fd: &FunctionData) -> Result<Func, String> {
  let Ty::Fun(ptys, ret) = unty(fd.ty()) else {
    return Err(format!("function has type {}", fd.ty()));
  };
  let layout = fd.layout();
  let mut out =
    Func { name: fd.name().into(), params: vec![], ret: (*ret).clone(), blocks: vec![] };
  let mut defs: HashMap<Value, Op> = HashMap::new();
  if fd.params().is_empty() {
    out.params = ptys.iter().map(|t| (None, t.clone())).collect();
    ck!(
      ptys.is_empty() || layout.entry_bb().is_none(),
      "{} parameter types but no parameters",
      ptys.len()
    );
  } else {
    ck!(fd.params().len() == ptys.len(), "parameter count");
    for (i, v) in fd.params().iter().enumerate() {
      let d = fd.dfg().values().get(v).ok_or("parameter does not exist")?;
      let ValueKind::FuncArgRef(r) = d.kind() else { return Err("parameter kind".into()) };
      ck!(r.index() == i, "parameter #{i} has index {}", r.index());
      ck!(unty(d.ty()) == ptys[i], "parameter #{i} has type {}", d.ty());
      out.params.push((d.name().clone(), ptys[i].clone()));
      ck!(defs.insert(*v, Op::Arg(i)).is_none(), "parameter handle repeated");
    }
  }
  let mut bidx: HashMap<BasicBlock, usize> = HashMap::new();
  for (bi, (bb, node)) in layout.bbs().iter().enumerate() {
    ck!(bidx.insert(*bb, bi).is_none(), "block twice in layout");
    let bd = fd.dfg().bbs().get(bb).ok_or("block in layout does not exist")?;
    let mut params = vec![];
    for (i, v) in bd.params().iter().enumerate() {
      let d = fd.dfg().values().get(v).ok_or("block parameter does not exist")?;
      let ValueKind::BlockArgRef(r) = d.kind() else { return Err("block parameter kind".into()) };
      ck!(r.index() == i, "block parameter #{i} has index {}", r.index());
      params.push((d.name().clone(), unty(d.ty())));
      ck!(defs.insert(*v, Op::Param(bi, i)).is_none(), "block parameter handle repeated");
    }
    for (ii, v) in node.insts().keys().enumerate() {
      ck!(!v.is_global(), "local instruction has a global handle");
      ck!(fd.dfg().values().contains_key(v), "instruction in layout does not exist");
      ck!(
        layout.parent_bb(*v) == Some(*bb),
        "parent of an instruction of block #{bi} is {:?}",
        layout.parent_bb(*v)
      );
      ck!(defs.insert(*v, Op::Inst(bi, ii)).is_none(), "instruction twice in layout");
    }
    out.blocks.push(Block { name: bd.name().clone(), params, insts: vec![] });
  }
  ck!(
    layout.entry_bb() == layout.bbs().iter().next().map(|x| *x.0),
    "entry block is not the first block"
  );
  let vals = |v: Value| {
    if let Some(d) = fd.dfg().values().get(&v) {
      return Some((d.kind().clone(), unty(d.ty())));
    }
    let m = cx.p.borrow_values();
    m.get(&v).map(|d| (d.kind().clone(), unty(d.ty())))
  };
  let op = |v: Value| -> Result<Op, String> {
    if let Some(o) = defs.get(&v) {
      return Ok(o.clone());
    }
    if let Some(g) = cx.globals.get(&v) {
      return Ok(Op::Global(*g));
    }
    konst(&vals, v).map(Op::Const)
  };
  let ops = |vs: &[Value]| vs.iter().map(|v| op(*v)).collect::<Result<Vec<_>, _>>();
  let blk = |b: BasicBlock| bidx.get(&b).copied().ok_or("target block is not in the layout");
  for (bi, (_, node)) in layout.bbs().iter().enumerate() {
    for v in node.insts().keys() {
      let d = fd.dfg().value(*v);
      let kind = match d.kind() {
        ValueKind::Alloc(_) => match unty(d.ty()) {
          Ty::Ptr(b) => Kind::Alloc((*b).clone()),
          t => return Err(format!("alloc has type {}", t.show())),
        },
        ValueKind::Load(l) => Kind::Load(op(l.src())?),
        ValueKind::Store(s) => Kind::Store(op(s.value())?, op(s.dest())?),
        ValueKind::GetPtr(g) => Kind::GetPtr(op(g.src())?, op(g.index())?),
        ValueKind::GetElemPtr(g) => Kind::GetElemPtr(op(g.src())?, op(g.index())?),
        ValueKind::Binary(b) => Kind::Bin(unbin(b.op()), op(b.lhs())?, op(b.rhs())?),
        ValueKind::Branch(b) => Kind::Br(
          op(b.cond())?,
          Edge { to: blk(b.true_bb())?, args: ops(b.true_args())? },
          Edge { to: blk(b.false_bb())?, args: ops(b.false_args())? },
        ),
        ValueKind::Jump(j) => Kind::Jump(Edge { to: blk(j.target())?, args: ops(j.args())? }),
        ValueKind::Call(c) => Kind::Call(
          *cx.funcs.get(&c.callee()).ok_or("callee is not in the program")?,
          ops(c.args())?,
        ),
        ValueKind::Return(r) => Kind::Ret(r.value().map(op).transpose()?),
        k => return Err(format!("{k:?} in the instruction layout")),
      };
      let ty = unty(d.ty());
      out.blocks[bi].insts.push(Inst { name: d.name().clone(), ty, kind });
    }
  }
  Ok(out)
}

/// Checks def-use consistency: `used_by` is exactly the inverse of the
/// operand lists, for values and blocks, local and global.
pub fn check_uses(p: &Program) -> Result<(), String> {
  let mut want: HashMap<Value, HashSet<Value>> = HashMap::new();
  let gm = p.borrow_values();
  for (v, d) in gm.iter() {
    for u in d.kind().value_uses() {
      want.entry(u).or_default().insert(*v);
    }
  }
  for f in p.funcs().values() {
    for (v, d) in f.dfg().values() {
      for u in d.kind().value_uses() {
        ck!(
          gm.contains_key(&u) || f.dfg().values().contains_key(&u),
          "{:?} of {} uses the missing value {u:?}",
          d.kind(),
          f.name()
        );
        want.entry(u).or_default().insert(*v);
      }
    }
  }
  let none = HashSet::new();
  let one = |v: &Value, d: &ValueData| -> Result<(), String> {
    let w = want.get(v).unwrap_or(&none);
    ck!(
      w == d.used_by(),
      "used_by of {v:?} ({:?}) holds {} values, {} values use it",
      d.kind(),
      d.used_by().len(),
      w.len()
    );
    Ok(())
  };
  for (v, d) in gm.iter() {
    ck!(v.is_global(), "global map holds a local handle");
    one(v, d)?;
  }
  for f in p.funcs().values() {
    for (v, d) in f.dfg().values() {
      ck!(!v.is_global(), "function holds a global handle");
      one(v, d)?;
    }
    let mut bwant: HashMap<BasicBlock, HashSet<Value>> = HashMap::new();
    for (v, d) in f.dfg().values() {
      for b in d.kind().bb_uses() {
        ck!(f.dfg().bbs().contains_key(&b), "a terminator targets a missing block");
        bwant.entry(b).or_default().insert(*v);
      }
    }
    for (b, d) in f.dfg().bbs() {
      let e = HashSet::new();
      let w = bwant.get(b).unwrap_or(&e);
      ck!(
        w == d.used_by(),
        "used_by of block {b:?} holds {} values, {} values use it",
        d.used_by().len(),
        w.len()
      );
    }
  }
  Ok(())
}

/// Checks that an extracted program is well typed and well formed: operand
/// and result types, arguments of edges and calls, one terminator per block
/// at its end, an entry block without predecessors, and (with `dom`) that
/// every definition dominates its uses.
pub fn check_types(s: &Spec) -> Result<(), String> {
  for f in &s.funcs {
    check_func(s, f).map_err(|e| format!("function {}: {e}", f.name))?;
  }
  Ok(())
}

fn check_func(s: &Spec, f: &Func) -> Result<(), String> {
  for (bi, b) in f.blocks.iter().enumerate() {
    ck!(!b.insts.is_empty(), "block #{bi} is empty");
    for (ii, i) in b.insts.iter().enumerate() {
      ck!(
        i.kind.is_term() == (ii + 1 == b.insts.len()),
        "block #{bi}: inst #{ii} of {} {}",
        b.insts.len(),
        if i.kind.is_term() { "ends the block early" } else { "is last but no terminator" }
      );
      let t = |o: &Op| f.op_ty(s, o);
      let edge = |e: &Edge| -> Result<(), String> {
        ck!(e.to != 0, "block #{bi} targets the entry block");
        let ps = &f.blocks[e.to].params;
        ck!(ps.len() == e.args.len(), "edge with {} arguments to {}", e.args.len(), ps.len());
        for (a, p) in e.args.iter().zip(ps) {
          ck!(t(a) == p.1, "block argument of type {} for {}", t(a).show(), p.1.show());
        }
        Ok(())
      };
      let want = match &i.kind {
        Kind::Alloc(t) => Ty::ptr(t.clone()),
        Kind::Load(a) => match t(a) {
          Ty::Ptr(b) => (*b).clone(),
          t => return Err(format!("load from {}", t.show())),
        },
        Kind::Store(v, d) => {
          ck!(Ty::ptr(t(v)) == t(d), "store of {} to {}", t(v).show(), t(d).show());
          Ty::Unit
        }
        Kind::GetPtr(a, n) => {
          ck!(t(n) == Ty::I32 && t(a).pointee().is_some(), "getptr operands");
          t(a)
        }
        Kind::GetElemPtr(a, n) => {
          ck!(t(n) == Ty::I32, "getelemptr index");
          match t(a).pointee() {
            Some(Ty::Arr(b, _)) => Ty::ptr((**b).clone()),
            _ => return Err(format!("getelemptr of {}", t(a).show())),
          }
        }
        Kind::Bin(_, a, b) => {
          ck!(t(a) == Ty::I32 && t(b) == Ty::I32, "binary operands");
          Ty::I32
        }
        Kind::Call(c, args) => {
          let callee = &s.funcs[*c];
          ck!(args.len() == callee.params.len(), "call of {} argument count", callee.name);
          for (a, p) in args.iter().zip(&callee.params) {
            ck!(t(a) == p.1, "call argument of type {} for {}", t(a).show(), p.1.show());
          }
          callee.ret.clone()
        }
        Kind::Br(c, x, y) => {
          ck!(t(c) == Ty::I32, "branch condition");
          edge(x)?;
          edge(y)?;
          Ty::Unit
        }
        Kind::Jump(e) => {
          edge(e)?;
          Ty::Unit
        }
        Kind::Ret(v) => {
          let vt = v.as_ref().map_or(Ty::Unit, t);
          ck!(vt == f.ret, "ret of {} in a function of {}", vt.show(), f.ret.show());
          Ty::Unit
        }
      };
      ck!(i.ty == want, "{:?} has type {}, not {}", i.kind, i.ty.show(), want.show());
    }
  }
  Ok(())
}
