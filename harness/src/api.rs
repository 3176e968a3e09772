//! Builds a `koopa::ir::Program` from a `Spec` through the public builder API.

use crate::spec::*;
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
use std::collections::HashMap;

pub fn ty(t: &Ty) -> Type {
  match t {
    Ty::I32 => Type::get_i32(),
    Ty::Unit => Type::get_unit(),
    Ty::Arr(b, n) => Type::get_array(ty(b), *n),
    Ty::Ptr(b) => Type::get_pointer(ty(b)),
    Ty::Fun(ps, r) => Type::get_function(ps.iter().map(ty).collect(), ty(r)),
  }
}

pub fn unty(t: &Type) -> Ty {
  match t.kind() {
    TypeKind::Int32 => Ty::I32,
    TypeKind::Unit => Ty::Unit,
    TypeKind::Array(b, n) => Ty::arr(unty(b), *n),
    TypeKind::Pointer(b) => Ty::ptr(unty(b)),
    TypeKind::Function(ps, r) => Ty::fun(ps.iter().map(unty).collect(), unty(r)),
  }
}

pub fn bin(b: Bin) -> BinaryOp {
  match b {
    Bin::Ne => BinaryOp::NotEq,
    Bin::Eq => BinaryOp::Eq,
    Bin::Gt => BinaryOp::Gt,
    Bin::Lt => BinaryOp::Lt,
    Bin::Ge => BinaryOp::Ge,
    Bin::Le => BinaryOp::Le,
    Bin::Add => BinaryOp::Add,
    Bin::Sub => BinaryOp::Sub,
    Bin::Mul => BinaryOp::Mul,
    Bin::Div => BinaryOp::Div,
    Bin::Mod => BinaryOp::Mod,
    Bin::And => BinaryOp::And,
    Bin::Or => BinaryOp::Or,
    Bin::Xor => BinaryOp::Xor,
    Bin::Shl => BinaryOp::Shl,
    Bin::Shr => BinaryOp::Shr,
    Bin::Sar => BinaryOp::Sar,
  }
}

pub fn unbin(b: BinaryOp) -> Bin {
  match b {
    BinaryOp::NotEq => Bin::Ne,
    BinaryOp::Eq => Bin::Eq,
    BinaryOp::Gt => Bin::Gt,
    BinaryOp::Lt => Bin::Lt,
    BinaryOp::Ge => Bin::Ge,
    BinaryOp::Le => Bin::Le,
    BinaryOp::Add => Bin::Add,
    BinaryOp::Sub => Bin::Sub,
    BinaryOp::Mul => Bin::Mul,
    BinaryOp::Div => Bin::Div,
    BinaryOp::Mod => Bin::Mod,
    BinaryOp::And => Bin::And,
    BinaryOp::Or => Bin::Or,
    BinaryOp::Xor => Bin::Xor,
    BinaryOp::Shl => Bin::Shl,
    BinaryOp::Shr => Bin::Shr,
    BinaryOp::Sar => Bin::Sar,
  }
}

#[derive(Default, Clone, Copy)]
pub struct Opts {
  /// One value per distinct constant (per function) instead of one per use.
  pub share_consts: bool,
  /// Use global constants (created through `Program::new_value`) for scalars.
  pub global_consts: bool,
  /// Define (not declare) functions without bodies.
  pub decl_as_def: bool,
}

#[derive(Default)]
pub struct Handles {
  pub globals: Vec<Value>,
  pub funcs: Vec<Function>,
  pub blocks: Vec<Vec<BasicBlock>>,
  pub insts: Vec<Vec<Vec<Value>>>,
}

pub fn global_const(p: &mut Program, c: &Const) -> Value {
  match c {
    Const::Int(i) => p.new_value().integer(*i),
    Const::Zero(t) => p.new_value().zero_init(ty(t)),
    Const::Undef(t) => p.new_value().undef(ty(t)),
    Const::Agg(es, _) => {
      let es = es.iter().map(|e| global_const(p, e)).collect();
      p.new_value().aggregate(es)
    }
  }
}

pub fn local_const(p: &mut Program, f: Function, c: &Const) -> Value {
  match c {
    Const::Int(i) => p.func_mut(f).dfg_mut().new_value().integer(*i),
    Const::Zero(t) => p.func_mut(f).dfg_mut().new_value().zero_init(ty(t)),
    Const::Undef(t) => p.func_mut(f).dfg_mut().new_value().undef(ty(t)),
    Const::Agg(es, _) => {
      let es = es.iter().map(|e| local_const(p, f, e)).collect();
      p.func_mut(f).dfg_mut().new_value().aggregate(es)
    }
  }
}

pub fn build(spec: &Spec, opts: Opts) -> (Program, Handles) {
  let mut p = Program::new();
  let mut h = Handles::default();
  for g in &spec.globals {
    let init = global_const(&mut p, &g.init);
    let v = p.new_value().global_alloc(init);
    p.set_value_name(v, g.name.clone());
    h.globals.push(v);
  }
  for f in &spec.funcs {
    let tys: Vec<Type> = f.params.iter().map(|x| ty(&x.1)).collect();
    let func = if f.is_decl() && !opts.decl_as_def {
      p.new_func_decl(f.name.clone(), tys, ty(&f.ret))
    } else if f.params.iter().all(|x| x.0.is_none()) {
      p.new_func_def(f.name.clone(), tys, ty(&f.ret))
    } else {
      p.new_func_def_with_param_names(
        f.name.clone(),
        f.params.iter().map(|(n, t)| (n.clone(), ty(t))).collect(),
        ty(&f.ret),
      )
    };
    h.funcs.push(func);
  }
  let mut gconsts: HashMap<Const, Value> = HashMap::new();
  for (fi, f) in spec.funcs.iter().enumerate() {
    let func = h.funcs[fi];
    let mut bbs = vec![];
    for b in &f.blocks {
      let dfg = p.func_mut(func).dfg_mut();
      let bb = if b.params.is_empty() {
        dfg.new_bb().basic_block(b.name.clone())
      } else if b.params.iter().all(|x| x.0.is_none()) {
        let tys = b.params.iter().map(|x| ty(&x.1)).collect();
        dfg.new_bb().basic_block_with_params(b.name.clone(), tys)
      } else {
        let ps = b.params.iter().map(|(n, t)| (n.clone(), ty(t))).collect();
        dfg.new_bb().basic_block_with_param_names(b.name.clone(), ps)
      };
      p.func_mut(func).layout_mut().bbs_mut().push_key_back(bb).unwrap();
      bbs.push(bb);
    }
    let mut insts: Vec<Vec<Value>> = vec![vec![]; f.blocks.len()];
    let mut order = f.bfs();
    order.extend((0..f.blocks.len()).filter(|b| !order.contains(b)).collect::<Vec<_>>());
    let mut consts: HashMap<Const, Value> = HashMap::new();
    for b in order {
      for i in 0..f.blocks[b].insts.len() {
        let inst = &f.blocks[b].insts[i];
        let mut vs = vec![];
        for o in inst.kind.ops() {
          let v = match o {
            Op::Const(c) => {
              if opts.global_consts && !matches!(c, Const::Agg(..)) {
                match gconsts.get(c) {
                  Some(v) => *v,
                  None => {
                    let v = global_const(&mut p, c);
                    gconsts.insert(c.clone(), v);
                    v
                  }
                }
              } else if opts.share_consts {
                match consts.get(c) {
                  Some(v) => *v,
                  None => {
                    let v = local_const(&mut p, func, c);
                    consts.insert(c.clone(), v);
                    v
                  }
                }
              } else {
                local_const(&mut p, func, c)
              }
            }
            Op::Global(g) => h.globals[*g],
            Op::Arg(i) => p.func(func).params()[*i],
            Op::Param(b, i) => p.func(func).dfg().bb(bbs[*b]).params()[*i],
            Op::Inst(b, i) => insts[*b][*i],
          };
          vs.push(v);
        }
        let dfg = p.func_mut(func).dfg_mut();
        let v = match &inst.kind {
          Kind::Alloc(t) => dfg.new_value().alloc(ty(t)),
          Kind::Load(_) => dfg.new_value().load(vs[0]),
          Kind::Store(..) => dfg.new_value().store(vs[0], vs[1]),
          Kind::GetPtr(..) => dfg.new_value().get_ptr(vs[0], vs[1]),
          Kind::GetElemPtr(..) => dfg.new_value().get_elem_ptr(vs[0], vs[1]),
          Kind::Bin(op, ..) => dfg.new_value().binary(bin(*op), vs[0], vs[1]),
          Kind::Call(c, _) => dfg.new_value().call(h.funcs[*c], vs),
          Kind::Br(_, t, e) => {
            let c = vs[0];
            let ta = vs[1..1 + t.args.len()].to_vec();
            let ea = vs[1 + t.args.len()..].to_vec();
            if ta.is_empty() && ea.is_empty() {
              dfg.new_value().branch(c, bbs[t.to], bbs[e.to])
            } else {
              dfg.new_value().branch_with_args(c, bbs[t.to], bbs[e.to], ta, ea)
            }
          }
          Kind::Jump(e) => {
            if vs.is_empty() {
              dfg.new_value().jump(bbs[e.to])
            } else {
              dfg.new_value().jump_with_args(bbs[e.to], vs)
            }
          }
          Kind::Ret(_) => dfg.new_value().ret(vs.first().copied()),
        };
        dfg.set_value_name(v, inst.name.clone());
        p.func_mut(func).layout_mut().bb_mut(bbs[b]).insts_mut().push_key_back(v).unwrap();
        insts[b].push(v);
      }
    }
    h.blocks.push(bbs);
    h.insts.push(insts);
  }
  (p, h)
}
