//! The C interface of libkoopa as its header publishes it: mirrors of the raw
//! structures, a reader that turns a raw program into a `Spec` checking every
//! pointer on the way, and a writer that builds raw programs by hand.

use crate::spec::*;
use crate::tape::Tape;
use koopa::ir::{BasicBlock, Function, Program, Value, ValueKind};
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::ptr::null;

extern crate libkoopa_rs;

pub const UNKNOWN: u32 = 0;
pub const TYPE: u32 = 1;
pub const FUNCTION: u32 = 2;
pub const BLOCK: u32 = 3;
pub const VALUE: u32 = 4;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Slice {
  pub buf: *const *const c_void,
  pub len: u32,
  pub kind: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Prog {
  pub values: Slice,
  pub funcs: Slice,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct TArr {
  pub base: *const TyD,
  pub len: usize,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct TFun {
  pub params: Slice,
  pub ret: *const TyD,
}

#[repr(C)]
pub union TyU {
  pub arr: TArr,
  pub ptr: *const TyD,
  pub fun: TFun,
}

#[repr(C)]
pub struct TyD {
  pub tag: u32,
  pub u: TyU,
}

#[repr(C)]
pub struct FuncD {
  pub ty: *const TyD,
  pub name: *const c_char,
  pub params: Slice,
  pub bbs: Slice,
}

#[repr(C)]
pub struct BlockD {
  pub name: *const c_char,
  pub params: Slice,
  pub used_by: Slice,
  pub insts: Slice,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct VBin {
  pub op: u32,
  pub l: *const ValD,
  pub r: *const ValD,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct VBr {
  pub cond: *const ValD,
  pub t: *const BlockD,
  pub f: *const BlockD,
  pub ta: Slice,
  pub fa: Slice,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct VJump {
  pub to: *const BlockD,
  pub args: Slice,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct VCall {
  pub callee: *const FuncD,
  pub args: Slice,
}

#[repr(C)]
pub union ValU {
  pub int: i32,
  pub agg: Slice,
  pub index: usize,
  pub one: *const ValD,
  pub two: [*const ValD; 2],
  pub bin: VBin,
  pub br: VBr,
  pub jump: VJump,
  pub call: VCall,
}

#[repr(C)]
pub struct ValD {
  pub ty: *const TyD,
  pub name: *const c_char,
  pub used_by: Slice,
  pub tag: u32,
  // the padding C puts in front of the union comes from its alignment
  pub u: ValU,
}

/// Value tags in the order of the header.
pub const TAGS: [&str; 17] = [
  "integer", "zeroinit", "undef", "aggregate", "func_arg", "block_arg", "alloc", "global", "load",
  "store", "getptr", "getelemptr", "binary", "branch", "jump", "call", "return",
];

/// Operators in the order of the header.
pub const OPS: [Bin; 17] = [
  Bin::Ne,
  Bin::Eq,
  Bin::Gt,
  Bin::Lt,
  Bin::Ge,
  Bin::Le,
  Bin::Add,
  Bin::Sub,
  Bin::Mul,
  Bin::Div,
  Bin::Mod,
  Bin::And,
  Bin::Or,
  Bin::Xor,
  Bin::Shl,
  Bin::Shr,
  Bin::Sar,
];

unsafe extern "C" {
  pub fn koopa_parse_from_file(path: *const c_char, p: *mut *mut c_void) -> c_int;
  pub fn koopa_parse_from_string(s: *const c_char, p: *mut *mut c_void) -> c_int;
  pub fn koopa_parse_from_stdin(p: *mut *mut c_void) -> c_int;
  pub fn koopa_parse_from_raw(fd: c_int, p: *mut *mut c_void) -> c_int;
  pub fn koopa_delete_program(p: *mut c_void);
  pub fn koopa_dump_to_file(p: *const c_void, path: *const c_char) -> c_int;
  pub fn koopa_dump_to_string(p: *const c_void, buf: *mut c_char, len: *mut usize) -> c_int;
  pub fn koopa_dump_to_stdout(p: *const c_void) -> c_int;
  pub fn koopa_dump_to_raw(p: *const c_void, fd: c_int) -> c_int;
  pub fn koopa_dump_llvm_to_file(p: *const c_void, path: *const c_char) -> c_int;
  pub fn koopa_dump_llvm_to_string(p: *const c_void, buf: *mut c_char, len: *mut usize) -> c_int;
  pub fn koopa_dump_llvm_to_stdout(p: *const c_void) -> c_int;
  pub fn koopa_dump_llvm_to_raw(p: *const c_void, fd: c_int) -> c_int;
  pub fn koopa_new_raw_program_builder() -> *mut c_void;
  pub fn koopa_delete_raw_program_builder(b: *mut c_void);
  pub fn koopa_build_raw_program(b: *mut c_void, p: *const c_void) -> Prog;
  pub fn koopa_generate_raw_to_koopa(raw: *const Prog, p: *mut *mut c_void) -> c_int;
}

pub fn prog_ptr(p: &Program) -> *const c_void {
  p as *const Program as *const c_void
}

/// A program the library returned.
pub struct Owned(pub *mut c_void);

impl Owned {
  pub fn get(&self) -> &Program {
    unsafe { &*(self.0 as *const Program) }
  }
}

impl Drop for Owned {
  fn drop(&mut self) {
    unsafe { koopa_delete_program(self.0) }
  }
}

pub struct Builder(pub *mut c_void);

impl Builder {
  #[allow(clippy::new_without_default)]
  pub fn new() -> Self {
    Self(unsafe { koopa_new_raw_program_builder() })
  }
  pub fn build(&self, p: &Program) -> Prog {
    unsafe { koopa_build_raw_program(self.0, prog_ptr(p)) }
  }
}

impl Drop for Builder {
  fn drop(&mut self) {
    unsafe { koopa_delete_raw_program_builder(self.0) }
  }
}

/// Generates a program; `Err` is the error code.  The output pointer must
/// only be written on success.
pub fn generate(raw: &Prog) -> Result<Owned, i32> {
  let mark = 0x5a5a_5a5a_usize as *mut c_void;
  let mut p = mark;
  let c = unsafe { koopa_generate_raw_to_koopa(raw, &mut p) };
  match (c, p == mark) {
    (0, false) => Ok(Owned(p)),
    (0, true) => Err(-1),
    (c, true) => Err(c),
    (c, false) => Err(-1000 - c),
  }
}

macro_rules! ck {
  ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

/// What a raw program holds.
pub struct View {
  pub spec: Spec,
  pub globals: Vec<*const ValD>,
  pub funcs: Vec<*const FuncD>,
  pub blocks: Vec<Vec<*const BlockD>>,
  pub insts: Vec<Vec<Vec<*const ValD>>>,
  pub tys: HashMap<*const TyD, Ty>,
}

#[derive(Default)]
struct Reader {
  tys: HashMap<*const TyD, Ty>,
  globals: HashMap<*const ValD, usize>,
  funcs: HashMap<*const FuncD, usize>,
  blocks: HashMap<*const BlockD, (usize, usize)>,
  defs: HashMap<*const ValD, (usize, Op)>,
  consts: HashMap<*const ValD, Const>,
  uses: HashMap<*const ValD, HashSet<*const ValD>>,
  bb_uses: HashMap<*const BlockD, HashSet<*const ValD>>,
}

fn items<T>(s: &Slice, kind: u32) -> Result<Vec<*const T>, String> {
  ck!(s.kind == kind, "slice of {} items has kind {}, not {kind}", s.len, s.kind);
  ck!(s.len < 10_000_000, "slice of {} items", s.len);
  let mut v = vec![];
  for i in 0..s.len as usize {
    ck!(!s.buf.is_null(), "slice without a buffer");
    let p = unsafe { *s.buf.add(i) };
    ck!(!p.is_null(), "null item in a slice");
    v.push(p as *const T);
  }
  Ok(v)
}

fn name(p: *const c_char) -> Result<Option<String>, String> {
  if p.is_null() {
    return Ok(None);
  }
  let s = unsafe { CStr::from_ptr(p) };
  Ok(Some(s.to_str().map_err(|_| "a name is not UTF-8")?.into()))
}

impl Reader {
  fn ty(&mut self, p: *const TyD) -> Result<Ty, String> {
    ck!(!p.is_null(), "null type");
    if let Some(t) = self.tys.get(&p) {
      return Ok(t.clone());
    }
    let d = unsafe { &*p };
    let t = unsafe {
      match d.tag {
        0 => Ty::I32,
        1 => Ty::Unit,
        2 => Ty::arr(self.ty(d.u.arr.base)?, d.u.arr.len),
        3 => Ty::ptr(self.ty(d.u.ptr)?),
        4 => {
          let mut ps = vec![];
          for q in items(&d.u.fun.params, TYPE)? {
            ps.push(self.ty(q)?);
          }
          Ty::fun(ps, self.ty(d.u.fun.ret)?)
        }
        n => return Err(format!("type tag {n}")),
      }
    };
    self.tys.insert(p, t.clone());
    Ok(t)
  }

  fn use_(&mut self, v: *const ValD, by: *const ValD) {
    self.uses.entry(v).or_default().insert(by);
  }

  fn konst(&mut self, p: *const ValD) -> Result<Const, String> {
    ck!(!p.is_null(), "null value");
    if let Some(c) = self.consts.get(&p) {
      return Ok(c.clone());
    }
    let d = unsafe { &*p };
    let t = self.ty(d.ty)?;
    let c = match d.tag {
      0 => {
        ck!(t == Ty::I32, "integer of type {}", t.show());
        Const::Int(unsafe { d.u.int })
      }
      1 => Const::Zero(t),
      2 => Const::Undef(t),
      3 => {
        let mut es = vec![];
        for e in items::<ValD>(unsafe { &d.u.agg }, VALUE)? {
          es.push(self.konst(e)?);
          self.use_(e, p);
        }
        Const::Agg(es, t)
      }
      n => return Err(format!("expected a constant, found tag {n}")),
    };
    self.consts.insert(p, c.clone());
    Ok(c)
  }

  fn op(&mut self, f: usize, p: *const ValD, by: *const ValD) -> Result<Op, String> {
    ck!(!p.is_null(), "null operand");
    self.use_(p, by);
    if let Some((g, o)) = self.defs.get(&p) {
      ck!(*g == f, "operand is defined in another function");
      return Ok(o.clone());
    }
    if let Some(g) = self.globals.get(&p) {
      return Ok(Op::Global(*g));
    }
    self.konst(p).map(Op::Const)
  }

  fn ops(&mut self, f: usize, s: &Slice, by: *const ValD) -> Result<Vec<Op>, String> {
    items::<ValD>(s, VALUE)?.into_iter().map(|p| self.op(f, p, by)).collect()
  }

  fn edge(&mut self, f: usize, b: *const BlockD, a: &Slice, by: *const ValD) -> Result<Edge, String> {
    let to = match self.blocks.get(&b) {
      Some((g, i)) if *g == f => *i,
      Some(_) => return Err("target is in another function".into()),
      None => return Err("target is not a block of the program".into()),
    };
    self.bb_uses.entry(b).or_default().insert(by);
    Ok(Edge { to, args: self.ops(f, a, by)? })
  }

  fn inst(&mut self, f: usize, p: *const ValD) -> Result<Inst, String> {
    let d = unsafe { &*p };
    let ty = self.ty(d.ty)?;
    let two = |r: &mut Self| -> Result<(Op, Op), String> {
      let [a, b] = unsafe { d.u.two };
      Ok((r.op(f, a, p)?, r.op(f, b, p)?))
    };
    let kind = unsafe {
      match d.tag {
        6 => match &ty {
          Ty::Ptr(b) => Kind::Alloc((**b).clone()),
          t => return Err(format!("alloc of type {}", t.show())),
        },
        8 => Kind::Load(self.op(f, d.u.one, p)?),
        9 => {
          let (a, b) = two(self)?;
          Kind::Store(a, b)
        }
        10 => {
          let (a, b) = two(self)?;
          Kind::GetPtr(a, b)
        }
        11 => {
          let (a, b) = two(self)?;
          Kind::GetElemPtr(a, b)
        }
        12 => {
          let op = *OPS.get(d.u.bin.op as usize).ok_or("operator tag out of range")?;
          Kind::Bin(op, self.op(f, d.u.bin.l, p)?, self.op(f, d.u.bin.r, p)?)
        }
        13 => {
          let br = d.u.br;
          let c = self.op(f, br.cond, p)?;
          Kind::Br(c, self.edge(f, br.t, &br.ta, p)?, self.edge(f, br.f, &br.fa, p)?)
        }
        14 => Kind::Jump(self.edge(f, d.u.jump.to, &d.u.jump.args, p)?),
        15 => {
          let c = *self.funcs.get(&d.u.call.callee).ok_or("callee is not in the program")?;
          Kind::Call(c, self.ops(f, &d.u.call.args, p)?)
        }
        16 => Kind::Ret(if d.u.one.is_null() { None } else { Some(self.op(f, d.u.one, p)?) }),
        n => return Err(format!("tag {n} among the instructions")),
      }
    };
    Ok(Inst { name: name(d.name)?, ty, kind })
  }
}

/// Reads a raw program, checking its pointers, kinds and user lists.
pub fn read(raw: &Prog) -> Result<View, String> {
  let mut r = Reader::default();
  let mut v = View {
    spec: Spec::default(),
    globals: items(&raw.values, VALUE)?,
    funcs: items(&raw.funcs, FUNCTION)?,
    blocks: vec![],
    insts: vec![],
    tys: HashMap::new(),
  };
  for (i, g) in v.globals.iter().enumerate() {
    ck!(r.globals.insert(*g, i).is_none(), "global twice");
  }
  for (i, f) in v.funcs.iter().enumerate() {
    ck!(r.funcs.insert(*f, i).is_none(), "function twice");
  }
  for g in &v.globals {
    let d = unsafe { &**g };
    ck!(d.tag == 7, "global value has tag {}", d.tag);
    let i = unsafe { d.u.one };
    let init = r.konst(i)?;
    r.use_(i, *g);
    let t = r.ty(d.ty)?;
    ck!(t == Ty::ptr(init.ty()), "global of {} has type {}", init.ty().show(), t.show());
    v.spec.globals.push(Global { name: name(d.name)?, init });
  }
  for (fi, f) in v.funcs.iter().enumerate() {
    let d = unsafe { &**f };
    let Ty::Fun(ptys, ret) = r.ty(d.ty)? else { return Err("function type".into()) };
    let bbs = items::<BlockD>(&d.bbs, BLOCK)?;
    let ps = items::<ValD>(&d.params, VALUE)?;
    let mut out = Func {
      name: name(d.name)?.ok_or("function without a name")?,
      params: vec![],
      ret: (*ret).clone(),
      blocks: vec![],
    };
    ck!(ps.len() == ptys.len() || (bbs.is_empty() && ps.is_empty()), "{} parameters", ps.len());
    if ps.is_empty() {
      out.params = ptys.iter().map(|t| (None, t.clone())).collect();
    }
    for (i, p) in ps.iter().enumerate() {
      let pd = unsafe { &**p };
      ck!(pd.tag == 4, "parameter has tag {}", pd.tag);
      ck!(unsafe { pd.u.index } == i, "parameter {i} has index {}", unsafe { pd.u.index });
      let t = r.ty(pd.ty)?;
      ck!(t == ptys[i], "parameter {i} has type {}", t.show());
      out.params.push((name(pd.name)?, t));
      ck!(r.defs.insert(*p, (fi, Op::Arg(i))).is_none(), "parameter twice");
    }
    let mut insts = vec![];
    for (bi, b) in bbs.iter().enumerate() {
      ck!(r.blocks.insert(*b, (fi, bi)).is_none(), "block twice");
      let bd = unsafe { &**b };
      let mut ob = Block { name: name(bd.name)?, params: vec![], insts: vec![] };
      for (i, p) in items::<ValD>(&bd.params, VALUE)?.iter().enumerate() {
        let pd = unsafe { &**p };
        ck!(pd.tag == 5, "block parameter has tag {}", pd.tag);
        ck!(unsafe { pd.u.index } == i, "block parameter {i} has index {}", unsafe { pd.u.index });
        ob.params.push((name(pd.name)?, r.ty(pd.ty)?));
        ck!(r.defs.insert(*p, (fi, Op::Param(bi, i))).is_none(), "block parameter twice");
      }
      let is = items::<ValD>(&bd.insts, VALUE)?;
      for (i, p) in is.iter().enumerate() {
        ck!(r.defs.insert(*p, (fi, Op::Inst(bi, i))).is_none(), "instruction twice");
      }
      insts.push(is);
      out.blocks.push(ob);
    }
    v.blocks.push(bbs);
    v.insts.push(insts);
    v.spec.funcs.push(out);
  }
  for fi in 0..v.funcs.len() {
    for bi in 0..v.blocks[fi].len() {
      for p in &v.insts[fi][bi] {
        let i = r.inst(fi, *p).map_err(|e| format!("{}: {e}", v.spec.funcs[fi].name))?;
        v.spec.funcs[fi].blocks[bi].insts.push(i);
      }
    }
  }
  v.tys = std::mem::take(&mut r.tys);
  // users
  let none = HashSet::new();
  let all: Vec<*const ValD> =
    r.globals.keys().chain(r.defs.keys()).chain(r.consts.keys()).copied().collect();
  for p in all {
    let d = unsafe { &*p };
    users(&d.used_by, r.uses.get(&p).unwrap_or(&none))
      .map_err(|e| format!("users of a value with tag {}: {e}", d.tag))?;
  }
  for p in r.blocks.keys() {
    users(&unsafe { &**p }.used_by, r.bb_uses.get(p).unwrap_or(&none))
      .map_err(|e| format!("users of a block: {e}"))?;
  }
  Ok(v)
}

fn users(s: &Slice, want: &HashSet<*const ValD>) -> Result<(), String> {
  let got = items::<ValD>(s, VALUE)?;
  let set: HashSet<_> = got.iter().copied().collect();
  ck!(set.len() == got.len(), "{} users, {} different", got.len(), set.len());
  ck!(set == *want, "{} users listed, {} values use it", set.len(), want.len());
  Ok(())
}

/// Checks that each entity of `p` is one raw item and each raw item one
/// entity.  `seen` spans all programs built by one builder.
#[derive(Default)]
pub struct Ident {
  vals: HashMap<Value, *const ValD>,
  rvals: HashMap<*const ValD, Value>,
  bbs: HashMap<BasicBlock, *const BlockD>,
  rbbs: HashMap<*const BlockD, BasicBlock>,
  funcs: HashMap<Function, *const FuncD>,
  rfuncs: HashMap<*const FuncD, Function>,
}

impl Ident {
  fn val(&mut self, p: &Program, f: Option<Function>, v: Value, r: *const ValD) -> Result<(), String> {
    let old = self.vals.insert(v, r);
    let rold = self.rvals.insert(r, v);
    ck!(old.is_none_or(|x| x == r), "one value is two raw values");
    ck!(rold.is_none_or(|x| x == v), "two values are one raw value");
    if old.is_some() {
      return Ok(());
    }
    let kind = match f {
      Some(f) if !v.is_global() => p.func(f).dfg().value(v).kind().clone(),
      _ => p.borrow_value(v).kind().clone(),
    };
    let d = unsafe { &*r };
    let ops: Vec<*const ValD> = unsafe {
      match d.tag {
        3 => items(&d.u.agg, VALUE)?,
        7 | 8 => vec![d.u.one],
        9..=11 => d.u.two.to_vec(),
        12 => vec![d.u.bin.l, d.u.bin.r],
        13 => {
          let mut v = vec![d.u.br.cond];
          v.extend(items::<ValD>(&d.u.br.ta, VALUE)?);
          v.extend(items::<ValD>(&d.u.br.fa, VALUE)?);
          v
        }
        14 => items(&d.u.jump.args, VALUE)?,
        15 => items(&d.u.call.args, VALUE)?,
        16 if !d.u.one.is_null() => vec![d.u.one],
        _ => vec![],
      }
    };
    let want: Vec<Value> = match &kind {
      ValueKind::Aggregate(a) => a.elems().to_vec(),
      ValueKind::GlobalAlloc(g) => vec![g.init()],
      ValueKind::Load(l) => vec![l.src()],
      ValueKind::Store(s) => vec![s.value(), s.dest()],
      ValueKind::GetPtr(g) => vec![g.src(), g.index()],
      ValueKind::GetElemPtr(g) => vec![g.src(), g.index()],
      ValueKind::Binary(b) => vec![b.lhs(), b.rhs()],
      ValueKind::Branch(b) => {
        let mut v = vec![b.cond()];
        v.extend(b.true_args());
        v.extend(b.false_args());
        v
      }
      ValueKind::Jump(j) => j.args().to_vec(),
      ValueKind::Call(c) => c.args().to_vec(),
      ValueKind::Return(r) => r.value().into_iter().collect(),
      _ => vec![],
    };
    ck!(ops.len() == want.len(), "{} operands for {}", ops.len(), want.len());
    for (o, w) in ops.into_iter().zip(want) {
      self.val(p, f, w, o)?;
    }
    let (bs, rbs): (Vec<BasicBlock>, Vec<*const BlockD>) = unsafe {
      match &kind {
        ValueKind::Branch(b) => (vec![b.true_bb(), b.false_bb()], vec![d.u.br.t, d.u.br.f]),
        ValueKind::Jump(j) => (vec![j.target()], vec![d.u.jump.to]),
        _ => (vec![], vec![]),
      }
    };
    for (b, r) in bs.into_iter().zip(rbs) {
      self.bb(b, r)?;
    }
    if let ValueKind::Call(c) = &kind {
      self.func(c.callee(), unsafe { d.u.call.callee })?;
    }
    Ok(())
  }

  fn bb(&mut self, b: BasicBlock, r: *const BlockD) -> Result<(), String> {
    ck!(self.bbs.insert(b, r).is_none_or(|x| x == r), "one block is two raw blocks");
    ck!(self.rbbs.insert(r, b).is_none_or(|x| x == b), "two blocks are one raw block");
    Ok(())
  }

  fn func(&mut self, f: Function, r: *const FuncD) -> Result<(), String> {
    ck!(self.funcs.insert(f, r).is_none_or(|x| x == r), "one function is two raw functions");
    ck!(self.rfuncs.insert(r, f).is_none_or(|x| x == f), "two functions are one raw function");
    Ok(())
  }

  /// Walks a program along its raw form, which `read` has accepted.
  pub fn walk(&mut self, p: &Program, v: &View) -> Result<(), String> {
    ck!(p.inst_layout().len() == v.globals.len(), "number of globals");
    ck!(p.func_layout().len() == v.funcs.len(), "number of functions");
    for (g, r) in p.inst_layout().iter().zip(&v.globals) {
      self.val(p, None, *g, *r)?;
    }
    for (fi, (f, r)) in p.func_layout().iter().zip(&v.funcs).enumerate() {
      self.func(*f, *r)?;
      let fd = p.func(*f);
      let ps = items::<ValD>(&unsafe { &**r }.params, VALUE)?;
      ck!(ps.len() == fd.params().len(), "number of parameters");
      for (a, b) in fd.params().iter().zip(ps) {
        self.val(p, Some(*f), *a, b)?;
      }
      ck!(fd.layout().bbs().len() == v.blocks[fi].len(), "number of blocks");
      for (bi, (bb, node)) in fd.layout().bbs().iter().enumerate() {
        let rb = v.blocks[fi][bi];
        self.bb(*bb, rb)?;
        let ps = items::<ValD>(&unsafe { &*rb }.params, VALUE)?;
        ck!(ps.len() == fd.dfg().bb(*bb).params().len(), "number of block parameters");
        for (a, b) in fd.dfg().bb(*bb).params().iter().zip(ps) {
          self.val(p, Some(*f), *a, b)?;
        }
        ck!(node.insts().len() == v.insts[fi][bi].len(), "number of instructions");
        for (a, b) in node.insts().keys().zip(&v.insts[fi][bi]) {
          self.val(p, Some(*f), *a, *b)?;
        }
      }
    }
    Ok(())
  }
}

/// Owner of a raw program built by hand.
#[derive(Default)]
pub struct Arena {
  pub tys: Vec<*mut TyD>,
  pub vals: Vec<*mut ValD>,
  pub blocks: Vec<*mut BlockD>,
  pub funcs: Vec<*mut FuncD>,
  bufs: Vec<Vec<*const c_void>>,
  strs: Vec<CString>,
  ty_map: HashMap<Ty, *const TyD>,
}

impl Drop for Arena {
  fn drop(&mut self) {
    unsafe {
      self.tys.iter().for_each(|p| drop(Box::from_raw(*p)));
      self.vals.iter().for_each(|p| drop(Box::from_raw(*p)));
      self.blocks.iter().for_each(|p| drop(Box::from_raw(*p)));
      self.funcs.iter().for_each(|p| drop(Box::from_raw(*p)));
    }
  }
}

/// How a raw program is built by hand.
#[derive(Clone, Copy, Debug)]
pub struct Style {
  /// Equal types are one raw type.
  pub share_tys: bool,
  /// 0: a constant per use; 1: shared in a function; 2: shared in the program
  /// (including the initializers of globals).
  pub share_consts: usize,
  /// What unused fields hold: users are left out.
  pub users_kind: u32,
  /// Declarations list their parameters as values, too.
  pub decl_params: bool,
}

pub fn style(t: &mut Tape) -> Style {
  Style {
    share_tys: !t.chance(50),
    share_consts: t.below(3),
    users_kind: *t.pick(&[VALUE, UNKNOWN]),
    decl_params: t.chance(50),
  }
}

impl Arena {
  pub fn slice<T>(&mut self, v: Vec<*const T>, kind: u32) -> Slice {
    let v: Vec<*const c_void> = v.into_iter().map(|p| p as *const c_void).collect();
    let s = Slice {
      buf: if v.is_empty() { null() } else { v.as_ptr() },
      len: v.len() as u32,
      kind,
    };
    self.bufs.push(v);
    s
  }
  pub fn bytes(&mut self, b: &[u8]) -> *const c_char {
    let s = CString::new(b).unwrap();
    let p = s.as_ptr();
    self.strs.push(s);
    p
  }
  fn name(&mut self, n: &Option<String>) -> *const c_char {
    match n {
      Some(s) => self.bytes(s.as_bytes()),
      None => null(),
    }
  }
  pub fn ty(&mut self, t: &Ty, st: Style) -> *const TyD {
    if st.share_tys {
      if let Some(p) = self.ty_map.get(t) {
        return *p;
      }
    }
    let (tag, u) = match t {
      Ty::I32 => (0, TyU { ptr: null() }),
      Ty::Unit => (1, TyU { ptr: null() }),
      Ty::Arr(b, n) => (2, TyU { arr: TArr { base: self.ty(b, st), len: *n } }),
      Ty::Ptr(b) => (3, TyU { ptr: self.ty(b, st) }),
      Ty::Fun(ps, r) => {
        let v = ps.iter().map(|p| self.ty(p, st)).collect();
        (4, TyU { fun: TFun { params: self.slice(v, TYPE), ret: self.ty(r, st) } })
      }
    };
    let p = Box::into_raw(Box::new(TyD { tag, u }));
    self.tys.push(p);
    self.ty_map.insert(t.clone(), p);
    p
  }
  fn val(&mut self, t: &Ty, n: &Option<String>, tag: u32, u: ValU, st: Style) -> *mut ValD {
    let d = ValD {
      ty: self.ty(t, st),
      name: self.name(n),
      used_by: Slice { buf: null(), len: 0, kind: st.users_kind },
      tag,
      u,
    };
    let p = Box::into_raw(Box::new(d));
    self.vals.push(p);
    p
  }
  fn konst(&mut self, c: &Const, st: Style, map: &mut HashMap<Const, *const ValD>) -> *const ValD {
    if st.share_consts > 0 {
      if let Some(p) = map.get(c) {
        return *p;
      }
    }
    let (tag, u) = match c {
      Const::Int(i) => (0, ValU { int: *i }),
      Const::Zero(_) => (1, ValU { one: null() }),
      Const::Undef(_) => (2, ValU { one: null() }),
      Const::Agg(es, _) => {
        let v = es.iter().map(|e| self.konst(e, st, map)).collect();
        (3, ValU { agg: self.slice(v, VALUE) })
      }
    };
    let p = self.val(&c.ty(), &None, tag, u, st) as *const ValD;
    map.insert(c.clone(), p);
    p
  }

  /// Builds a raw program by hand.
  pub fn write(&mut self, s: &Spec, st: Style) -> Prog {
    let none = Slice { buf: null(), len: 0, kind: UNKNOWN };
    let mut consts: HashMap<Const, *const ValD> = HashMap::new();
    let mut globals = vec![];
    for g in &s.globals {
      let i = self.konst(&g.init, st, &mut consts);
      globals.push(
        self.val(&Ty::ptr(g.init.ty()), &g.name, 7, ValU { one: i }, st) as *const ValD
      );
    }
    let base = self.funcs.len();
    for f in &s.funcs {
      let name = self.bytes(f.name.as_bytes());
      let ty = self.ty(&f.ty(), st);
      self.funcs.push(Box::into_raw(Box::new(FuncD { ty, name, params: none, bbs: none })));
    }
    for (fi, f) in s.funcs.iter().enumerate() {
      if st.share_consts < 2 {
        consts.clear();
      }
      let mut params = vec![];
      for (i, (n, t)) in f.params.iter().enumerate() {
        if f.is_decl() && !st.decl_params {
          break;
        }
        params.push(self.val(t, n, 4, ValU { index: i }, st) as *const ValD);
      }
      let bbs: Vec<*mut BlockD> = f
        .blocks
        .iter()
        .map(|b| {
          let name = self.name(&b.name);
          let used_by = Slice { buf: null(), len: 0, kind: st.users_kind };
          let d = BlockD { name, params: none, used_by, insts: none };
          let p = Box::into_raw(Box::new(d));
          self.blocks.push(p);
          p
        })
        .collect();
      let mut bparams: Vec<Vec<*const ValD>> = vec![];
      let mut insts: Vec<Vec<*mut ValD>> = vec![];
      for b in &f.blocks {
        let mut v = vec![];
        for (i, (n, t)) in b.params.iter().enumerate() {
          v.push(self.val(t, n, 5, ValU { index: i }, st) as *const ValD);
        }
        bparams.push(v);
        let mut v = vec![];
        for i in &b.insts {
          // operands are filled in below
          let d = ValU { br: VBr { cond: null(), t: null(), f: null(), ta: none, fa: none } };
          v.push(self.val(&i.ty, &i.name, 0, d, st));
        }
        insts.push(v);
      }
      for (bi, b) in f.blocks.iter().enumerate() {
        for (ii, i) in b.insts.iter().enumerate() {
          let mut vs = vec![];
          for o in i.kind.ops() {
            vs.push(match o {
              Op::Const(c) => self.konst(c, st, &mut consts),
              Op::Global(g) => globals[*g],
              Op::Arg(a) => params[*a],
              Op::Param(b, a) => bparams[*b][*a],
              Op::Inst(b, a) => insts[*b][*a] as *const ValD,
            });
          }
          let (tag, u) = match &i.kind {
            Kind::Alloc(_) => (6, ValU { one: null() }),
            Kind::Load(_) => (8, ValU { one: vs[0] }),
            Kind::Store(..) => (9, ValU { two: [vs[0], vs[1]] }),
            Kind::GetPtr(..) => (10, ValU { two: [vs[0], vs[1]] }),
            Kind::GetElemPtr(..) => (11, ValU { two: [vs[0], vs[1]] }),
            Kind::Bin(op, ..) => {
              let op = OPS.iter().position(|o| o == op).unwrap() as u32;
              (12, ValU { bin: VBin { op, l: vs[0], r: vs[1] } })
            }
            Kind::Br(_, x, y) => {
              let ta = self.slice(vs[1..1 + x.args.len()].to_vec(), VALUE);
              let fa = self.slice(vs[1 + x.args.len()..].to_vec(), VALUE);
              (13, ValU { br: VBr { cond: vs[0], t: bbs[x.to], f: bbs[y.to], ta, fa } })
            }
            Kind::Jump(e) => (14, ValU { jump: VJump { to: bbs[e.to], args: self.slice(vs, VALUE) } }),
            Kind::Call(c, _) => {
              let callee = self.funcs[base + *c];
              (15, ValU { call: VCall { callee, args: self.slice(vs, VALUE) } })
            }
            Kind::Ret(_) => (16, ValU { one: vs.first().copied().unwrap_or(null()) }),
          };
          unsafe {
            (*insts[bi][ii]).tag = tag;
            (*insts[bi][ii]).u = u;
          }
        }
      }
      for (bi, b) in bbs.iter().enumerate() {
        let ps = self.slice(bparams[bi].clone(), VALUE);
        let is = self.slice(insts[bi].iter().map(|p| *p as *const ValD).collect(), VALUE);
        unsafe {
          (**b).params = ps;
          (**b).insts = is;
        }
      }
      let ps = self.slice(params, VALUE);
      let bs = self.slice(bbs.iter().map(|p| *p as *const BlockD).collect(), BLOCK);
      unsafe {
        (*self.funcs[base + fi]).params = ps;
        (*self.funcs[base + fi]).bbs = bs;
      }
    }
    let values = self.slice(globals, VALUE);
    let fs = self.funcs[base..].iter().map(|p| *p as *const FuncD).collect();
    let funcs = self.slice(fs, FUNCTION);
    Prog { values, funcs }
  }
}
