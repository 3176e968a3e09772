//! Interpreters of `Spec` programs and of LLVM modules over one memory model.

use crate::llvm::*;
use crate::spec::*;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub enum V {
  Int(i64),
  Null,
  /// Object and cell offset.
  Ptr(usize, i64),
  Arr(Vec<V>),
  Undef,
}

/// Why an execution stopped early.
#[derive(Clone, PartialEq, Debug)]
pub enum Stop {
  /// The meaning is undefined from here on.
  Undefined(&'static str),
  Fuel,
  /// The machine itself was used wrongly.
  Broken(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Event {
  pub func: usize,
  pub args: Vec<V>,
  /// What the pointer arguments point at.
  pub seen: Vec<Vec<V>>,
}

/// The shape of a type, common to both languages.
#[derive(Clone, PartialEq, Debug)]
pub enum Sh {
  Int,
  /// The pointee, if it has a size.
  Ptr(Option<Box<Sh>>),
  Arr(usize, Box<Sh>),
  None,
}

impl Sh {
  pub fn of(t: &Ty) -> Sh {
    match t {
      Ty::I32 => Sh::Int,
      Ty::Unit => Sh::None,
      Ty::Arr(b, n) => Sh::Arr(*n, Box::new(Sh::of(b))),
      Ty::Ptr(b) => Sh::Ptr(Some(Box::new(Sh::of(b)))),
      Ty::Fun(..) => Sh::Ptr(None),
    }
  }
  pub fn ofl(t: &LTy) -> Sh {
    match t {
      LTy::Int(_) => Sh::Int,
      LTy::Void | LTy::Label => Sh::None,
      LTy::Arr(n, b) => Sh::Arr(*n, Box::new(Sh::ofl(b))),
      LTy::Ptr(b) => match &**b {
        LTy::Fun(..) => Sh::Ptr(None),
        b => Sh::Ptr(Some(Box::new(Sh::ofl(b)))),
      },
      LTy::Fun(..) => Sh::None,
    }
  }
  pub fn cells(&self) -> usize {
    match self {
      Sh::Int | Sh::Ptr(_) => 1,
      Sh::Arr(n, b) => b.cells().saturating_mul(*n),
      Sh::None => 0,
    }
  }
  fn zero(&self) -> V {
    match self {
      Sh::Int => V::Int(0),
      Sh::Ptr(_) => V::Null,
      Sh::Arr(n, b) => V::Arr(vec![b.zero(); *n]),
      Sh::None => V::Undef,
    }
  }
}

fn flatten(v: &V, s: &Sh, out: &mut Vec<V>) {
  match (v, s) {
    (V::Arr(es), Sh::Arr(_, b)) => es.iter().for_each(|e| flatten(e, b, out)),
    (V::Undef, s) => out.extend(std::iter::repeat_n(V::Undef, s.cells())),
    (v, _) => out.push(v.clone()),
  }
}

fn unflatten(c: &mut &[V], s: &Sh) -> V {
  match s {
    Sh::Arr(n, b) => V::Arr((0..*n).map(|_| unflatten(c, b)).collect()),
    _ => {
      let v = c[0].clone();
      *c = &c[1..];
      v
    }
  }
}

/// Memory, the outside world, and what was observed.
pub struct World {
  pub mem: Vec<Vec<V>>,
  pub events: Vec<Event>,
  pub fuel: usize,
  depth: usize,
  seed: u64,
}

impl World {
  pub fn new(seed: u64, fuel: usize) -> World {
    World { mem: vec![], events: vec![], fuel, depth: 0, seed }
  }
  fn alloc(&mut self, s: &Sh) -> Result<V, Stop> {
    if self.mem.len() > 600 {
      return Err(Stop::Fuel);
    }
    self.mem.push(vec![V::Undef; s.cells()]);
    Ok(V::Ptr(self.mem.len() - 1, 0))
  }
  fn burn(&mut self) -> Result<(), Stop> {
    if self.fuel == 0 {
      return Err(Stop::Fuel);
    }
    self.fuel -= 1;
    Ok(())
  }
  fn load(&self, p: &V, s: &Sh) -> Result<V, Stop> {
    let V::Ptr(o, i) = p else { return Err(Stop::Undefined("load from nowhere")) };
    let (m, n) = (&self.mem[*o], s.cells());
    if *i < 0 || *i as usize + n > m.len() {
      return Err(Stop::Undefined("load out of bounds"));
    }
    let mut c = &m[*i as usize..*i as usize + n];
    Ok(unflatten(&mut c, s))
  }
  fn store(&mut self, p: &V, v: &V, s: &Sh) -> Result<(), Stop> {
    let V::Ptr(o, i) = p else { return Err(Stop::Undefined("store to nowhere")) };
    let mut c = vec![];
    flatten(v, s, &mut c);
    let m = &mut self.mem[*o];
    if *i < 0 || *i as usize + c.len() > m.len() {
      return Err(Stop::Undefined("store out of bounds"));
    }
    m[*i as usize..*i as usize + c.len()].clone_from_slice(&c);
    Ok(())
  }
  fn offset(&self, p: &V, idx: i64, size: usize) -> Result<V, Stop> {
    match p {
      V::Null if idx == 0 => Ok(V::Null),
      V::Ptr(o, i) => {
        let j = i + idx.saturating_mul(size as i64);
        if j < 0 || j as usize > self.mem[*o].len() {
          return Err(Stop::Undefined("address out of bounds"));
        }
        Ok(V::Ptr(*o, j))
      }
      _ => Err(Stop::Undefined("offset from nowhere")),
    }
  }
  fn rnd(&mut self) -> u64 {
    self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    self.seed >> 33
  }
  /// A value from outside.
  pub fn fresh(&mut self, s: &Sh, depth: usize) -> V {
    match s {
      Sh::Int => {
        let r = self.rnd();
        V::Int(match r % 8 {
          0 => 0,
          1 => 1,
          2 => -1,
          3 => i32::MIN as i64,
          4 => (r >> 3) as i32 as i64,
          _ => (r >> 3) as i64 % 5,
        })
      }
      Sh::Ptr(Some(b)) if depth > 0 && b.cells() < 2000 => {
        let mut c = vec![];
        for _ in 0..3 {
          let v = self.fresh(b, depth - 1);
          flatten(&v, b, &mut c);
        }
        self.mem.push(c);
        V::Ptr(self.mem.len() - 1, 0)
      }
      Sh::Ptr(_) => V::Null,
      Sh::Arr(n, b) => V::Arr((0..*n).map(|_| self.fresh(b, depth)).collect()),
      Sh::None => V::Undef,
    }
  }
  fn observe(&mut self, func: usize, args: &[V]) {
    let seen = args
      .iter()
      .map(|a| match a {
        V::Ptr(o, i) => self.mem[*o].iter().skip(*i as usize).take(8).cloned().collect(),
        _ => vec![],
      })
      .collect();
    self.events.push(Event { func, args: args.to_vec(), seen });
  }
  fn enter(&mut self) -> Result<(), Stop> {
    self.burn()?;
    self.depth += 1;
    if self.depth > 40 { Err(Stop::Fuel) } else { Ok(()) }
  }
}

fn int(v: &V) -> Result<i32, Stop> {
  match v {
    V::Int(i) => Ok(*i as i32),
    V::Undef => Err(Stop::Undefined("use of an undefined value")),
    v => Err(Stop::Broken(format!("{v:?} is not an integer"))),
  }
}

// ---- Koopa -----------------------------------------------------------------

pub fn konst(c: &Const) -> V {
  match c {
    Const::Int(i) => V::Int(*i as i64),
    Const::Zero(t) => Sh::of(t).zero(),
    Const::Undef(t) => undef(&Sh::of(t)),
    Const::Agg(es, _) => V::Arr(es.iter().map(konst).collect()),
  }
}

fn undef(s: &Sh) -> V {
  match s {
    Sh::Arr(n, b) => V::Arr(vec![undef(b); *n]),
    _ => V::Undef,
  }
}

/// Puts the globals into memory: object `i` is global `i`.
pub fn init_spec(s: &Spec, w: &mut World) {
  for g in &s.globals {
    let mut c = vec![];
    flatten(&konst(&g.init), &Sh::of(&g.init.ty()), &mut c);
    w.mem.push(c);
  }
}

pub fn call_spec(s: &Spec, w: &mut World, fi: usize, args: Vec<V>) -> Result<V, Stop> {
  let f = &s.funcs[fi];
  w.observe(fi, &args);
  w.enter()?;
  if f.is_decl() {
    let r = w.fresh(&Sh::of(&f.ret), 2);
    w.depth -= 1;
    return Ok(r);
  }
  let mut params: Vec<Vec<V>> = f.blocks.iter().map(|b| vec![V::Undef; b.params.len()]).collect();
  let mut vals: Vec<Vec<V>> = f.blocks.iter().map(|b| vec![V::Undef; b.insts.len()]).collect();
  let mut b = 0;
  loop {
    w.burn()?;
    let mut go: Option<&Edge> = None;
    for (ii, inst) in f.blocks[b].insts.iter().enumerate() {
      let op = |o: &Op| match o {
        Op::Const(c) => konst(c),
        Op::Global(g) => V::Ptr(*g, 0),
        Op::Arg(i) => args[*i].clone(),
        Op::Param(b, i) => params[*b][*i].clone(),
        Op::Inst(b, i) => vals[*b][*i].clone(),
      };
      let r = match &inst.kind {
        Kind::Alloc(t) => w.alloc(&Sh::of(t))?,
        Kind::Load(p) => w.load(&op(p), &Sh::of(&inst.ty))?,
        Kind::Store(v, p) => {
          let t = f.op_ty(s, v);
          w.store(&op(p), &op(v), &Sh::of(&t))?;
          V::Undef
        }
        Kind::GetPtr(p, i) => {
          let t = f.op_ty(s, p);
          w.offset(&op(p), int(&op(i))? as i64, t.pointee().unwrap().cells())?
        }
        Kind::GetElemPtr(p, i) => {
          w.offset(&op(p), int(&op(i))? as i64, inst.ty.pointee().unwrap().cells())?
        }
        Kind::Bin(o, x, y) => {
          let (x, y) = (int(&op(x))?, int(&op(y))?);
          let shift = || {
            if (0..32).contains(&y) { Ok(y as u32) } else { Err(Stop::Undefined("shift amount")) }
          };
          let div = || {
            if y == 0 || (x == i32::MIN && y == -1) {
              Err(Stop::Undefined("division"))
            } else {
              Ok(())
            }
          };
          V::Int(match o {
            Bin::Ne => (x != y) as i32,
            Bin::Eq => (x == y) as i32,
            Bin::Gt => (x > y) as i32,
            Bin::Lt => (x < y) as i32,
            Bin::Ge => (x >= y) as i32,
            Bin::Le => (x <= y) as i32,
            Bin::Add => x.wrapping_add(y),
            Bin::Sub => x.wrapping_sub(y),
            Bin::Mul => x.wrapping_mul(y),
            Bin::Div => {
              div()?;
              x / y
            }
            Bin::Mod => {
              div()?;
              x % y
            }
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            Bin::Shl => x << shift()?,
            Bin::Shr => ((x as u32) >> shift()?) as i32,
            Bin::Sar => x >> shift()?,
          } as i64)
        }
        Kind::Call(c, a) => {
          let a = a.iter().map(op).collect();
          call_spec(s, w, *c, a)?
        }
        Kind::Br(c, x, y) => {
          go = Some(if int(&op(c))? != 0 { x } else { y });
          V::Undef
        }
        Kind::Jump(e) => {
          go = Some(e);
          V::Undef
        }
        Kind::Ret(v) => {
          let r = v.as_ref().map_or(V::Undef, op);
          w.depth -= 1;
          return Ok(r);
        }
      };
      if let Some(e) = go {
        let a: Vec<V> = e.args.iter().map(op).collect();
        params[e.to] = a;
        b = e.to;
        break;
      }
      vals[b][ii] = r;
    }
  }
}

// ---- LLVM ------------------------------------------------------------------

pub struct Lm<'a> {
  pub m: &'a Module,
  globals: HashMap<&'a str, usize>,
  funcs: HashMap<&'a str, usize>,
}

impl<'a> Lm<'a> {
  pub fn new(m: &'a Module) -> Lm<'a> {
    let ix = |v: Vec<&'a String>| v.into_iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect();
    Lm {
      m,
      globals: ix(m.globals.iter().map(|g| &g.name).collect()),
      funcs: ix(m.funcs.iter().map(|f| &f.name).collect()),
    }
  }
  fn val(&self, t: &LTy, v: &LVal, env: &HashMap<&str, V>) -> Result<V, Stop> {
    Ok(match v {
      LVal::Int(i) => V::Int(*i),
      LVal::Zero => Sh::ofl(t).zero(),
      LVal::Undef => undef(&Sh::ofl(t)),
      LVal::Agg(es) => {
        V::Arr(es.iter().map(|(t, e)| self.val(t, e, env)).collect::<Result<_, _>>()?)
      }
      LVal::Global(n) => match self.globals.get(n.as_str()) {
        Some(g) => V::Ptr(*g, 0),
        None => return Err(Stop::Broken(format!("address of @{n}"))),
      },
      LVal::Local(n) => env
        .get(n.as_str())
        .cloned()
        .ok_or_else(|| Stop::Broken(format!("%{n} has no value")))?,
    })
  }
  pub fn init(&self, w: &mut World) -> Result<(), Stop> {
    for g in &self.m.globals {
      let mut c = vec![];
      let v = self.val(&g.ty, &g.init, &HashMap::new())?;
      flatten(&v, &Sh::ofl(&g.ty), &mut c);
      w.mem.push(c);
    }
    Ok(())
  }
  pub fn call(&self, w: &mut World, fi: usize, args: Vec<V>) -> Result<V, Stop> {
    let f = &self.m.funcs[fi];
    w.observe(fi, &args);
    w.enter()?;
    if f.blocks.is_empty() {
      let r = w.fresh(&Sh::ofl(&f.ret), 2);
      w.depth -= 1;
      return Ok(r);
    }
    let mut env: HashMap<&str, V> = HashMap::new();
    for ((n, _), a) in f.params.iter().zip(args) {
      if let Some(n) = n {
        env.insert(n, a);
      }
    }
    let label: HashMap<&str, usize> =
      f.blocks.iter().enumerate().map(|(i, b)| (b.label.as_str(), i)).collect();
    let (mut b, mut prev): (usize, Option<&str>) = (0, None);
    loop {
      w.burn()?;
      let blk = &f.blocks[b];
      // all phis at once
      let mut new = vec![];
      for (n, i) in &blk.insts {
        let LInst::Phi(t, es) = i else { break };
        let e = es.iter().find(|e| Some(e.1.as_str()) == prev);
        let e = e.ok_or_else(|| Stop::Broken("phi without an entry".into()))?;
        new.push((n.as_deref().unwrap(), self.val(t, &e.0, &env)?));
      }
      env.extend(new);
      let mut next = None;
      for (n, i) in &blk.insts {
        let r = match i {
          LInst::Phi(..) => continue,
          LInst::Alloca(t) => w.alloc(&Sh::ofl(t))?,
          LInst::Load(t, pt, p) => w.load(&self.val(pt, p, &env)?, &Sh::ofl(t))?,
          LInst::Store(t, v, pt, p) => {
            let (p, v) = (self.val(pt, p, &env)?, self.val(t, v, &env)?);
            w.store(&p, &v, &Sh::ofl(t))?;
            V::Undef
          }
          LInst::Gep(t, pt, p, ix) => {
            let mut v = self.val(pt, p, &env)?;
            let mut t = t.clone();
            for (k, (it, i)) in ix.iter().enumerate() {
              if k > 0 {
                let LTy::Arr(_, b) = &t else { return Err(Stop::Broken("gep".into())) };
                t = (**b).clone();
              }
              let i = int(&self.val(it, i, &env)?)?;
              v = w.offset(&v, i as i64, t.cells())?;
            }
            v
          }
          LInst::Bin(o, fl, t, x, y) => {
            let (x, y) = (int(&self.val(t, x, &env)?)?, int(&self.val(t, y, &env)?)?);
            let sh = |f: &dyn Fn(u32) -> i32| {
              if (0..32).contains(&y) {
                Ok(f(y as u32))
              } else {
                Err(Stop::Undefined("shift amount"))
              }
            };
            if !fl.is_empty() {
              let wide = match o.as_str() {
                "add" => x as i64 + y as i64,
                "sub" => x as i64 - y as i64,
                "mul" => x as i64 * y as i64,
                _ => i64::MAX,
              };
              if wide != wide as i32 as i64 {
                return Err(Stop::Undefined("overflow"));
              }
            }
            let r = match o.as_str() {
              "add" => x.wrapping_add(y),
              "sub" => x.wrapping_sub(y),
              "mul" => x.wrapping_mul(y),
              "sdiv" => x.checked_div(y).ok_or(Stop::Undefined("division"))?,
              "srem" => x.checked_rem(y).ok_or(Stop::Undefined("division"))?,
              "udiv" => {
                (x as u32).checked_div(y as u32).ok_or(Stop::Undefined("division"))? as i32
              }
              "urem" => {
                (x as u32).checked_rem(y as u32).ok_or(Stop::Undefined("division"))? as i32
              }
              "and" => x & y,
              "or" => x | y,
              "xor" => x ^ y,
              "shl" => sh(&|s| x << s)?,
              "lshr" => sh(&|s| ((x as u32) >> s) as i32)?,
              "ashr" => sh(&|s| x >> s)?,
              _ => return Err(Stop::Broken(o.clone())),
            };
            V::Int(r as i64)
          }
          LInst::Icmp(c, t, x, y) => {
            let (x, y) = (int(&self.val(t, x, &env)?)?, int(&self.val(t, y, &env)?)?);
            let (u, v) = (x as u32, y as u32);
            V::Int(match c.as_str() {
              "eq" => x == y,
              "ne" => x != y,
              "sgt" => x > y,
              "slt" => x < y,
              "sge" => x >= y,
              "sle" => x <= y,
              "ugt" => u > v,
              "ult" => u < v,
              "uge" => u >= v,
              _ => u <= v,
            } as i64)
          }
          LInst::Zext(t, v, _) => self.val(t, v, &env)?,
          LInst::Call(_, c, a) => {
            let a = a.iter().map(|(t, v)| self.val(t, v, &env)).collect::<Result<Vec<_>, _>>()?;
            self.call(w, self.funcs[c.as_str()], a)?
          }
          LInst::Br(l) => {
            next = Some(l);
            V::Undef
          }
          LInst::CondBr(t, c, x, y) => {
            next = Some(if int(&self.val(t, c, &env)?)? != 0 { x } else { y });
            V::Undef
          }
          LInst::Ret(v) => {
            let r = match v {
              Some((t, v)) => self.val(t, v, &env)?,
              None => V::Undef,
            };
            w.depth -= 1;
            return Ok(r);
          }
        };
        if let Some(n) = n {
          env.insert(n, r);
        }
      }
      prev = Some(&blk.label);
      b = label[next.unwrap().as_str()];
    }
  }
}
