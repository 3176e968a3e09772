//! C15: interning, display and size of types.

use super::util::parse;
use crate::api::{ty, unty};
use crate::ensure;
use crate::runner::*;
use crate::spec::Ty;
use crate::tape::Tape;
use koopa::ir::{Program, Type, TypeKind};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn check() -> Check {
  Check {
    id: "C15",
    rule: "pools of up to 40 types grown by random constructors from earlier ones (so that equal, \
           nearly equal and nested types occur), obtained through constructors, kinds, parsed text \
           and builders, on fresh or used threads, with changing pointer sizes; all pairs are compared with a \
           structural model; non-trivial = at least 6 types, two of them structurally equal",
    quick: 750_000,
    thorough: 30_000_000,
    tape: 220,
    run,
    fixed: None,
    assumptions: &["types nest no deeper than the pool grows them"],
  }
}

fn hash(t: &Type) -> u64 {
  let mut h = DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

fn kind_shape(k: &TypeKind) -> &'static str {
  match k {
    TypeKind::Int32 => "i32",
    TypeKind::Unit => "unit",
    TypeKind::Array(..) => "array",
    TypeKind::Pointer(_) => "pointer",
    TypeKind::Function(..) => "function",
  }
}

fn shape(t: &Ty) -> &'static str {
  match t {
    Ty::I32 => "i32",
    Ty::Unit => "unit",
    Ty::Arr(..) => "array",
    Ty::Ptr(_) => "pointer",
    Ty::Fun(..) => "function",
  }
}

/// Bytes of a type, without overflow.
fn bytes(t: &Ty, ptr: u128) -> u128 {
  match t {
    Ty::I32 => 4,
    Ty::Unit => 0,
    Ty::Arr(b, n) => bytes(b, ptr).saturating_mul(*n as u128),
    _ => ptr,
  }
}

/// May be written as the type of a parameter.
fn first_class(t: &Ty) -> bool {
  match t {
    Ty::Unit => false,
    Ty::Fun(ps, r) => ps.iter().all(first_class) && (r.is_unit() || first_class(r)),
    Ty::Arr(b, n) => *n <= i32::MAX as usize && first_class(b),
    Ty::Ptr(b) => first_class(b),
    Ty::I32 => true,
  }
}

fn grow(t: &mut Tape, c: &mut Case) -> Res {
  let mut pool: Vec<(Ty, Type)> = vec![];
  let n = t.range(2, 40) * t.growth(20);
  let mut log = vec![];
  let mut ptr = 8u128;
  Type::set_ptr_size(8);
  for _ in 0..n {
    if t.exhausted() {
      break;
    }
    let pick = |t: &mut Tape| -> (Ty, Type) {
      if pool.is_empty() {
        (Ty::I32, Type::get_i32())
      } else if t.chance(60) {
        pool[pool.len() - 1 - t.below(pool.len().min(4))].clone()
      } else {
        pool[t.below(pool.len())].clone()
      }
    };
    let raw = t.chance(25);
    let (m, r) = match t.weighted(&[2, 1, 5, 5, 4, 3]) {
      0 => (Ty::I32, if raw { Type::get(TypeKind::Int32) } else { Type::get_i32() }),
      1 => (Ty::Unit, if raw { Type::get(TypeKind::Unit) } else { Type::get_unit() }),
      2 => {
        let (m, b) = pick(t);
        let n = match t.below(12) {
          0..=8 => t.range(1, 5),
          9 => t.range(1, 300),
          10 => 1 << t.below(31),
          _ => usize::MAX - t.below(2),
        };
        let r = if raw { Type::get(TypeKind::Array(b, n)) } else { Type::get_array(b, n) };
        (Ty::arr(m, n), r)
      }
      3 => {
        let (m, b) = pick(t);
        (Ty::ptr(m), if raw { Type::get(TypeKind::Pointer(b)) } else { Type::get_pointer(b) })
      }
      4 => {
        let k = t.below(4);
        let (mut ms, mut bs) = (vec![], vec![]);
        for _ in 0..k {
          let (m, b) = pick(t);
          ms.push(m);
          bs.push(b);
        }
        let (m, b) = if t.chance(30) { (Ty::Unit, Type::get_unit()) } else { pick(t) };
        let r =
          if raw { Type::get(TypeKind::Function(bs, b)) } else { Type::get_function(bs, b) };
        (Ty::fun(ms, m), r)
      }
      // built again from scratch
      _ => {
        let m = pick(t).0;
        let r = ty(&m);
        (m, r)
      }
    };
    if m.show().len() > 1500 {
      continue;
    }
    log.push(m.show());
    if t.chance(15) {
      ptr = *t.pick(&[4u128, 8, 2, 1, 16]);
      Type::set_ptr_size(ptr as usize);
      log.push(format!("pointer size {ptr}"));
    }
    ensure!(kind_shape(r.kind()) == shape(&m), "kind", "{} has kind {}", m.show(), r.kind());
    pool.push((m, r));
  }
  let mut equal = false;
  for (i, (m, r)) in pool.iter().enumerate() {
    ensure!(unty(r) == *m, "structure", "{} became {r}", m.show());
    for (what, s) in [
      ("display", r.to_string()),
      ("debug", format!("{r:?}")),
      ("kind display", r.kind().to_string()),
    ] {
      ensure!(s == m.show(), "display", "{} prints as {s} ({what})", m.show());
    }
    ensure!(r.is_i32() == (*m == Ty::I32), "predicates", "is_i32 of {}", m.show());
    ensure!(r.is_unit() == (*m == Ty::Unit), "predicates", "is_unit of {}", m.show());
    let b = bytes(m, ptr);
    if b < 1 << 60 {
      ensure!(r.size() as u128 == b, "size", "{} has size {}, expected {b}", m.show(), r.size());
    }
    for (x, y) in &pool[..i] {
      let same = x == m;
      equal |= same;
      ensure!(
        (y == r) == same && (r == y) == same && (y != r) != same,
        "equality",
        "{} == {} is {}",
        x.show(),
        m.show(),
        y == r
      );
      ensure!(!same || hash(y) == hash(r), "hash", "{} has two hashes", m.show());
      ensure!(
        (y.kind() == r.kind()) == same,
        "equality",
        "the kinds of {} and {} compare {}",
        x.show(),
        m.show(),
        y.kind() == r.kind()
      );
      ensure!(
        std::ptr::eq(y.kind(), r.kind()) == same,
        "interning",
        "{} and {}: one object is {}",
        x.show(),
        m.show(),
        std::ptr::eq(y.kind(), r.kind())
      );
    }
  }
  // through builders and text
  if let Some((m, r)) = pool.iter().rev().find(|x| first_class(&x.0) && !matches!(x.0, Ty::Fun(..))) {
    let src = format!("decl @f({}): {}\n", m.show(), m.show());
    match parse(&src) {
      Ok(p) => {
        let f = p.func_layout()[0];
        let want = Type::get_function(vec![r.clone()], r.clone());
        ensure!(*p.func(f).ty() == want, "parsed type", "{src} gives {}", p.func(f).ty());
        c.class("parsed");
      }
      Err(e) => return fail("parsed type", format!("{src}: {e}")),
    }
    let mut p = Program::new();
    use koopa::ir::builder_traits::*;
    let z = p.new_value().zero_init(r.clone());
    let g = p.new_value().global_alloc(z);
    ensure!(*p.borrow_value(z).ty() == *r, "built type", "zeroinit of {}", m.show());
    ensure!(
      *p.borrow_value(g).ty() == Type::get_pointer(r.clone()),
      "built type",
      "alloc of {}",
      m.show()
    );
  }
  ensure!(
    no_panic(|| Type::get_array(Type::get_i32(), 0)).is_err(),
    "zero length",
    "an array type of length zero was made"
  );
  Type::set_ptr_size(8);
  c.describe(log.join("\n"));
  c.nontrivial = pool.len() >= 6 && equal;
  c.class_if(pool.iter().any(|x| matches!(x.0, Ty::Fun(..))), "function types");
  c.class_if(pool.iter().any(|x| x.0.has_fun()), "nested function types");
  Ok(())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  if t.chance(15) {
    c.class("fresh thread");
    // a thread with an empty pool of types
    return std::thread::scope(|s| {
      let h = s.spawn(|| no_panic(|| grow(t, c)));
      match h.join().unwrap() {
        Ok(r) => r,
        Err(m) => fail("panic", m),
      }
    });
  }
  grow(t, c)
}
