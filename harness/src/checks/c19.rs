//! C19: front ends and programs do not influence each other.

use super::util::print;
use crate::ensure;
use crate::gen::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::{mutate, text};
use koopa::front::span::Span;
use koopa::front::Driver;
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, Function, Program, Type, Value};
use std::collections::HashSet;
use std::sync::Barrier;

pub fn check() -> Check {
  Check {
    id: "C19",
    rule: "lists of up to 6 inputs (valid and damaged programs, texts with very many errors) each \
           run alone in a fresh thread, then one after another in one thread, then in several orders on up to 4 \
           threads at once with the programs kept alive; all outcomes are compared with those of the \
           lone runs; non-trivial = at least three inputs, of which one is valid and one is not",
    quick: 96_000,
    thorough: 3_840_000,
    tape: 600,
    run,
    fixed: None,
    assumptions: &["front ends on one thread are used one after another"],
  }
}

#[derive(PartialEq, Debug, Clone)]
struct Out {
  ok: bool,
  errors: usize,
  warnings: usize,
  text: Option<String>,
}

/// Handles of everything in some programs.
#[derive(Default)]
struct All {
  vals: Vec<Value>,
  bbs: Vec<BasicBlock>,
  funcs: Vec<Function>,
}

impl All {
  fn add(&mut self, p: &Program) {
    self.vals.extend(p.borrow_values().keys());
    for (f, d) in p.funcs() {
      self.funcs.push(*f);
      self.vals.extend(d.dfg().values().keys());
      self.bbs.extend(d.dfg().bbs().keys());
    }
  }

  /// Handles of different programs are different.
  fn check(&self) -> Res {
    let v: HashSet<_> = self.vals.iter().collect();
    let b: HashSet<_> = self.bbs.iter().collect();
    let f: HashSet<_> = self.funcs.iter().collect();
    ensure!(v.len() == self.vals.len(), "handle repeated", "values of different programs share a handle");
    ensure!(b.len() == self.bbs.len(), "handle repeated", "blocks of different programs share a handle");
    ensure!(f.len() == self.funcs.len(), "handle repeated", "functions of different programs share a handle");
    Ok(())
  }
}

/// Makes many entities quickly.
fn burst(n: usize, what: usize) -> Program {
  let mut p = Program::new();
  let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
  for i in 0..n {
    match what {
      0 => drop(p.new_value().integer(i as i32)),
      1 => drop(p.func_mut(f).dfg_mut().new_value().integer(i as i32)),
      2 => drop(p.func_mut(f).dfg_mut().new_bb().basic_block(None)),
      _ => drop(p.new_func_decl("@g".into(), vec![], Type::get_unit())),
    }
  }
  p
}

/// All handles of a program are different.
fn handles(p: &Program) -> Res {
  let mut vals: HashSet<Value> = p.borrow_values().keys().copied().collect();
  let mut n = vals.len();
  let mut bbs = HashSet::new();
  let mut nb = 0;
  let mut funcs = HashSet::new();
  for f in p.func_layout() {
    ensure!(funcs.insert(*f), "handle repeated", "a function handle occurs twice");
    let d = p.func(*f).dfg();
    n += d.values().len();
    vals.extend(d.values().keys());
    nb += d.bbs().len();
    bbs.extend(d.bbs().keys().copied());
    for v in d.values().keys() {
      ensure!(!v.is_global(), "global handle", "a local value has a global handle");
    }
  }
  for v in p.borrow_values().keys() {
    ensure!(v.is_global(), "global handle", "a global value has a local handle");
  }
  ensure!(vals.len() == n, "handle repeated", "{} values share handles", n - vals.len());
  ensure!(bbs.len() == nb, "handle repeated", "{} blocks share handles", nb - bbs.len());
  Ok(())
}

fn one(src: &str, keep: &mut Vec<(usize, Program)>, i: usize) -> Result<Out, Fail> {
  let d: Driver<_> = src.into();
  let r = d.generate_program();
  let mut o =
    Out { ok: r.is_ok(), errors: Span::error_num(), warnings: Span::warning_num(), text: None };
  if let Ok(p) = r {
    handles(&p)?;
    o.text = print(&p).ok();
    keep.push((i, p));
  }
  Ok(o)
}

fn caught<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
  no_panic(f).unwrap_or_else(|m| fail("panic", m))
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let k = t.range(1, 6);
  let mut srcs: Vec<String> = vec![];
  for _ in 0..k {
    let mut ft = t.fork(140.max(t.rest() / 4));
    let mut cfg = Cfg::text();
    (cfg.max_funcs, cfg.max_blocks, cfg.max_insts) = (3, 4, 4);
    let s = gen_spec(&mut ft, &cfg);
    let mut toks = text::tokens(&mut ft, &s).0;
    match t.below(5) {
      0 | 1 => {}
      2 | 3 => {
        for _ in 0..t.range(1, 4) {
          mutate::mutate(t, &mut toks);
        }
      }
      _ => {
        // many errors
        let n = t.range(1, 45);
        srcs.push((0..n).map(|i| format!("global @e{i} = alloc\n")).collect());
        continue;
      }
    }
    srcs.push(text::layout(t, &toks, 1).0);
  }
  let alone: Vec<Out> = std::thread::scope(|s| {
    srcs
      .iter()
      .map(|x| s.spawn(|| caught(|| one(x, &mut vec![], 0))).join().unwrap())
      .collect::<Result<_, _>>()
  })?;
  let ctx = || {
    srcs
      .iter()
      .zip(&alone)
      .enumerate()
      .map(|(i, (s, o))| format!("--- input {i}: ok={} errors={} ---\n{s}", o.ok, o.errors))
      .collect::<Vec<_>>()
      .join("\n")
  };
  c.describe(ctx());
  c.nontrivial = k >= 3 && alone.iter().any(|o| o.ok) && alone.iter().any(|o| !o.ok);
  let same = |i: usize, o: &Out, how: &str| -> Res {
    ensure!(
      *o == alone[i],
      "influenced",
      "{how}: input {i} gives {o:?}, alone {:?}\n{}",
      alone[i],
      ctx()
    );
    Ok(())
  };
  // one after another, in a used thread, keeping the programs
  let order: Vec<usize> = (0..t.range(1, 8)).map(|_| t.below(k)).collect();
  let mut keep = vec![];
  for i in &order {
    let o = one(&srcs[*i], &mut keep, *i)?;
    same(*i, &o, &format!("one thread, order {order:?}"))?;
  }
  let mut all = All::default();
  for (i, p) in &keep {
    all.add(p);
    let x = print(p).ok();
    ensure!(x == alone[*i].text, "influenced", "a kept program changed (input {i})\n{}", ctx());
  }
  all.check()?;
  // at once
  if t.chance(70) {
    c.class("threads");
    let n = t.range(2, 4);
    let orders: Vec<Vec<usize>> =
      (0..n).map(|_| (0..t.range(1, 4)).map(|_| t.below(k)).collect()).collect();
    let bar = Barrier::new(n);
    let (many, what) = if t.chance(30) { (t.range(10, 200), t.below(4)) } else { (0, 0) };
    let res: Vec<Result<(Vec<Out>, All), Fail>> = std::thread::scope(|s| {
      let hs: Vec<_> = orders
        .iter()
        .map(|o| {
          let (bar, srcs) = (&bar, &srcs);
          s.spawn(move || {
            bar.wait();
            caught(|| {
              let mut keep = vec![];
              let mut ids = All::default();
              ids.add(&burst(many, what));
              let outs = o.iter().map(|i| one(&srcs[*i], &mut keep, *i)).collect::<Result<Vec<_>, _>>()?;
              let mut all: Vec<Out> = outs;
              // and once more from what was kept
              for (i, p) in &keep {
                handles(p)?;
                ids.add(p);
                all.push(Out { ok: true, errors: *i, warnings: 0, text: print(p).ok() });
              }
              Ok((all, ids))
            })
          })
        })
        .collect();
      hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (o, r) in orders.iter().zip(res) {
      let (r, ids) = r?;
      all.vals.extend(ids.vals);
      all.bbs.extend(ids.bbs);
      all.funcs.extend(ids.funcs);
      for (i, x) in o.iter().zip(&r) {
        same(*i, x, &format!("threads {orders:?}"))?;
      }
      for x in &r[o.len()..] {
        ensure!(x.text == alone[x.errors].text, "influenced", "threads: a kept program changed\n{}", ctx());
      }
    }
    all.check()?;
  }
  Ok(())
}
