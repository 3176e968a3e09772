//! C18: the pass manager.

use crate::api::{build, Opts};
use crate::ensure;
use crate::gen::*;
use crate::runner::*;
use crate::tape::Tape;
use koopa::ir::builder_traits::*;
use koopa::ir::{Function, FunctionData, Program, Type};
use koopa::opt::{FunctionPass, ModulePass, Pass, PassManager};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn check() -> Check {
  Check {
    id: "C18",
    rule: "generated programs and lists of up to 10 module and function passes that record and \
           change what they see (names, blocks, functions, globals), registered in several ways and \
           run up to three times, also with passes registered between runs; the trace is compared with the registration order and a \
           model of the names; non-trivial = at least two functions and three passes of both kinds",
    quick: 900_000,
    thorough: 36_000_000,
    tape: 260,
    run,
    fixed: None,
    assumptions: &["the order of functions within one function pass is not specified"],
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
  /// A module pass with the names it saw.
  Module(usize, Vec<(Function, String)>),
  /// A function pass with the function, and the name and shape it saw.
  Func(usize, Function, String, Shape),
}

/// Numbers of blocks, of instructions and of parameters.
type Shape = (usize, usize, usize);

fn shape(d: &FunctionData) -> Shape {
  let l = d.layout();
  (l.bbs().len(), l.bbs().nodes().map(|n| n.insts().len()).sum(), d.params().len())
}

type Trace = Rc<RefCell<Vec<Ev>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
  Nothing,
  /// Appends the number of the pass to the name of each function.
  Mark,
  /// Adds a function: a declaration, or a definition without blocks yet.
  AddFunc(bool, usize),
  /// Removes the last function.
  DropFunc,
  /// Adds a block to each function.
  AddBlock,
  /// Adds an instruction to the first block of each function that has one.
  AddInst,
  /// Takes all blocks out of the layout of each function.
  Clear,
}

struct M(usize, Act, Trace);
struct F(usize, Act, Trace, usize);

fn snapshot(p: &Program) -> Vec<(Function, String)> {
  p.func_layout().iter().map(|f| (*f, p.func(*f).name().to_string())).collect()
}

fn mark(i: usize, d: &mut FunctionData) {
  let n = format!("{}.{i}", d.name());
  d.set_name(n);
}

fn add_block(d: &mut FunctionData) {
  let b = d.dfg_mut().new_bb().basic_block(None);
  d.layout_mut().bbs_mut().push_key_back(b).unwrap();
}

fn add_inst(d: &mut FunctionData) {
  if let Some(b) = d.layout().entry_bb() {
    let v = d.dfg_mut().new_value().alloc(Type::get_i32());
    d.layout_mut().bb_mut(b).insts_mut().push_key_front(v).unwrap();
  }
}

fn clear(d: &mut FunctionData) {
  d.layout_mut().bbs_mut().clear();
}

impl ModulePass for M {
  fn run_on(&mut self, p: &mut Program) {
    self.2.borrow_mut().push(Ev::Module(self.0, snapshot(p)));
    match self.1 {
      Act::Mark => p.funcs_mut().values_mut().for_each(|d| mark(self.0, d)),
      Act::AddFunc(def, n) => {
        let (name, tys) = (format!("@new.{}", self.0), vec![Type::get_i32(); n]);
        if def {
          p.new_func_def(name, tys, Type::get_unit());
        } else {
          p.new_func_decl(name, tys, Type::get_unit());
        }
      }
      Act::DropFunc => {
        if let Some(f) = p.func_layout().last().copied() {
          p.remove_func(f);
        }
      }
      Act::AddBlock => p.funcs_mut().values_mut().for_each(add_block),
      Act::AddInst => p.funcs_mut().values_mut().for_each(add_inst),
      Act::Clear => p.funcs_mut().values_mut().for_each(clear),
      Act::Nothing => {}
    }
  }
}

impl FunctionPass for F {
  fn run_on(&mut self, f: Function, d: &mut FunctionData) {
    self.3 += 1;
    let n = shape(d);
    self.2.borrow_mut().push(Ev::Func(self.0, f, d.name().into(), n));
    match self.1 {
      Act::Mark => mark(self.0, d),
      Act::AddBlock => add_block(d),
      Act::AddInst => add_inst(d),
      Act::Clear => clear(d),
      _ => {}
    }
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let n = t.below(11) * t.growth(6);
  let mut plan: Vec<(bool, Act)> = vec![];
  for _ in 0..n {
    let m = t.chance(45);
    let a = if m {
      match t.below(8) {
        0 => Act::Nothing,
        1 => Act::Mark,
        2 | 3 => Act::AddFunc(t.chance(50), t.below(3)),
        4 => Act::DropFunc,
        5 => Act::AddBlock,
        6 => Act::AddInst,
        _ => Act::Clear,
      }
    } else {
      *t.pick(&[Act::Nothing, Act::Mark, Act::AddBlock, Act::AddInst, Act::Clear])
    };
    plan.push((m, a));
  }
  let runs = t.range(1, 3);
  let how = t.below(3);
  // passes registered after the first run
  let late = if runs > 1 { t.below(plan.len() + 1).min(3) } else { 0 };
  let mut cfg = Cfg::api();
  cfg.max_insts = 3;
  let s = gen_spec(t, &cfg);
  let (mut p, _) = build(&s, Opts::default());
  c.describe(format!("{plan:?}, {runs} runs (way {how}, {late} late), {} functions", s.funcs.len()));
  c.nontrivial =
    s.funcs.len() >= 2 && n >= 3 && plan.iter().any(|x| x.0) && plan.iter().any(|x| !x.0);
  let trace: Trace = Default::default();
  let make = |i: usize| match plan[i] {
    (true, a) => Pass::Module(Box::new(M(i, a, trace.clone()))),
    (false, a) => Pass::Function(Box::new(F(i, a, trace.clone(), 0))),
  };
  let early = plan.len() - late;
  let mut pm = match how {
    0 => PassManager::new(),
    1 => PassManager::default(),
    _ => PassManager::from((0..early).map(make).collect::<Vec<_>>()),
  };
  if how != 2 {
    (0..early).for_each(|i| pm.register(make(i)));
  }
  let globals = p.inst_layout().to_vec();
  // the model: functions in order with name and shape
  let mut model: Vec<(Option<Function>, String, Shape)> = p
    .func_layout()
    .iter()
    .map(|f| (Some(*f), p.func(*f).name().to_string(), shape(p.func(*f))))
    .collect();
  for r in 0..runs {
    if r == 1 {
      (early..plan.len()).for_each(|i| pm.register(make(i)));
    }
    trace.borrow_mut().clear();
    pm.run_passes(&mut p);
    let now = if r == 0 { early } else { plan.len() };
    let ev = trace.borrow().clone();
    let mut at = 0;
    for (i, (module, act)) in plan[..now].iter().enumerate() {
      if *module {
        let Some(Ev::Module(j, seen)) = ev.get(at) else {
          return fail("wrong trace", format!("run {r}: expected module pass {i}, got {:?}", ev.get(at)));
        };
        at += 1;
        ensure!(*j == i, "wrong order", "run {r}: expected module pass {i}, pass {j} ran");
        // learn the handles of functions added by passes
        for (m, s) in model.iter_mut().zip(seen) {
          m.0.get_or_insert(s.0);
        }
        let want: Vec<_> = model.iter().map(|x| (x.0.unwrap(), x.1.clone())).collect();
        ensure!(*seen == want, "wrong program", "run {r}: module pass {i} saw {seen:?}, expected {want:?}");
      } else {
        let mut want: HashMap<String, Vec<(Shape, Option<Function>)>> = HashMap::new();
        for m in &model {
          want.entry(m.1.clone()).or_default().push((m.2, m.0));
        }
        for _ in 0..model.len() {
          let Some(Ev::Func(j, f, name, blocks)) = ev.get(at) else {
            return fail("wrong trace", format!("run {r}: expected function pass {i}, got {:?}", ev.get(at)));
          };
          at += 1;
          ensure!(*j == i, "wrong order", "run {r}: expected function pass {i}, pass {j} ran");
          let l = want.get_mut(name).map(|l| {
            let k = l.iter().position(|x| x.0 == *blocks && x.1.is_none_or(|h| h == *f));
            k.map(|k| l.remove(k))
          });
          ensure!(
            matches!(l, Some(Some(_))),
            "wrong function",
            "run {r}: function pass {i} saw {name} with {blocks:?} blocks, instructions and parameters, which is not there or seen before"
          );
        }
      }
      match act {
        Act::Mark => model.iter_mut().for_each(|m| m.1 = format!("{}.{i}", m.1)),
        Act::AddBlock => model.iter_mut().for_each(|m| m.2 .0 += 1),
        Act::AddInst => {
          model.iter_mut().filter(|m| m.2 .0 > 0).for_each(|m| m.2 .1 += 1)
        }
        Act::Clear => model.iter_mut().for_each(|m| (m.2 .0, m.2 .1) = (0, 0)),
        Act::AddFunc(def, n) => {
          model.push((None, format!("@new.{i}"), (0, 0, if *def { *n } else { 0 })))
        }
        Act::DropFunc => {
          model.pop();
        }
        Act::Nothing => {}
      }
    }
    ensure!(at == ev.len(), "wrong trace", "run {r}: {} extra calls: {:?}", ev.len() - at, ev.get(at));
    let end: Vec<(String, Shape)> = p
      .func_layout()
      .iter()
      .map(|f| (p.func(*f).name().to_string(), shape(p.func(*f))))
      .collect();
    let want: Vec<(String, Shape)> = model.iter().map(|m| (m.1.clone(), m.2)).collect();
    ensure!(end == want, "wrong result", "run {r}: {end:?}, expected {want:?}");
    ensure!(p.inst_layout() == globals, "wrong result", "global values changed");
    for (m, f) in model.iter_mut().zip(p.func_layout()) {
      m.0 = Some(*f);
    }
  }
  Ok(())
}
