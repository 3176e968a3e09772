//! C17: name management.

use crate::api::ty;
use crate::ensure;
use crate::runner::*;
use crate::spec::Ty;
use crate::tape::Tape;
use koopa::back::{NameManager, Prefix};
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, Function, Program, Value};
use std::collections::HashMap;
use std::num::NonZeroUsize;

pub fn check() -> Check {
  Check {
    id: "C17",
    rule: "sequences of up to 80 requests (names of globals, functions, blocks, values, fresh \
           temporaries; entering and leaving scopes; changing prefixes) over entities with clashing, missing, \
           temporary-looking, long and non-ASCII names; predicates over all names handed out, and \
           the same sequence given twice; non-trivial = at least 10 requests with one clash",
    quick: 1_200_000,
    thorough: 48_000_000,
    tape: 360,
    run,
    fixed: None,
    assumptions: &["local names are requested inside of their function's scope"],
  }
}

const NAMES: [&str; 26] = [
  "@a", "%a", "@a_0", "@a_1", "%a_0", "%0", "%1", "%2", "%00", "@0", "@1", "%0_0", "%1_0", "@a_0_0", "@b",
  "%b", "@long_name_of_something", "@long_name_of_somebody", "%long_name_of_something", "@t0",
  "%t0", "@é", "@éé", "%日本語", "@main", "%_",
];

fn name(t: &mut Tape) -> Option<String> {
  if t.chance(30) {
    None
  } else {
    let n = *t.pick(&NAMES[..]);
    if t.chance(4) {
      return Some(format!("{n}{}", "x".repeat(t.range(1, 40))));
    }
    Some(n.into())
  }
}

#[derive(Clone)]
struct Pre {
  custom: Option<(String, String, Option<usize>)>,
}

impl Pre {
  fn make(&self) -> Prefix {
    match &self.custom {
      None => Prefix::Default,
      Some((n, t, m)) => Prefix::Custom {
        named: n.clone(),
        temp: t.clone(),
        max_len: m.and_then(NonZeroUsize::new),
      },
    }
  }
  /// The name that a given name asks for.
  fn base(&self, name: &str) -> String {
    let Some((n, t, m)) = &self.custom else { return name.into() };
    let full = match name.strip_prefix('@') {
      Some(r) => format!("{n}{r}"),
      None => format!("{t}{}", &name[1..]),
    };
    match m {
      None => full,
      Some(m) => {
        let mut out = String::new();
        for c in full.chars() {
          if out.len() + c.len_utf8() > *m {
            break;
          }
          out.push(c);
        }
        out
      }
    }
  }
  fn temp(&self) -> &str {
    self.custom.as_ref().map_or("%", |c| &c.1)
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Ent {
  Func(usize),
  Glob(usize),
  Bb(usize, usize),
  Val(usize, usize),
}

struct World {
  p: Program,
  funcs: Vec<Function>,
  globs: Vec<Value>,
  bbs: Vec<Vec<BasicBlock>>,
  vals: Vec<Vec<Value>>,
}

impl World {
  fn given(&self, e: Ent) -> Option<String> {
    match e {
      Ent::Func(f) => Some(self.p.func(self.funcs[f]).name().to_string()),
      Ent::Glob(g) => self.p.borrow_value(self.globs[g]).name().clone(),
      Ent::Bb(f, b) => self.p.func(self.funcs[f]).dfg().bb(self.bbs[f][b]).name().clone(),
      Ent::Val(f, v) => self.p.func(self.funcs[f]).dfg().value(self.vals[f][v]).name().clone(),
    }
  }
  fn ask(&self, nm: &mut NameManager, e: Ent) -> String {
    match e {
      Ent::Func(f) => nm.func_name(self.p.func(self.funcs[f])),
      Ent::Glob(g) => nm.value_name(&self.p.borrow_value(self.globs[g])),
      Ent::Bb(f, b) => nm.bb_name(self.p.func(self.funcs[f]).dfg().bb(self.bbs[f][b])),
      Ent::Val(f, v) => nm.value_name(self.p.func(self.funcs[f]).dfg().value(self.vals[f][v])),
    }
    .to_string()
  }
}

fn digits(s: &str) -> bool {
  !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  // entities
  let mut w = World { p: Program::new(), funcs: vec![], globs: vec![], bbs: vec![], vals: vec![] };
  for _ in 0..t.below(5) * t.growth(8) {
    let z = w.p.new_value().zero_init(ty(&Ty::I32));
    let g = w.p.new_value().global_alloc(z);
    let n = name(t);
    w.p.set_value_name(g, n);
    w.globs.push(g);
  }
  let konst = w.p.new_value().integer(1);
  for _ in 0..t.range(1, 4) * t.growth(6) {
    let n = name(t).unwrap_or("@f".into());
    let k = t.below(3);
    let ps = (0..k).map(|_| (name(t), ty(&Ty::I32))).collect();
    let f = w.p.new_func_def_with_param_names(n, ps, ty(&Ty::Unit));
    let mut vals = w.p.func(f).params().to_vec();
    let mut bbs = vec![];
    for _ in 0..t.below(5) * t.growth(8) {
      let n = name(t);
      let ps = (0..t.below(3)).map(|_| (name(t), ty(&Ty::I32))).collect();
      let b = w.p.func_mut(f).dfg_mut().new_bb().basic_block_with_param_names(n, ps);
      vals.extend(w.p.func(f).dfg().bb(b).params());
      bbs.push(b);
    }
    for _ in 0..t.below(7) * t.growth(10) {
      let n = name(t);
      let v = w.p.func_mut(f).dfg_mut().new_value().alloc(ty(&Ty::I32));
      w.p.func_mut(f).dfg_mut().set_value_name(v, n);
      vals.push(v);
    }
    w.funcs.push(f);
    w.bbs.push(bbs);
    w.vals.push(vals);
  }
  let prefix = |t: &mut Tape| Pre {
    custom: if t.chance(60) {
      None
    } else {
      let n = t.pick(&["@", "g_", "", "L", "%", "äö"]).to_string();
      let m = t.pick(&["%", "t", "", "g_", "t_"]).to_string();
      let l = if t.chance(55) { Some(t.range(1, 14)) } else { None };
      Some((n, m, l))
    },
  };
  let mut pre = prefix(t);
  let mut nm = NameManager::new();
  let mut twin = NameManager::new();
  if pre.custom.is_some() || t.chance(30) {
    nm.set_prefix(pre.make());
    twin.set_prefix(pre.make());
  }
  let mut log = vec![match &pre.custom {
    None => "default prefix".to_string(),
    Some(x) => format!("prefix {x:?}"),
  }];
  // live names: values (and functions, globals, temporaries) and blocks
  let mut taken: [HashMap<String, Option<Ent>>; 2] = Default::default();
  let mut known: HashMap<Ent, String> = HashMap::new();
  let mut scope: Option<usize> = None;
  let (mut asks, mut clashes) = (0usize, 0usize);
  for _ in 0..t.range(5, 80) * t.growth(20) {
    if t.exhausted() {
      break;
    }
    let what = t.weighted(&[3, 2, 4, 6, 2, 2, 1]);
    let ent = match what {
      0 => Some(Ent::Func(t.below(w.funcs.len()))),
      1 if !w.globs.is_empty() => Some(Ent::Glob(t.below(w.globs.len()))),
      2 => match scope {
        Some(f) if !w.bbs[f].is_empty() => Some(Ent::Bb(f, t.below(w.bbs[f].len()))),
        _ => None,
      },
      3 => match scope {
        Some(f) if !w.vals[f].is_empty() => Some(Ent::Val(f, t.below(w.vals[f].len()))),
        _ => None,
      },
      _ => None,
    };
    if let Some(e) = ent {
      asks += 1;
      let given = w.given(e);
      let got = w.ask(&mut nm, e);
      log.push(format!("{e:?} {given:?} -> {got}"));
      let ctx = log.join("\n");
      let again = w.ask(&mut twin, e);
      ensure!(got == again, "not deterministic", "the same requests gave {got} and {again}\n{ctx}");
      if let Some(k) = known.get(&e) {
        ensure!(*k == got, "not stable", "{e:?} was {k}, now is {got}\n{ctx}");
        continue;
      }
      let space = matches!(e, Ent::Bb(..)) as usize;
      ensure!(
        !taken[space].contains_key(&got),
        "not injective",
        "{got} is the name of {:?} and of {e:?}\n{ctx}",
        taken[space][&got]
      );
      match &given {
        None => {
          let rest = got.strip_prefix(pre.temp());
          ensure!(rest.is_some_and(digits), "prefix", "unnamed {e:?} is called {got}\n{ctx}");
        }
        Some(g) => {
          let base = pre.base(g);
          if !taken[space].contains_key(&base) {
            ensure!(got == base, "name changed", "{e:?} ({g}) is called {got}, {base} is free\n{ctx}");
          } else {
            clashes += 1;
            let suffix = got.strip_prefix(&base).and_then(|r| r.strip_prefix('_'));
            let temp = g.starts_with('%') && digits(&g[1..]) && pre.custom.is_none();
            let ok = if temp {
              got.strip_prefix('%').is_some_and(digits)
            } else {
              suffix.is_some_and(|s| digits(s) && s.len() <= 4)
            };
            ensure!(ok, "prefix", "{e:?} ({g}) is called {got}, expected {base} with a suffix\n{ctx}");
          }
        }
      }
      taken[space].insert(got.clone(), Some(e));
      known.insert(e, got);
      continue;
    }
    match what {
      4 => {
        // a scope
        match scope {
          None => {
            let f = t.below(w.funcs.len());
            nm.enter_func_scope();
            twin.enter_func_scope();
            log.push(format!("enter {f}"));
            scope = Some(f);
          }
          Some(f) => {
            nm.exit_func_scope();
            twin.exit_func_scope();
            log.push(format!("exit {f}"));
            scope = None;
            taken[1].clear();
            let local = |e: &Option<Ent>| matches!(e, Some(Ent::Val(..)));
            taken[0].retain(|_, e| !local(e));
            known.retain(|e, _| !matches!(e, Ent::Bb(..) | Ent::Val(..)));
          }
        }
      }
      5 => {
        let got = nm.temp_value_name().to_string();
        let again = twin.temp_value_name().to_string();
        log.push(format!("temporary -> {got}"));
        let ctx = log.join("\n");
        ensure!(got == again, "not deterministic", "{got} and {again}\n{ctx}");
        let rest = got.strip_prefix(pre.temp());
        ensure!(rest.is_some_and(digits), "prefix", "a temporary is called {got}\n{ctx}");
        ensure!(
          !taken[0].contains_key(&got),
          "not injective",
          "{got} is the name of {:?} and of a temporary\n{ctx}",
          taken[0][&got]
        );
        taken[0].insert(got, None);
      }
      6 => match t.below(3) {
        0 => {
          pre = prefix(t);
          nm.set_prefix(pre.make());
          twin.set_prefix(pre.make());
          log.push(format!("prefix {:?}", pre.custom));
        }
        1 => {
          // the wrong scope
          let mut m = NameManager::new();
          ensure!(no_panic(|| m.exit_func_scope()).is_err(), "scope", "left the global scope");
          m.enter_func_scope();
          ensure!(no_panic(|| m.enter_func_scope()).is_err(), "scope", "entered two scopes");
        }
        _ => {
          let mut m = NameManager::new();
          let d = w.p.borrow_value(konst);
          ensure!(no_panic(|| m.value_name(&d)).is_err(), "constant", "a constant has a name");
        }
      },
      _ => {}
    }
  }
  c.describe(log.join("\n"));
  c.nontrivial = asks >= 10 && clashes >= 1;
  c.class_if(pre.custom.is_some(), "custom prefix");
  c.class_if(pre.custom.as_ref().is_some_and(|p| p.2.is_some()), "bounded length");
  c.class_if(clashes > 0, "clash");
  Ok(())
}
