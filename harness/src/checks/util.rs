//! Shared helpers of the checks.

use crate::runner::*;
use crate::spec::Spec;
use crate::tape::Tape;
use koopa::back::KoopaGenerator;
use koopa::front::span::Span;
use koopa::front::Driver;
use koopa::ir::Program;

/// Parses text; `Err` describes a rejection.
pub fn parse(text: &str) -> Result<Program, String> {
  let d: Driver<_> = text.into();
  match d.generate_program() {
    Ok(p) => {
      if Span::error_num() != 0 {
        return Err(format!("accepted with {} errors", Span::error_num()));
      }
      Ok(p)
    }
    Err(e) => Err(format!("rejected with {} errors ({e:?})", Span::error_num())),
  }
}

pub fn print(p: &Program) -> Result<String, String> {
  let mut g = KoopaGenerator::new(Vec::new());
  g.generate_on(p).map_err(|e| format!("generator failed: {e}"))?;
  String::from_utf8(g.writer()).map_err(|_| "output is not UTF-8".into())
}

/// Maps an error string into a failure.
pub fn or<T>(sig: &str, r: Result<T, String>, ctx: &str) -> Result<T, Fail> {
  r.map_err(|m| Fail { sig: sig.into(), msg: format!("{m}{}{ctx}", if ctx.is_empty() { "" } else { "\n" }) })
}

/// Runs `f`, dropping what it prints.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
  f()
}

/// Runs `f` on a thread whose stack is as large as a usual main thread's.
pub fn usual_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
  std::thread::scope(|s| {
    std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
  })
}

/// A writer that can be looked at while it is in use.
#[derive(Default, Clone)]
pub struct Shared(pub std::rc::Rc<std::cell::RefCell<Vec<u8>>>);

impl std::io::Write for Shared {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.0.borrow_mut().extend(b);
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

/// Asks another build of this program, which `var` names.
pub fn ask_variant(
  client: &'static std::thread::LocalKey<std::cell::RefCell<Option<crate::serve::Client>>>,
  var: &str,
  src: &[u8],
  job: crate::serve::Job,
) -> Result<crate::serve::Answer, String> {
  client.with(|c| {
    let mut c = c.borrow_mut();
    if c.is_none() {
      let exe = std::env::var(var).unwrap_or_else(|_| beside(var));
      match crate::serve::Client::start(&exe) {
        Ok(x) => *c = Some(x),
        Err(e) => {
          println!("cannot start {exe:?}: {e}");
          std::process::exit(9);
        }
      }
    }
    let r = c.as_mut().unwrap().ask(src, job).map_err(|e| e.to_string());
    if r.is_err() {
      *c = None;
    }
    r
  })
}

/// Where `check.sh` puts the other builds, for replays by hand.
fn beside(var: &str) -> String {
  let (dir, profile) = if var == "KV_NOLOG" { ("-nolog", "release") } else { ("-debug", "debug") };
  let exe = std::env::current_exe().unwrap_or_default();
  let target = exe.parent().and_then(|p| p.parent()).map(|p| p.display().to_string()).unwrap_or_default();
  format!("{target}{dir}/{profile}/kv")
}

/// Names things that the text has no name for: instructions without a value,
/// and constants.
pub fn name_others(it: &mut Tape, s: &Spec, p: &mut Program, h: &crate::api::Handles) {
  let names = ["%u", "@v", "%entry", "%0"];
  for (i, f) in s.funcs.iter().enumerate() {
    for (j, b) in f.blocks.iter().enumerate() {
      for (k, x) in b.insts.iter().enumerate() {
        if x.ty.is_unit() && it.chance(30) {
          let n = it.pick(&names).to_string();
          p.func_mut(h.funcs[i]).dfg_mut().set_value_name(h.insts[i][j][k], Some(n));
        }
      }
    }
    if it.chance(20) {
      let n = it.pick(&names).to_string();
      let dfg = p.func_mut(h.funcs[i]).dfg_mut();
      let l: Vec<_> =
        dfg.values().iter().filter(|x| x.1.kind().is_const()).map(|x| *x.0).collect();
      l.into_iter().for_each(|v| dfg.set_value_name(v, Some(n.clone())));
    }
  }
  if it.chance(20) {
    let n = it.pick(&names).to_string();
    let l: Vec<_> =
      p.borrow_values().iter().filter(|x| x.1.kind().is_const()).map(|x| *x.0).collect();
    l.into_iter().for_each(|v| p.set_value_name(v, Some(n.clone())));
  }
}
