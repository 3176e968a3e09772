//! C23: what the C interface hands out lives until it is deleted, no longer.

use crate::gen::*;
use crate::raw::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::{alloc, ensure, mutate, text};
use std::ffi::{c_char, c_void, CString};
use std::os::fd::IntoRawFd;
use std::path::PathBuf;
use std::ptr::{null, null_mut};

pub fn check() -> Check {
  Check {
    id: "C23",
    rule: "histories of 4-14 calls of the C functions: programs are parsed (from valid and damaged \
           texts, strings, files and descriptors), turned into raw form (each raw builder used for \
           several programs), converted back (also from raw programs with a defect that is repaired \
           afterwards), printed, and deleted in any order; every raw program alive is read again \
           after each call; each history is run twice, and the second run must leave exactly as \
           much memory and as many descriptors as it found; freed memory is overwritten; non-trivial = \
           at least one raw program read after another item was deleted",
    quick: 120_000,
    thorough: 2_400_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["types are interned per thread and never freed"],
  }
}

#[derive(Debug, Clone)]
enum Act {
  Str(usize),
  File(usize),
  Fd(usize),
  NewBuilder,
  Build(usize, usize),
  Gen(usize),
  GenBad(usize, usize, usize),
  Print(usize, bool),
  PrintFile(usize, bool),
  PrintFd(usize, bool),
  Small(usize, bool),
  DelProg(usize),
  DelBuilder(usize),
}

struct Live {
  progs: Vec<(Owned, usize)>,
  builders: Vec<(Builder, Vec<(Prog, usize)>)>,
}

struct Env {
  texts: Vec<(CString, PathBuf)>,
  out: PathBuf,
  want: std::cell::RefCell<Vec<Option<String>>>,
}

fn path_c(p: &std::path::Path) -> CString {
  CString::new(p.to_str().unwrap()).unwrap()
}

/// What a raw program says, as one string.
fn shown(raw: &Prog) -> Result<String, Fail> {
  match read(raw) {
    Ok(v) => Ok(format!("{:?}", v.spec)),
    Err(e) => fail("raw program damaged", e),
  }
}

fn reread(l: &Live, views: &mut Vec<(usize, usize, String)>) -> Res {
  for (b, (_, raws)) in l.builders.iter().enumerate() {
    for (i, (r, _)) in raws.iter().enumerate() {
      let s = shown(r)?;
      match views.iter().find(|v| v.0 == b && v.1 == i) {
        Some(v) => ensure!(v.2 == s, "raw program changed", "builder {b}, program {i}:\n{}\n--- became ---\n{s}", v.2),
        None => views.push((b, i, s)),
      }
    }
  }
  Ok(())
}

/// Runs a history; `deep` reads every raw program after each call.
fn play(acts: &[Act], env: &Env, deep: bool) -> Result<bool, Fail> {
  let mut l = Live { progs: vec![], builders: vec![] };
  let mut views = vec![];
  let mut deleted = false;
  let mut useful = false;
  let mark = 0x1234_5678_usize as *mut c_void;
  for a in acts {
    let np = l.progs.len();
    let nb = l.builders.len();
    let nr: usize = l.builders.iter().map(|b| b.1.len()).sum();
    let raw_at = |k: usize| {
      let k = k % nr;
      let mut all = vec![];
      for (b, x) in l.builders.iter().enumerate() {
        for i in 0..x.1.len() {
          all.push((b, i));
        }
      }
      all[k]
    };
    match *a {
      Act::Str(i) | Act::File(i) | Act::Fd(i) => {
        let mut p = mark;
        let (s, f) = &env.texts[i];
        let code = match a {
          Act::Str(_) => unsafe { koopa_parse_from_string(s.as_ptr(), &mut p) },
          Act::File(_) => unsafe { koopa_parse_from_file(path_c(f).as_ptr(), &mut p) },
          _ => {
            let fd = std::fs::File::open(f).unwrap().into_raw_fd();
            unsafe { koopa_parse_from_raw(fd, &mut p) }
          }
        };
        ensure!((code == 0) == (p != mark), "output and code differ", "error code {code}");
        if code == 0 {
          l.progs.push((Owned(p), i));
        }
      }
      Act::NewBuilder => l.builders.push((Builder::new(), vec![])),
      Act::Build(b, p) if np > 0 && nb > 0 => {
        let (q, ti) = &l.progs[p % np];
        let raw = l.builders[b % nb].0.build(q.get());
        l.builders[b % nb].1.push((raw, *ti));
      }
      Act::Gen(k) if nr > 0 => {
        let (b, i) = raw_at(k);
        let (raw, ti) = &l.builders[b].1[i];
        let ti = *ti;
        match generate(raw) {
          Ok(o) => l.progs.push((o, ti)),
          Err(e) => return fail("refused", format!("raw program refused with error code {e}")),
        }
      }
      Act::GenBad(k, what, at) if nr > 0 => {
        let (b, i) = raw_at(k);
        let raw = &l.builders[b].1[i].0;
        let fs: Vec<*mut FuncD> =
          (0..raw.funcs.len as usize).map(|j| unsafe { *(raw.funcs.buf as *const *mut FuncD).add(j) }).collect();
        let mut own = Prog { values: raw.values, funcs: raw.funcs };
        let mut undo: Option<Box<dyn FnOnce()>> = None;
        match what {
          0 => own.values.kind ^= 1,
          1 => own.funcs.kind ^= 1,
          _ if fs.is_empty() => own.funcs.kind ^= 2,
          2 => {
            let f = fs[at % fs.len()];
            let old = unsafe { std::mem::replace(&mut (*f).name, null()) };
            undo = Some(Box::new(move || unsafe { (*f).name = old }));
          }
          _ => {
            let f = fs[at % fs.len()];
            // the last block of the function says its instructions are blocks
            let bbs = unsafe { &(*f).bbs };
            if bbs.len == 0 {
              own.funcs.kind ^= 2;
            } else {
              let d = unsafe { *(bbs.buf as *const *mut BlockD).add(bbs.len as usize - 1) };
              unsafe { (*d).insts.kind ^= 1 };
              undo = Some(Box::new(move || unsafe { (*d).insts.kind ^= 1 }));
            }
          }
        }
        let r = generate(&own);
        if let Some(u) = undo {
          u();
        }
        match r {
          Ok(_) => return fail("defect accepted", format!("defect {what}")),
          Err(e) => ensure!(e > 0, "output written", "error code {e}"),
        }
      }
      Act::Print(p, ll) if np > 0 => {
        let f = if ll { koopa_dump_llvm_to_string } else { koopa_dump_to_string };
        let q = l.progs[p % np].0 .0;
        let mut n = 0;
        let c = unsafe { f(q, null_mut(), &mut n) };
        ensure!(c == 0, "dump", "error code {c}");
        let mut buf = vec![0u8; n + 1];
        n += 1;
        let c = unsafe { f(q, buf.as_mut_ptr() as *mut c_char, &mut n) };
        ensure!(c == 0, "dump", "error code {c}");
        if !ll {
          // each program still says what its text said
          let ti = l.progs[p % np].1;
          let got = String::from_utf8_lossy(&buf).into_owned();
          let mut w = env.want.borrow_mut();
          match &w[ti] {
            Some(x) => ensure!(*x == got, "program changed", "{x}\n--- became ---\n{got}"),
            None => w[ti] = Some(got),
          }
        }
      }
      Act::PrintFile(p, ll) if np > 0 => {
        let f = if ll { koopa_dump_llvm_to_file } else { koopa_dump_to_file };
        let c = unsafe { f(l.progs[p % np].0 .0, path_c(&env.out).as_ptr()) };
        ensure!(c == 0, "dump", "error code {c}");
      }
      Act::PrintFd(p, ll) if np > 0 => {
        let f = if ll { koopa_dump_llvm_to_raw } else { koopa_dump_to_raw };
        let fd = std::fs::File::create(&env.out).unwrap().into_raw_fd();
        let c = unsafe { f(l.progs[p % np].0 .0, fd) };
        ensure!(c == 0, "dump", "error code {c}");
      }
      Act::Small(p, ll) if np > 0 => {
        let f = if ll { koopa_dump_llvm_to_string } else { koopa_dump_to_string };
        let mut n = 0;
        let mut b = [0u8; 1];
        let c = unsafe { f(l.progs[p % np].0 .0, b.as_mut_ptr() as *mut c_char, &mut n) };
        ensure!(c == 6, "small buffer accepted", "error code {c}");
      }
      Act::DelProg(p) if np > 0 => {
        l.progs.swap_remove(p % np);
        deleted = true;
      }
      Act::DelBuilder(b) if nb > 0 => {
        let b = b % nb;
        l.builders.remove(b);
        views.retain(|v: &(usize, usize, String)| v.0 != b);
        for v in &mut views {
          if v.0 > b {
            v.0 -= 1;
          }
        }
        deleted = true;
      }
      _ => {}
    }
    if deep {
      reread(&l, &mut views)?;
      useful |= deleted && !views.is_empty();
    }
  }
  Ok(useful)
}

fn fds() -> usize {
  std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut ops = t.fork(120);
  let dir = std::env::temp_dir().join(format!("kv-c23-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  struct Rm(PathBuf);
  impl Drop for Rm {
    fn drop(&mut self) {
      let _ = std::fs::remove_dir_all(&self.0);
    }
  }
  let _rm = Rm(dir.clone());
  let nt = ops.range(1, 3);
  let mut env = Env { texts: vec![], out: dir.join("out"), want: Default::default() };
  let mut descr = String::new();
  for i in 0..nt {
    let mut ft = t.fork(160.max(t.rest() / 4));
    let mut cfg = Cfg::text();
    (cfg.max_funcs, cfg.max_blocks, cfg.max_insts) = (3, 4, 5);
    let s = gen_spec(&mut ft, &cfg);
    let mut toks = text::tokens(&mut ft, &s).0;
    if ops.chance(25) {
      for _ in 0..ops.range(1, 3) {
        mutate::mutate(&mut ops, &mut toks);
      }
    }
    let s = text::layout(&mut ft, &toks, 0).0;
    let f = dir.join(format!("t{i}"));
    std::fs::write(&f, &s).unwrap();
    descr.push_str(&format!("--- text {i} ---\n{s}\n"));
    env.texts.push((CString::new(s).unwrap(), f));
  }
  *env.want.borrow_mut() = vec![None; nt];
  let n = ops.range(4, 14);
  let mut acts = vec![Act::Str(0), Act::NewBuilder, Act::Build(0, 0)];
  for _ in 0..n {
    let (i, j) = (ops.below(4), ops.below(4));
    let ll = ops.chance(40);
    acts.push(match ops.weighted(&[2, 1, 1, 2, 5, 4, 3, 2, 1, 1, 1, 3, 2]) {
      0 => Act::Str(i % nt),
      1 => Act::File(i % nt),
      2 => Act::Fd(i % nt),
      3 => Act::NewBuilder,
      4 => Act::Build(i, j),
      5 => Act::Gen(i),
      6 => Act::GenBad(i, j, ops.below(4)),
      7 => Act::Print(i, ll),
      8 => Act::PrintFile(i, ll),
      9 => Act::PrintFd(i, ll),
      10 => Act::Small(i, ll),
      11 => Act::DelProg(i),
      _ => Act::DelBuilder(i),
    });
  }
  c.describe(format!("{acts:?}\n{descr}"));
  c.class_if(acts.iter().any(|a| matches!(a, Act::GenBad(..))), "defective raw programs");
  c.class_if(acts.iter().any(|a| matches!(a, Act::DelBuilder(..))), "builders deleted in between");
  c.nontrivial = play(&acts, &env, true)?;
  let (m0, f0) = (alloc::live(), fds());
  play(&acts, &env, false)?;
  let (m1, f1) = (alloc::live(), fds());
  ensure!(
    m0 == m1,
    "memory left",
    "{} bytes in {} blocks more than before\n{acts:?}\n{descr}",
    m1.0 - m0.0,
    m1.1 - m0.1
  );
  ensure!(f0 == f1, "descriptors left", "{f1} descriptors open, {f0} before\n{acts:?}\n{descr}");
  Ok(())
}
