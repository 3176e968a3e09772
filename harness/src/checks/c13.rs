//! C13: the C header describes the library exactly.  A C program compiled with
//! the header walks programs; what it sees is compared with the model.

use super::c09::print_llvm;
use super::util::*;
use crate::api::{build, Opts};
use crate::extract::extract;
use crate::gen::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::{ensure, text};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn check() -> Check {
  Check {
    id: "C13",
    rule: "a C program compiled against koopa.h and linked with libkoopa.a parses generated texts, \
           walks their raw form (after deleting the program), converts it back and prints it; \
           builds generated raw programs by hand, with or without a defect; and calls every other \
           function of the header; what it prints is compared with the model and the Rust API; \
           non-trivial = at least three instructions",
    quick: 120_000,
    thorough: 4_800_000,
    tape: 500,
    run,
    fixed: Some(header),
    assumptions: &["gcc's idea of the C ABI on this machine"],
  }
}

struct Walker {
  c: Child,
  i: ChildStdin,
  o: ChildStdout,
  dir: PathBuf,
}

impl Drop for Walker {
  fn drop(&mut self) {
    let _ = self.c.kill();
    let _ = self.c.wait();
    let _ = std::fs::remove_dir_all(&self.dir);
  }
}

impl Walker {
  fn start(exe: &str) -> std::io::Result<Walker> {
    let dir = std::env::temp_dir().join(format!("kv-c13-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir)?;
    let mut c = Command::new(exe)
      .current_dir(&dir)
      .stdin(Stdio::piped())
      .stdout(Stdio::piped())
      .stderr(Stdio::null())
      .spawn()?;
    let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
    Ok(Walker { c, i, o, dir })
  }
  fn ask(&mut self, cmd: u8, s: &str) -> std::io::Result<String> {
    self.i.write_all(&[cmd])?;
    self.i.write_all(&(s.len() as u32).to_le_bytes())?;
    self.i.write_all(s.as_bytes())?;
    self.i.flush()?;
    let mut n = [0u8; 4];
    self.o.read_exact(&mut n)?;
    let mut v = vec![0; u32::from_le_bytes(n) as usize];
    self.o.read_exact(&mut v)?;
    Ok(String::from_utf8_lossy(&v).into())
  }
}

thread_local! {
  static WALKER: RefCell<Option<Walker>> = const { RefCell::new(None) };
}

/// Where `capi/build.sh` left its results.
fn capi() -> PathBuf {
  PathBuf::from(std::env::var("KV_CAPI").unwrap_or_default())
}

fn ask(cmd: u8, s: &str) -> Result<String, Fail> {
  WALKER.with(|w| {
    let mut w = w.borrow_mut();
    if w.is_none() {
      let exe = capi().join("walker");
      match Walker::start(exe.to_str().unwrap()) {
        Ok(x) => *w = Some(x),
        Err(e) if capi().join("error").exists() => {
          return Err(Fail { sig: "header unusable".into(), msg: format!("no C program: {e}") })
        }
        Err(e) => {
          println!("cannot start {exe:?}: {e}");
          std::process::exit(9);
        }
      }
    }
    let r = w.as_mut().unwrap().ask(cmd, s);
    r.map_err(|e| {
      let st = w.take().and_then(|mut x| x.c.wait().ok());
      Fail { sig: "C program dies".into(), msg: format!("the C program died: {e} {st:?}") }
    })
  })
}

/// The header compiles as C and C++, twice included; its error codes.
fn header(c: &mut Case) -> Res {
  c.describe("the header itself".into());
  if let Ok(e) = std::fs::read_to_string(capi().join("error")) {
    return fail("header unusable", format!("a C or C++ program using the header fails:\n{e}"));
  }
  let n = ask(b'N', "")?;
  ensure!(n == "5", "wrong error code", "KOOPA_EC_NULL_BYTE_ERROR is {n}, the library returns 5");
  Ok(())
}

// ---- what the walker must print ----

type Place = (char, usize, usize, usize);

fn show_place((w, f, b, i): Place) -> String {
  match w {
    'g' => format!("g{i}"),
    'f' => format!("f{f}"),
    'a' => format!("a{f}.{i}"),
    'b' => format!("b{f}.{b}"),
    'p' => format!("p{f}.{b}.{i}"),
    _ => format!("i{f}.{b}.{i}"),
  }
}

fn place(f: usize, o: &Op) -> Option<Place> {
  Some(match o {
    Op::Const(_) => return None,
    Op::Global(g) => ('g', 0, 0, *g),
    Op::Arg(i) => ('a', f, 0, *i),
    Op::Param(b, i) => ('p', f, *b, *i),
    Op::Inst(b, i) => ('i', f, *b, *i),
  })
}

fn konst(c: &Const) -> String {
  match c {
    Const::Int(i) => format!("int {i} i32"),
    Const::Zero(t) => format!("zero {}", t.show()),
    Const::Undef(t) => format!("undef {}", t.show()),
    Const::Agg(es, t) => {
      let es: Vec<_> = es.iter().map(konst).collect();
      format!("{{{}}} {}", es.join(", "), t.show())
    }
  }
}

fn op(f: usize, o: &Op) -> String {
  match (o, place(f, o)) {
    (Op::Const(c), _) => konst(c),
    (_, p) => show_place(p.unwrap()),
  }
}

fn ops(f: usize, v: &[Op]) -> String {
  let v: Vec<_> = v.iter().map(|o| op(f, o)).collect();
  format!("({})", v.join(", "))
}

fn edge(f: usize, e: &Edge) -> String {
  format!("b{f}.{}{}", e.to, ops(f, &e.args))
}

fn walk(s: &Spec) -> String {
  let mut users: std::collections::HashMap<Place, BTreeSet<Place>> = Default::default();
  for (fi, f) in s.funcs.iter().enumerate() {
    for (bi, b) in f.blocks.iter().enumerate() {
      for (ii, i) in b.insts.iter().enumerate() {
        let by = ('i', fi, bi, ii);
        for o in i.kind.ops() {
          if let Some(p) = place(fi, o) {
            users.entry(p).or_default().insert(by);
          }
        }
        for e in i.kind.edges() {
          users.entry(('b', fi, e.to, 0)).or_default().insert(by);
        }
      }
    }
  }
  let us = |p: Place| -> String {
    let v: Vec<_> = users.get(&p).into_iter().flatten().map(|p| show_place(*p)).collect();
    format!(" <{}>\n", v.join(" "))
  };
  let nm = |n: &Option<String>| n.clone().unwrap_or("-".into());
  let mut w = String::new();
  for (i, g) in s.globals.iter().enumerate() {
    let t = Ty::ptr(g.init.ty()).show();
    let _ = write!(w, "global {} {t} {}{}", nm(&g.name), konst(&g.init), us(('g', 0, 0, i)));
  }
  for (fi, f) in s.funcs.iter().enumerate() {
    let _ = writeln!(w, "function {} {}", f.name, f.ty().show());
    if !f.is_decl() {
      for (i, (n, t)) in f.params.iter().enumerate() {
        let _ = write!(w, "  param {} {} #{i}{}", nm(n), t.show(), us(('a', fi, 0, i)));
      }
    }
    for (bi, b) in f.blocks.iter().enumerate() {
      let _ = write!(w, "  block {} {}", nm(&b.name), us(('b', fi, bi, 0)));
      for (i, (n, t)) in b.params.iter().enumerate() {
        let _ = write!(w, "    param {} {} #{i}{}", nm(n), t.show(), us(('p', fi, bi, i)));
      }
      for (ii, i) in b.insts.iter().enumerate() {
        let o = |x: &Op| op(fi, x);
        let k = match &i.kind {
          Kind::Alloc(_) => "alloc".into(),
          Kind::Load(a) => format!("load {}", o(a)),
          Kind::Store(a, b) => format!("store {} to {}", o(a), o(b)),
          Kind::GetPtr(a, b) => format!("getptr {} at {}", o(a), o(b)),
          Kind::GetElemPtr(a, b) => format!("getelemptr {} at {}", o(a), o(b)),
          Kind::Bin(p, a, b) => format!("{} {} and {}", p.name(), o(a), o(b)),
          Kind::Call(c, v) => format!("call f{c}{}", ops(fi, v)),
          Kind::Br(c, x, y) => format!("branch {} to {} else {}", o(c), edge(fi, x), edge(fi, y)),
          Kind::Jump(e) => format!("jump {}", edge(fi, e)),
          Kind::Ret(None) => "return null".into(),
          Kind::Ret(Some(v)) => format!("return {}", o(v)),
        };
        let _ =
          write!(w, "    inst {} {} {k}{}", nm(&i.name), i.ty.show(), us(('i', fi, bi, ii)));
      }
    }
  }
  w
}

/// What a program looks like printed through buffers.
fn dumped(s: &str) -> String {
  format!("success {}\ninsufficient-buffer-length\nsuccess\n{s}\n", s.len())
}

// ---- recipes ----

fn r_ty(t: &Ty, o: &mut Vec<String>) {
  match t {
    Ty::I32 => o.push("i".into()),
    Ty::Unit => o.push("u".into()),
    Ty::Arr(b, n) => {
      o.extend(["a".into(), n.to_string()]);
      r_ty(b, o)
    }
    Ty::Ptr(b) => {
      o.push("p".into());
      r_ty(b, o)
    }
    Ty::Fun(ps, r) => {
      o.extend(["f".into(), ps.len().to_string()]);
      ps.iter().for_each(|p| r_ty(p, o));
      r_ty(r, o)
    }
  }
}

fn r_const(c: &Const, o: &mut Vec<String>) {
  match c {
    Const::Int(i) => o.extend(["I".into(), i.to_string()]),
    Const::Zero(_) => o.push("Z".into()),
    Const::Undef(_) => o.push("U".into()),
    Const::Agg(es, _) => {
      o.extend(["A".into(), es.len().to_string()]);
      es.iter().for_each(|e| r_const(e, o))
    }
  }
  r_ty(&c.ty(), o)
}

fn r_op(p: &Op, o: &mut Vec<String>) {
  match p {
    Op::Const(c) => {
      o.push("c".into());
      r_const(c, o)
    }
    Op::Global(g) => o.extend(["g".into(), g.to_string()]),
    Op::Arg(i) => o.extend(["r".into(), i.to_string()]),
    Op::Param(b, i) => o.extend(["q".into(), b.to_string(), i.to_string()]),
    Op::Inst(b, i) => o.extend(["v".into(), b.to_string(), i.to_string()]),
  }
}

fn r_ops(v: &[Op], o: &mut Vec<String>) {
  o.push(v.len().to_string());
  v.iter().for_each(|p| r_op(p, o));
}

fn recipe(s: &Spec, defect: &str) -> String {
  let mut o: Vec<String> = vec![defect.into()];
  let nm = |n: &Option<String>| n.clone().unwrap_or("-".into());
  o.push(s.globals.len().to_string());
  for g in &s.globals {
    o.push(nm(&g.name));
    r_ty(&Ty::ptr(g.init.ty()), &mut o);
    r_const(&g.init, &mut o);
  }
  o.push(s.funcs.len().to_string());
  let params = |ps: &[(Option<String>, Ty)], o: &mut Vec<String>| {
    o.push(ps.len().to_string());
    for (n, t) in ps {
      o.push(nm(n));
      r_ty(t, o);
    }
  };
  for f in &s.funcs {
    o.push(f.name.clone());
    r_ty(&f.ty(), &mut o);
    params(&f.params, &mut o);
    o.push(f.blocks.len().to_string());
    for b in &f.blocks {
      o.push(nm(&b.name));
      params(&b.params, &mut o);
      o.push(b.insts.len().to_string());
    }
  }
  for i in s.funcs.iter().flat_map(|f| &f.blocks).flat_map(|b| &b.insts) {
    o.push(nm(&i.name));
    r_ty(&i.ty, &mut o);
    match &i.kind {
      Kind::Alloc(_) => o.push("alloc".into()),
      Kind::Load(a) => {
        o.push("load".into());
        r_op(a, &mut o);
      }
      Kind::Store(a, b) | Kind::GetPtr(a, b) | Kind::GetElemPtr(a, b) | Kind::Bin(_, a, b) => {
        o.push(
          match &i.kind {
            Kind::Store(..) => "store",
            Kind::GetPtr(..) => "getptr",
            Kind::GetElemPtr(..) => "getelemptr",
            Kind::Bin(p, ..) => p.name(),
            _ => unreachable!(),
          }
          .into(),
        );
        r_op(a, &mut o);
        r_op(b, &mut o);
      }
      Kind::Call(c, v) => {
        o.extend(["call".into(), c.to_string()]);
        r_ops(v, &mut o);
      }
      Kind::Br(c, x, y) => {
        o.push("branch".into());
        r_op(c, &mut o);
        for e in [x, y] {
          o.push(e.to.to_string());
          r_ops(&e.args, &mut o);
        }
      }
      Kind::Jump(e) => {
        o.extend(["jump".into(), e.to.to_string()]);
        r_ops(&e.args, &mut o);
      }
      Kind::Ret(v) => {
        o.push("return".into());
        match v {
          Some(v) => r_op(v, &mut o),
          None => o.push("-".into()),
        }
      }
    }
  }
  o.join(" ")
}

// ---- the check ----

fn same(what: &str, want: &str, got: &str) -> Res {
  if want == got {
    return Ok(());
  }
  let (w, g): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
  let n = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
  let part = |v: &[&str]| v[n.saturating_sub(3).min(v.len())..(n + 4).min(v.len())].join("\n");
  let sig = if got.contains("!slice") || got.contains(" ?") { "foreign item" } else { what };
  fail(
    sig,
    format!("{what}: around line {n}, expected\n{}\n--- but the C program sees ---\n{}", part(&w), part(&g)),
  )
}

/// Whether the order of phi operands in LLVM IR is up to chance (and with it
/// the names of what they mention).
fn has_phi_choice(s: &Spec) -> bool {
  s.funcs.iter().any(|f| {
    let mut preds = vec![0; f.blocks.len()];
    for b in 0..f.blocks.len() {
      let to: BTreeSet<usize> = f.succs(b).into_iter().collect();
      to.into_iter().for_each(|t| preds[t] += 1);
    }
    f.blocks.iter().zip(preds).any(|(b, n)| n > 1 && !b.params.is_empty())
  })
}

fn read_by_c(src: &str, c: &mut Case) -> Res {
  let p = or("text rejected", parse(src), src)?;
  let s = or("invalid program", extract(&p), src)?;
  c.class("text");
  let want = format!("success\n{}success\n{}", walk(&s), dumped(&or("print", print(&p), "")?));
  same("program read by C", &want, &ask(b'P', src)?)
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let mut it = t.fork(12);
  match it.weighted(&[10, 8, 4]) {
    0 => {
      let mut cfg = Cfg::text();
      cfg.unreachable = it.chance(20);
      let s = gen_spec(t, &cfg);
      let src = text::random(t, &s);
      c.describe(src.clone());
      c.nontrivial = s.n_insts() >= 3;
      read_by_c(&src, c)
    }
    1 => {
      let mut cfg = Cfg::api();
      cfg.unreachable = it.chance(20);
      let s = gen_spec(t, &cfg);
      c.nontrivial = s.n_insts() >= 3;
      let def = |f: &Func| !f.is_decl() && !f.params.is_empty();
      let mut ds = vec![("kind", "raw-slice-item-kind-mismatch")];
      if let Some(f) = s.funcs.first() {
        ds.push(("name", "null-pointer-error"));
        ds.push(("type", "type-mismatch"));
        ds.push(("utf8", "invalid-utf8-string"));
        if def(f) {
          ds.push(("params", "func-param-num-mismatch"));
        }
      }
      if it.chance(25) {
        let (d, code) = *it.pick(&ds);
        c.describe(format!("{s:?} {d}"));
        c.class("damaged recipe");
        return same("damaged program", &format!("{code} unchanged\n"), &ask(b'R', &recipe(&s, d))?);
      }
      c.describe(format!("{s:?}"));
      c.class("recipe");
      let (p, _) = build(&s, Opts::default());
      let want =
        format!("success set\n{}{}", dumped(&or("print", print(&p), "")?), walk(&s));
      same("program built by C", &want, &ask(b'R', &recipe(&s, "none"))?)
    }
    _ => {
      let mut cfg = Cfg::text();
      (cfg.max_funcs, cfg.max_blocks, cfg.max_insts) = (3, 5, 5);
      let s = gen_spec(t, &cfg);
      let src = text::random(t, &s);
      c.describe(src.clone());
      c.nontrivial = s.n_insts() >= 3;
      if has_phi_choice(&s) {
        return read_by_c(&src, c);
      }
      c.class("files");
      let p = or("text rejected", parse(&src), &src)?;
      let (k1, l1) = (or("print", print(&p), "")?, or("llvm", print_llvm(&p), "")?);
      let q = or("text rejected", parse(&k1), &k1)?;
      let k2 = or("print", print(&q), "")?;
      let r = or("text rejected", parse(&k2), &k2)?;
      let (k3, l3) = (or("print", print(&r), "")?, or("llvm", print_llvm(&r), "")?);
      let ok = "success\n";
      let full = if k3.is_empty() { "success" } else { "io-error" };
      let want = format!(
        "invalid-file\ninvalid-utf8-string\ninvalid-koopa-program\nunchanged\n{ok}{}{}{ok}{ok}{ok}{ok}{k2}\n{ok}{l3}\n{ok}{l3}\n{ok}{k3}\n{ok}{l3}\n{full}\ninvalid-file\n",
        dumped(&k1),
        dumped(&l1),
      );
      same("files", &want, &ask(b'F', &src)?)
    }
  }
}
