//! C14: the C functions read and write programs as documented.

use super::c09::print_llvm;
use super::util::*;
use crate::api::{build, Opts};
use crate::gen::*;
use crate::raw::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::{ensure, mutate, text};
use koopa::front::{span::FileType, Driver};
use koopa::ir::Program;
use std::ffi::{c_char, c_void, CString};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, IntoRawFd};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::ptr::null_mut;

pub fn check() -> Check {
  Check {
    id: "C14",
    rule: "histories of 3-8 calls of the C functions over valid, damaged and random texts and \
           programs built in memory: parsing from strings, files, descriptors (from an offset, \
           pipes), standard input, and files that are missing, directories or unreadable names; \
           printing both forms to buffers of every size, files, descriptors, standard output, \
           full devices; each call is compared with the Rust API; non-trivial = at least one \
           text read and one program written",
    quick: 150_000,
    thorough: 6_000_000,
    tape: 500,
    run,
    fixed: None,
    assumptions: &["callers own the descriptors and pointers they pass"],
  }
}

unsafe extern "C" {
  fn dup(fd: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(fd: i32) -> i32;
  fn pipe(fds: *mut i32) -> i32;
  fn fork() -> i32;
  fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
  fn _exit(c: i32) -> !;
}

/// A directory of this process, removed in the end.
struct Scratch(PathBuf);

impl Scratch {
  fn new() -> Self {
    let p = std::env::temp_dir().join(format!("kv-c14-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).unwrap();
    Self(p)
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = fs::remove_dir_all(&self.0);
  }
}

/// Runs `f` with descriptor `n` being `fd`.
fn with_fd<T>(n: i32, fd: i32, f: impl FnOnce() -> T) -> T {
  unsafe {
    let old = dup(n);
    dup2(fd, n);
    let r = f();
    if old >= 0 {
      dup2(old, n);
      close(old);
    } else {
      close(n);
    }
    r
  }
}

fn path_c(p: &std::path::Path) -> CString {
  CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// What the Rust API says about a text.
fn rust<R: Read>(r: R) -> Option<Program> {
  Driver::new(FileType::Buffer, r).generate_program().ok()
}

fn words(t: &mut Tape) -> Vec<u8> {
  let n = t.below(12);
  let mut v = vec![];
  for _ in 0..n {
    let w: &[u8] = *t.pick(&[
      b"fun" as &[u8],
      b" @f",
      b"(",
      b")",
      b"{\n",
      b"}\n",
      b"%e:\n",
      b"ret",
      b" 1",
      b"// x\n",
      b"/*",
      b"\xff",
      b"decl @g()\n",
      b"\n",
    ]);
    v.extend(w);
  }
  v
}

/// The phi operands of LLVM text come in no particular order.
fn norm(s: &str) -> String {
  let mut out = String::new();
  for l in s.lines() {
    if l.contains(" = phi ") {
      let mut v: Vec<&str> = l.split_whitespace().map(|x| x.trim_end_matches(',')).collect();
      v.sort();
      out.push_str(&format!("{v:?}\n"));
      continue;
    }
    out.push_str(l);
    out.push('\n');
  }
  out
}

type Dump = unsafe extern "C" fn(*const c_void, *mut c_char, *mut usize) -> i32;

struct St<'a> {
  dir: &'a Scratch,
  progs: Vec<(Owned, String, String)>,
  log: String,
}

const MARK: *mut c_void = 0x1234_5678_usize as *mut c_void;

impl St<'_> {
  fn note(&mut self, s: String) {
    self.log.push_str(&s);
    self.log.push('\n');
  }

  /// Judges the outcome of a parse function.
  fn parsed(&mut self, what: &str, code: i32, out: *mut c_void, want: Option<Program>, bad: i32) -> Res {
    match want {
      Some(w) => {
        ensure!(code == 0, "refused", "{what}: error code {code}");
        ensure!(out != MARK && !out.is_null(), "no program", "{what}: the pointer was not set");
        let o = Owned(out);
        let (a, b) = (or("print", print(&w), "")?, or("print", print(o.get()), "")?);
        ensure!(a == b, "other program", "{what}\n{a}\n--- and ---\n{b}");
        // the order of phi operands, and so names, may differ between two programs
        let l = or("llvm", print_llvm(o.get()), "")?;
        self.progs.push((o, a, l));
        Ok(())
      }
      None => {
        ensure!(code == bad, "wrong error code", "{what}: error code {code}, not {bad}");
        ensure!(out == MARK, "output written", "{what}: failed, but the pointer was set");
        Ok(())
      }
    }
  }

  fn parse(&mut self, t: &mut Tape, src: &[u8]) -> Res {
    let mut out = MARK;
    let utf8 = std::str::from_utf8(src).is_ok();
    match t.below(9) {
      0 | 1 => {
        let mut s = src.to_vec();
        s.retain(|b| *b != 0);
        let c = CString::new(s.clone()).unwrap();
        self.note(format!("parse string {:?}", String::from_utf8_lossy(&s)));
        let code = unsafe { koopa_parse_from_string(c.as_ptr(), &mut out) };
        if !utf8 {
          return self.parsed("parse string", code, out, None, 1);
        }
        self.parsed("parse string", code, out, rust(&s[..]), 3)
      }
      2 | 3 => {
        let name = *t.pick(&["a.koopa", "b", "\u{e9}t\u{e9} x", "."]);
        let dir = name == ".";
        let p = if dir { self.dir.0.clone() } else { self.dir.0.join(name) };
        if !dir {
          fs::write(&p, src).unwrap();
        }
        self.note(format!("parse file {p:?} {:?}", String::from_utf8_lossy(src)));
        let code = unsafe { koopa_parse_from_file(path_c(&p).as_ptr(), &mut out) };
        let want = if dir { None } else { rust(src) };
        self.parsed("parse file", code, out, want, 3)
      }
      4 => {
        let (p, want): (Vec<u8>, i32) = match t.below(3) {
          0 => (self.dir.0.join("missing.koopa").as_os_str().as_bytes().to_vec(), 2),
          1 => (b"".to_vec(), 2),
          _ => ([self.dir.0.as_os_str().as_bytes(), b"/\xff\xfe"].concat(), 1),
        };
        if want == 1 {
          fs::write(std::path::Path::new(std::ffi::OsStr::from_bytes(&p)), src).unwrap();
        }
        self.note(format!("parse file {:?}", String::from_utf8_lossy(&p)));
        let c = CString::new(p).unwrap();
        let code = unsafe { koopa_parse_from_file(c.as_ptr(), &mut out) };
        self.parsed("parse file", code, out, None, want)
      }
      5 => {
        let p = self.dir.0.join("in");
        fs::write(&p, src).unwrap();
        let f = fs::File::open(&p).unwrap();
        self.note(format!("parse stdin {:?}", String::from_utf8_lossy(src)));
        let code = with_fd(0, f.as_raw_fd(), || {
          let c = unsafe { koopa_parse_from_stdin(&mut out) };
          // what a rejected text left unread is no part of the next one
          let _ = std::io::stdin().read_to_end(&mut vec![]);
          c
        });
        self.parsed("parse stdin", code, out, rust(src), 3)
      }
      6 => {
        // a descriptor is read from where it stands
        let p = self.dir.0.join("in");
        let skip = t.below(20);
        let mut all = vec![b'}'; skip];
        all.extend(src);
        fs::write(&p, &all).unwrap();
        let mut f = fs::File::open(&p).unwrap();
        f.seek(SeekFrom::Start(skip as u64)).unwrap();
        self.note(format!("parse fd from {skip} {:?}", String::from_utf8_lossy(src)));
        let code = unsafe { koopa_parse_from_raw(f.into_raw_fd(), &mut out) };
        self.parsed("parse fd", code, out, rust(src), 3)
      }
      7 => {
        // a pipe that is written to in pieces
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0);
        self.note(format!("parse pipe {:?}", String::from_utf8_lossy(src)));
        let step = 1 + t.below(300);
        let data = src.to_vec();
        let w = fds[1];
        let h = std::thread::spawn(move || {
          let mut f: fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(w) };
          for p in data.chunks(step) {
            // the reader may have gone away
            if f.write_all(p).is_err() {
              break;
            }
          }
        });
        let code = unsafe { koopa_parse_from_raw(fds[0], &mut out) };
        h.join().unwrap();
        self.parsed("parse pipe", code, out, rust(src), 3)
      }
      _ => {
        // a descriptor that cannot be read
        let p = self.dir.0.join("wo");
        fs::write(&p, src).unwrap();
        let f = fs::OpenOptions::new().write(true).open(&p).unwrap();
        self.note("parse write-only fd".into());
        let code = unsafe { koopa_parse_from_raw(f.into_raw_fd(), &mut out) };
        self.parsed("parse write-only fd", code, out, None, 3)
      }
    }
  }

  fn dump(&mut self, t: &mut Tape, p: *const c_void, ko: &str, ll: &str) -> Res {
    let llvm = t.chance(40);
    let want = if llvm { ll } else { ko };
    let form = if llvm { "LLVM" } else { "Koopa" };
    let same = |got: &[u8]| -> bool {
      if llvm {
        std::str::from_utf8(got).is_ok_and(|g| g.len() == want.len() && norm(g) == norm(want))
      } else {
        got == want.as_bytes()
      }
    };
    let show = |got: &[u8]| format!("{want}\n--- and ---\n{}", String::from_utf8_lossy(got));
    match t.below(9) {
      0..=3 => {
        let f: Dump = if llvm { koopa_dump_llvm_to_string } else { koopa_dump_to_string };
        let mut len = *t.pick(&[0usize, 7, usize::MAX]);
        let code = unsafe { f(p, null_mut(), &mut len) };
        ensure!(code == 0, "refused", "{form} length query: error code {code}");
        ensure!(len == want.len(), "wrong length", "{form}: {len} reported, {} needed", want.len());
        let cap = match t.below(6) {
          0 => 0,
          1 => want.len(),
          2 => want.len() + 1,
          3 => want.len().saturating_sub(1),
          4 => want.len() + 2 + t.below(50),
          _ => t.below(want.len() + 2),
        };
        self.note(format!("dump {form} to a buffer of {cap} ({} needed)", want.len() + 1));
        let mut buf = vec![0xA5u8; cap + 64];
        let mut n = cap;
        let code = unsafe { f(p, buf.as_mut_ptr().add(32) as *mut c_char, &mut n) };
        ensure!(n == cap, "length written", "{form}: the capacity {cap} became {n}");
        let (ok, used) = if cap > want.len() { (0, want.len() + 1) } else { (6, 0) };
        ensure!(code == ok, "wrong error code", "{form}: {code} for a buffer of {cap}, {} needed", want.len() + 1);
        for (i, b) in buf.iter().enumerate() {
          ensure!(
            (i >= 32 && i < 32 + used) || *b == 0xA5,
            "buffer overrun",
            "{form}: byte {} of a buffer of {cap} was written, {} needed",
            i as i64 - 32,
            want.len() + 1
          );
        }
        if used > 0 {
          ensure!(same(&buf[32..32 + want.len()]), "other text", "{}", show(&buf[32..32 + want.len()]));
          ensure!(buf[32 + want.len()] == 0, "no terminator", "{form}: the text does not end with NUL");
        }
        Ok(())
      }
      4 => {
        let path = self.dir.0.join(t.pick(&["out", "\u{fc}"]));
        if t.chance(60) {
          // longer content from before
          fs::write(&path, vec![b'#'; want.len() + t.below(100)]).unwrap();
        } else {
          let _ = fs::remove_file(&path);
        }
        self.note(format!("dump {form} to a file"));
        let f = if llvm { koopa_dump_llvm_to_file } else { koopa_dump_to_file };
        let code = unsafe { f(p, path_c(&path).as_ptr()) };
        ensure!(code == 0, "refused", "{form} to a file: error code {code}");
        let got = fs::read(&path).unwrap();
        ensure!(same(&got), "other text", "{}", show(&got));
        Ok(())
      }
      5 => {
        let (path, code0): (Vec<u8>, i32) = match t.below(4) {
          0 => (self.dir.0.join("no/such").as_os_str().as_bytes().to_vec(), 2),
          1 => (self.dir.0.as_os_str().as_bytes().to_vec(), 2),
          2 => ([self.dir.0.as_os_str().as_bytes(), b"/\xfe"].concat(), 1),
          _ => (b"/dev/full".to_vec(), if want.is_empty() { 0 } else { 4 }),
        };
        self.note(format!("dump {form} to {:?}", String::from_utf8_lossy(&path)));
        let f = if llvm { koopa_dump_llvm_to_file } else { koopa_dump_to_file };
        let c = CString::new(path.clone()).unwrap();
        let code = unsafe { f(p, c.as_ptr()) };
        ensure!(code == code0, "wrong error code", "{form} to {:?}: {code}, not {code0}", String::from_utf8_lossy(&path));
        Ok(())
      }
      6 => {
        let path = self.dir.0.join("out");
        fs::write(&path, b"").unwrap();
        let f = fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
        self.note(format!("dump {form} to standard output"));
        let g = if llvm { koopa_dump_llvm_to_stdout } else { koopa_dump_to_stdout };
        let (code, got) = with_fd(1, f.as_raw_fd(), || {
          let c = unsafe { g(p) };
          // a C program does not flush Rust's buffer
          let got = fs::read(&path).unwrap();
          let _ = std::io::stdout().flush();
          (c, got)
        });
        ensure!(code == 0, "refused", "{form} to stdout: error code {code}");
        ensure!(same(&got), "other text", "{}", show(&got));
        Ok(())
      }
      7 => {
        let g = if llvm { koopa_dump_llvm_to_raw } else { koopa_dump_to_raw };
        match t.below(3) {
          0 => {
            // at the offset of the descriptor
            let path = self.dir.0.join("out");
            let skip = t.below(9);
            let mut f = fs::File::create(&path).unwrap();
            f.write_all(&vec![b'#'; skip]).unwrap();
            self.note(format!("dump {form} to a descriptor at {skip}"));
            let code = unsafe { g(p, f.into_raw_fd()) };
            ensure!(code == 0, "refused", "{form} to a descriptor: error code {code}");
            let got = fs::read(&path).unwrap();
            ensure!(got.len() >= skip && same(&got[skip..]), "other text", "{}", show(&got));
          }
          1 => {
            let mut fds = [0i32; 2];
            assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0);
            self.note(format!("dump {form} to a pipe"));
            let r = fds[0];
            let h = std::thread::spawn(move || {
              let mut f: fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(r) };
              let mut v = vec![];
              let _ = f.read_to_end(&mut v);
              v
            });
            let code = unsafe { g(p, fds[1]) };
            let got = h.join().unwrap();
            ensure!(code == 0, "refused", "{form} to a pipe: error code {code}");
            ensure!(same(&got), "other text", "{}", show(&got));
          }
          _ => {
            let full = t.chance(50);
            let f = if full {
              fs::OpenOptions::new().write(true).open("/dev/full").unwrap()
            } else {
              fs::File::open(&self.dir.0).unwrap()
            };
            self.note(format!("dump {form} to a descriptor that fails"));
            let code = unsafe { g(p, f.into_raw_fd()) };
            let w = if want.is_empty() { 0 } else { 4 };
            ensure!(code == w, "wrong error code", "{form} to a failing descriptor: {code}, not {w}");
          }
        }
        Ok(())
      }
      _ => {
        if !t.chance(20) || want.is_empty() {
          return Ok(());
        }
        // standard output on a full device, in a process of its own
        self.note(format!("dump {form} to a full standard output"));
        let g = if llvm { koopa_dump_llvm_to_stdout } else { koopa_dump_to_stdout };
        let code = unsafe {
          let pid = fork();
          if pid == 0 {
            let f = fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
            dup2(f.as_raw_fd(), 1);
            _exit(g(p) & 0x7f);
          }
          let mut st = 0;
          waitpid(pid, &mut st, 0);
          if st & 0x7f != 0 {
            return fail("signal", format!("{form} to a full stdout: status {st}"));
          }
          (st >> 8) & 0xff
        };
        ensure!(code == 4, "wrong error code", "{form} to a full stdout: {code}, not 4");
        Ok(())
      }
    }
  }
}

thread_local! {
  static DIR: Scratch = Scratch::new();
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  DIR.with(|dir| {
    let mut st = St { dir, progs: vec![], log: String::new() };
    let r = calls(t, c, &mut st);
    c.describe(std::mem::take(&mut st.log));
    r
  })
}

fn calls(t: &mut Tape, c: &mut Case, st: &mut St) -> Res {
  let mut ops = t.fork(80);
  let n = ops.range(3, 8);
  let (mut read, mut written) = (false, false);
  let mut cfg = Cfg::text();
  (cfg.max_funcs, cfg.max_blocks, cfg.max_insts) = (3, 5, 5);
  for _ in 0..n {
    let mut op = ops.weighted(&[4, 5, 2, 1]);
    if op == 1 && st.progs.is_empty() {
      op = 2;
    }
    match op {
      0 => {
        let mut sub = t.fork(160.max(t.rest() / 4));
        let bytes = match sub.below(6) {
          0 => words(&mut sub),
          1 => vec![],
          2 | 3 => {
            let s = gen_spec(&mut sub, &cfg);
            text::random(&mut sub, &s).into_bytes()
          }
          _ => {
            let mut mt = sub.fork(20);
            let s = gen_spec(&mut sub, &cfg);
            let mut toks = text::tokens(&mut sub, &s).0;
            mutate::mutate(&mut mt, &mut toks);
            let mut b = text::layout(&mut sub, &toks, 1).0.into_bytes();
            if mt.chance(15) {
              let at = mt.below(b.len() + 1);
              b.insert(at, *mt.pick(&[0xff, 0xc3, 0, 0x80]));
            }
            b
          }
        };
        st.parse(&mut ops, &bytes)?;
        read = true;
      }
      1 => {
        let i = ops.below(st.progs.len());
        let (p, k, l) = (st.progs[i].0 .0 as *const c_void, st.progs[i].1.clone(), st.progs[i].2.clone());
        st.dump(&mut ops, p, &k, &l)?;
        written = true;
      }
      2 => {
        // a program made in memory
        let mut sub = t.fork(160.max(t.rest() / 4));
        let mut cfg = Cfg { names: Names::Api, ..cfg };
        cfg.text_ops = false;
        let s = gen_spec(&mut sub, &cfg);
        let (p, _) = build(&s, Opts { share_consts: sub.chance(50), ..Opts::default() });
        let (k, l) = (or("print", print(&p), "")?, or("llvm", print_llvm(&p), "")?);
        st.note(format!("program in memory\n{k}"));
        st.dump(&mut ops, prog_ptr(&p), &k, &l)?;
        written = true;
        if ops.chance(15) {
          // a text that is no C string
          let mut p = p;
          p.new_func_decl("@nul\0byte".into(), vec![], koopa::ir::Type::get_i32());
          let mut len = 99usize;
          let mut buf = [0xA5u8; 64];
          let q = prog_ptr(&p);
          let d = unsafe {
            [
              koopa_dump_to_string(q, null_mut(), &mut len),
              koopa_dump_llvm_to_string(q, null_mut(), &mut len),
              koopa_dump_to_string(q, buf.as_mut_ptr() as *mut c_char, &mut len),
            ]
          };
          ensure!(d == [5, 5, 5], "wrong error code", "text with a NUL byte: {d:?}, not 5");
          ensure!(len == 99, "output written", "text with a NUL byte: the length became {len}");
          ensure!(buf.iter().all(|b| *b == 0xA5), "output written", "text with a NUL byte: buffer");
        }
      }
      _ => {
        if !st.progs.is_empty() {
          let i = ops.below(st.progs.len());
          st.note(format!("delete program {i}"));
          st.progs.remove(i);
        }
      }
    }
  }
  c.nontrivial = written && read;
  c.class_if(st.progs.len() > 1, "several programs alive");
  c.class_if(written, "read and written");
  Ok(())
}
