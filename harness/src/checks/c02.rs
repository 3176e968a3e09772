//! C02: the front end is total.

use super::util::*;
use crate::extract::{check_types, check_uses, extract};
use crate::gen::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::{ensure, mutate, text};
use koopa::back::LlvmGenerator;
use koopa::front::span::{FileType, Span};
use koopa::front::Driver;
use koopa::ir::Program;
use crate::serve::{Client, Job};
use std::cell::RefCell;
use std::io::{self, Read};

pub fn check() -> Check {
  Check {
    id: "C02",
    rule: "random bytes, token soups, and legal programs damaged by token or byte mutations \
           (including bytes that are no UTF-8), read from a slice, a string, a file and readers \
           that deliver arbitrary chunks or fail at a byte; non-trivial = at least 20 bytes that \
           are not a legal program",
    quick: 480_000,
    thorough: 19_200_000,
    tape: 300,
    run,
    fixed: Some(fixed),
    assumptions: &["nesting depth of types and aggregates is bounded by the generated size"],
  }
}

/// Delivers the bytes in odd chunks; fails at `fail`.
struct Odd<'a> {
  b: &'a [u8],
  pos: usize,
  step: usize,
  fail: Option<usize>,
}

impl Read for Odd<'_> {
  fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
    if self.fail.is_some_and(|f| self.pos >= f) {
      return Err(io::Error::other("broken"));
    }
    let n = out.len().min(self.step).min(self.b.len() - self.pos);
    out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

fn bytes(t: &mut Tape, c: &mut Case) -> Vec<u8> {
  match t.weighted(&[2, 3, 4, 5, 1]) {
    0 => {
      c.class("random bytes");
      let n = t.below(200);
      let ascii = t.chance(60);
      (0..n).map(|_| if ascii { t.range(9, 126) as u8 } else { t.below(256) as u8 }).collect()
    }
    1 => {
      c.class("token soup");
      let n = t.below(150);
      let syms: Vec<String> = ["@a", "%b", "%0", "%1", "@main", "%entry"].map(String::from).to_vec();
      let mut s = String::new();
      for _ in 0..n {
        s.push_str(&mutate::random_tok(t, &syms));
        s.push_str(t.pick(&[" ", " ", "", "\n", "\t", "\r\n", "/**/", "//\n"]));
      }
      s.into_bytes()
    }
    k => {
      let mut mt = t.fork(60);
      let mut cfg = Cfg::text();
      (cfg.max_funcs, cfg.max_blocks, cfg.max_insts, cfg.unreachable) = (3, 4, 5, true);
      let s = gen_spec(t, &cfg);
      let mut toks = text::tokens(t, &s).0;
      if k == 2 {
        c.class("token mutations");
        for _ in 0..mt.range(1, 6) {
          mutate::mutate(&mut mt, &mut toks);
        }
      }
      let style = if mt.chance(50) { 1 } else { 0 };
      let mut b = text::layout(t, &toks, style).0.into_bytes();
      if k == 3 {
        c.class("byte mutations");
        for _ in 0..mt.range(1, 8) {
          if b.is_empty() {
            break;
          }
          let i = mt.below(b.len());
          match mt.below(6) {
            0 => b[i] = mt.below(256) as u8,
            1 => b[i] ^= 1 << mt.below(8),
            2 => {
              b.remove(i);
            }
            3 => b.insert(i, *mt.pick(b"@%/*-09az_{}[]():=,\n\r\t\"\xff\xc3\x00")),
            4 => b.truncate(i),
            _ => {
              let n = mt.range(1, 40).min(b.len() - i);
              let x = b[i..i + n].to_vec();
              let at = mt.below(b.len());
              b.splice(at..at, x);
            }
          }
        }
      } else if k == 4 {
        c.class("legal");
      }
      b
    }
  }
}

fn drive<R: Read>(d: Driver<R>) -> (Option<Program>, usize, usize) {
  let r = d.generate_program();
  (r.ok(), Span::error_num(), Span::warning_num())
}

thread_local! {
  static DEBUG: RefCell<Option<Client>> = const { RefCell::new(None) };
}

/// What the front end says that was built without optimization, as it is in
/// the debug builds of its users, on a usual stack.
fn unoptimized(c: &mut Case, b: &[u8]) -> Res {
  c.class("built without optimization");
  let a = ask_variant(&DEBUG, "KV_DEBUG", b, Job::Parse);
  let want = crate::serve::answer(b);
  let show = || String::from_utf8_lossy(&b[..b.len().min(3000)]).into_owned();
  match a {
    Ok(a) => {
      // the texts of two printers are not compared: C08 does that
      let same = (a.ok, a.errors, a.warnings) == (want.ok, want.errors, want.warnings);
      ensure!(
        same,
        "differs: built without optimization",
        "built without optimization: accepted {} with {}/{} errors/warnings; optimized: {} with {}/{}\n{}",
        a.ok, a.errors, a.warnings, want.ok, want.errors, want.warnings, show()
      );
      Ok(())
    }
    Err(e) => fail(
      "dies: built without optimization",
      format!("the front end, built without optimization, dies ({e}) on these {} bytes:\n{}", b.len(), show()),
    ),
  }
}

fn run(t: &mut Tape, c: &mut Case) -> Res {
  let k = t.raw();
  let cut = t.raw();
  let b = bytes(t, c);
  c.describe(String::from_utf8_lossy(&b).into_owned());
  one(c, &b, k, cut)?;
  if cut % 64 == 5 {
    unoptimized(c, &b)?;
  }
  Ok(())
}

fn one(c: &mut Case, b: &[u8], k: u32, cut: u32) -> Res {
  let show = || String::from_utf8_lossy(b).into_owned();
  let (p, ne, nw) = drive(Driver::new(FileType::Buffer, io::Cursor::new(b)));
  c.nontrivial = b.len() >= 20 && p.is_none();
  c.class(if p.is_some() { "accepted" } else { "rejected" });
  let spec = match &p {
    Some(p) => {
      ensure!(ne == 0, "accepted with errors", "accepted with {ne} errors\n{}", show());
      let s = or("invalid program", extract(p), &show())?;
      or("invalid program", check_types(&s), &show())?;
      or("bad use lists", check_uses(p), &show())?;
      or("koopa generator", print(p), &show())?;
      let mut g = LlvmGenerator::new(vec![]);
      ensure!(g.generate_on(p).is_ok(), "llvm generator", "failed on\n{}", show());
      Some(s)
    }
    None => {
      ensure!(ne > 0, "rejected without error", "no error was counted\n{}", show());
      None
    }
  };
  let mut same = |how: &'static str, r: (Option<Program>, usize, usize)| -> Res {
    c.class(how);
    let s = match &r.0 {
      Some(p) => Some(or("invalid program", extract(p), &show())?),
      None => None,
    };
    ensure!(
      s == spec && (r.1, r.2) == (ne, nw),
      format!("differs: {how}"),
      "read from {how}: accepted {} with {}/{} errors/warnings; from a slice: {} with {ne}/{nw}\n{}",
      s.is_some(),
      r.1,
      r.2,
      spec.is_some(),
      show()
    );
    Ok(())
  };
  match k % 5 {
    0 => {
      let step = 1 + (cut % 9) as usize;
      same(
        "an odd reader",
        drive(Driver::new(FileType::Stdin, Odd { b, pos: 0, step, fail: None })),
      )?;
    }
    1 => {
      let path = std::env::temp_dir().join(format!("kv-c02-{}", std::process::id()));
      std::fs::write(&path, b).unwrap();
      let d = Driver::from_path(&path);
      let r = d.map(drive);
      let _ = std::fs::remove_file(&path);
      match r {
        Ok(r) => same("a file", r)?,
        Err(e) => return fail("file", format!("cannot open an existing file: {e}")),
      }
    }
    2 => {
      if let Ok(s) = std::str::from_utf8(b) {
        same("a string slice", drive(s.into()))?;
        same("a string", drive(s.to_string().into()))?;
      }
    }
    _ => {
      let at = cut as usize % (b.len() + 1);
      let r = drive(Driver::new(
        FileType::Stdin,
        Odd { b, pos: 0, step: 1 + (cut % 3) as usize, fail: Some(at) },
      ));
      c.class("a failing reader");
      ensure!(
        r.0.is_none(),
        "accepts broken input",
        "accepted although reading failed at byte {at}\n{}",
        show()
      );
      ensure!(r.1 > 0, "rejected without error", "reading failed, but no error was counted");
    }
  }
  Ok(())
}

fn large(c: &mut Case, b: &[u8], k: u32, cut: u32) -> Res {
  one(c, b, k, cut)?;
  unoptimized(c, b)
}

/// Large inputs: sizes that a stack or a quadratic algorithm would not survive.
fn fixed(c: &mut Case) -> Res {
  c.text = "large inputs".into();
  let n = 200_000;
  let mut many = String::new();
  for i in 0..n {
    many.push_str(&format!("// {i}\n/* {i} */"));
  }
  large(c, many.as_bytes(), 3, 7)?;
  let mut s = String::from("fun @f(): i32 {\n%entry:\n");
  for i in 0..20_000 {
    s.push_str(&format!("  %{i} = add {i}, 1\n"));
  }
  s.push_str("  ret 0\n}\n");
  large(c, s.as_bytes(), 0, 7)?;
  let mut s = String::from("fun @f() {\n%entry:\n  jump %b0\n");
  for i in 0..3000 {
    s.push_str(&format!("%b{i}:\n  jump %b{}\n", i + 1));
  }
  s.push_str("%b3000:\n  ret\n}\n");
  large(c, s.as_bytes(), 1, 7)?;
  // errors far to the right and far down
  for fill in [" ", "\t", "\n", "/**/", "//\n"] {
    let far = fill.repeat(70_000);
    let s = format!("{far}fun @f(): {far}i32 {{\n%e:{far}\n ret %x\n %y = add{far} 1, @z\n}}\n{far}x");
    large(c, s.as_bytes(), 1, 7)?;
  }
  let errs = "x ".repeat(5000);
  large(c, errs.as_bytes(), 2, 7)?;
  let errs = "fun @f() { %e: ret 0\n }\n".repeat(100);
  large(c, errs.as_bytes(), 0, 3)?;
  c.nontrivial = true;
  c.key = 1;
  Ok(())
}
