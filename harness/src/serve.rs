//! `kv serve`: parses texts from stdin and reports what came out.  The check
//! C21 runs the front end built without its logger this way.

use crate::checks::util;
use koopa::front::span::Span;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Verdict, number of errors and warnings, and the printed program or the
/// message of the error.
#[derive(Debug, PartialEq, Clone)]
pub struct Answer {
  pub ok: bool,
  pub errors: u32,
  pub warnings: u32,
  pub text: String,
}

pub fn answer(src: &[u8]) -> Answer {
  use koopa::front::{span::FileType, Driver};
  answer_of(Driver::new(FileType::Buffer, std::io::Cursor::new(src)))
}

pub fn answer_of<R: Read>(d: koopa::front::Driver<R>) -> Answer {
  let r = d.generate_program();
  let (errors, warnings) = (Span::error_num() as u32, Span::warning_num() as u32);
  match r {
    Ok(p) => Answer { ok: true, errors, warnings, text: util::print(&p).unwrap_or_default() },
    Err(e) => Answer { ok: false, errors, warnings, text: format!("{e:?}") },
  }
}

/// What to do with a text.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Job {
  Parse,
  /// Parse, from a reader that fails after some bytes.
  Broken(u32),
  /// Scan tokens, and report all errors.
  Lex,
  /// Run a history of positions and ranges.
  Spans,
}

/// A reader that fails at some byte.
struct Broken<'a>(&'a [u8], usize);

impl Read for Broken<'_> {
  fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
    if self.1 == 0 {
      return Err(std::io::Error::other("broken"));
    }
    let n = out.len().min(self.0.len()).min(self.1);
    out[..n].copy_from_slice(&self.0[..n]);
    self.0 = &self.0[n..];
    self.1 -= n;
    Ok(n)
  }
}

pub fn job(src: &[u8], job: Job) -> Answer {
  use koopa::front::{lexer::Lexer, span::FileType, token::TokenKind, Driver};
  match job {
    Job::Parse => answer(src),
    Job::Broken(n) => answer_of(Driver::new(FileType::Buffer, Broken(src, n as usize))),
    Job::Lex => {
      Span::reset(FileType::Buffer);
      let mut lx = Lexer::new(std::io::Cursor::new(src));
      let mut text = String::new();
      for _ in 0..src.len() + 2 {
        match lx.next_token() {
          Ok(k) if k.kind == TokenKind::End => break,
          Ok(_) => {}
          Err(e) => text.push_str(&format!("{} {e:?}\n", e.is_fatal())),
        }
      }
      Answer {
        ok: Span::error_num() == 0,
        errors: Span::error_num() as u32,
        warnings: Span::warning_num() as u32,
        text,
      }
    }
    Job::Spans => {
      let w: Vec<u32> =
        src.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
      let ops = crate::spans::history(&mut crate::tape::Tape::new(&w[1..]));
      let text = crate::spans::exec(&ops, &crate::spans::Paths::new(w[0]));
      Answer { ok: true, errors: 0, warnings: 0, text }
    }
  }
}

pub fn serve() -> i32 {
  let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
  let mut head = [0u8; 9];
  while i.read_exact(&mut head).is_ok() {
    let n = |k: usize| u32::from_le_bytes(head[k..k + 4].try_into().unwrap());
    let mut buf = vec![0; n(0) as usize];
    if i.read_exact(&mut buf).is_err() {
      break;
    }
    let what = match head[4] {
      0 => Job::Parse,
      1 => Job::Broken(n(5)),
      2 => Job::Lex,
      _ => Job::Spans,
    };
    let a = job(&buf, what);
    let mut out = vec![a.ok as u8];
    out.extend(a.errors.to_le_bytes());
    out.extend(a.warnings.to_le_bytes());
    out.extend((a.text.len() as u32).to_le_bytes());
    out.extend(a.text.as_bytes());
    if o.write_all(&out).and_then(|_| o.flush()).is_err() {
      break;
    }
  }
  0
}

pub struct Client {
  c: Child,
  i: ChildStdin,
  o: ChildStdout,
}

impl Client {
  pub fn start(exe: &str) -> std::io::Result<Client> {
    let mut c = Command::new(exe)
      .arg("serve")
      .stdin(Stdio::piped())
      .stdout(Stdio::piped())
      .stderr(Stdio::null())
      .spawn()?;
    let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
    Ok(Client { c, i, o })
  }
  pub fn ask(&mut self, src: &[u8], job: Job) -> std::io::Result<Answer> {
    self.i.write_all(&(src.len() as u32).to_le_bytes())?;
    let (k, n) = match job {
      Job::Parse => (0u8, 0u32),
      Job::Broken(n) => (1, n),
      Job::Lex => (2, 0),
      Job::Spans => (3, 0),
    };
    self.i.write_all(&[k])?;
    self.i.write_all(&n.to_le_bytes())?;
    self.i.write_all(src)?;
    self.i.flush()?;
    let mut h = [0u8; 13];
    self.o.read_exact(&mut h)?;
    let n = |i: usize| u32::from_le_bytes(h[i..i + 4].try_into().unwrap());
    let mut t = vec![0; n(9) as usize];
    self.o.read_exact(&mut t)?;
    Ok(Answer {
      ok: h[0] != 0,
      errors: n(1),
      warnings: n(5),
      text: String::from_utf8_lossy(&t).into(),
    })
  }
}

impl Drop for Client {
  fn drop(&mut self) {
    let _ = self.c.kill();
    let _ = self.c.wait();
  }
}
