//! Captures what the library prints to standard error.  Worker processes have
//! a regular file as fd 2.

use std::os::fd::FromRawFd;
use std::os::unix::fs::FileExt;

unsafe extern "C" {
  fn lseek(fd: i32, off: i64, whence: i32) -> i64;
  fn ftruncate(fd: i32, len: i64) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
}

/// Runs `f` and returns its result with what it wrote to fd 2.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
  let start = unsafe { lseek(2, 0, 2) };
  assert!(start >= 0, "fd 2 is not a file");
  let r = f();
  let end = unsafe { lseek(2, 0, 1) };
  let mut buf = vec![0u8; (end - start).max(0) as usize];
  let file = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(2) });
  let _ = file.read_exact_at(&mut buf, start as u64);
  tidy();
  (r, String::from_utf8_lossy(&buf).into_owned())
}

/// Keeps the file behind fd 2 small.
pub fn tidy() {
  unsafe {
    if lseek(2, 0, 1) > 1 << 20 {
      lseek(2, 0, 0);
      ftruncate(2, 0);
    }
  }
}

/// Makes fd 2 a scratch file (for replays).
pub fn to_scratch() {
  let p = std::env::temp_dir().join(format!("kv-err-{}", std::process::id()));
  if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p) {
    use std::os::fd::AsRawFd;
    unsafe {
      dup2(f.as_raw_fd(), 2);
    }
    let _ = std::fs::remove_file(&p);
  }
}
