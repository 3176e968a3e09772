//! The allocator of the harness: counts what each thread has allocated, and
//! overwrites memory that is freed, so that whoever still reads it fails.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
  static BYTES: Cell<i64> = const { Cell::new(0) };
  static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn count(bytes: i64, blocks: i64) {
  let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
  let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

/// Up to this size freed memory is overwritten.
const POISON: usize = 1 << 12;

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    count(l.size() as i64, 1);
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    count(l.size() as i64, 1);
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(-(l.size() as i64), -1);
    std::ptr::write_bytes(p, 0xdd, l.size().min(POISON));
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if l.size() > POISON {
      count(n as i64 - l.size() as i64, 0);
      return System.realloc(p, l, n);
    }
    let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
    if !q.is_null() {
      std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
      self.dealloc(p, l);
    }
    q
  }
}

/// Bytes and blocks this thread has allocated and not freed.
pub fn live() -> (i64, i64) {
  (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}
