//! A tape of raw choices: the value every proptest case generates.  All
//! structured generators decode a tape, so generation and shrinking both live
//! in proptest's `Vec<u32>` strategy, and a failure replays from its tape.

/// Tapes of at least this length make for large cases.
pub const LONG: usize = 1500;

pub struct Tape<'a> {
  data: &'a [u32],
  pos: usize,
}

impl<'a> Tape<'a> {
  pub fn new(data: &'a [u32]) -> Self {
    Self { data, pos: 0 }
  }

  /// The next raw choice; zero once the tape is exhausted.
  pub fn raw(&mut self) -> u32 {
    let v = self.data.get(self.pos).copied().unwrap_or(0);
    self.pos += 1;
    v
  }

  /// Splits off a sub-tape of up to `n` choices (at most a third of the rest),
  /// so that a later stage keeps its own choices.
  pub fn fork(&mut self, n: usize) -> Tape<'a> {
    let rest = self.data.len().saturating_sub(self.pos);
    let n = n.min(rest / 3);
    let at = self.pos.min(self.data.len());
    self.pos += n;
    Tape { data: &self.data[at..at + n], pos: 0 }
  }

  /// The choices that are left.
  pub fn words(&self) -> &'a [u32] {
    &self.data[self.pos.min(self.data.len())..]
  }

  /// How many choices are left.
  pub fn rest(&self) -> usize {
    self.data.len().saturating_sub(self.pos)
  }

  /// A number to multiply sizes with: 1, except on a long tape.
  pub fn growth(&mut self, most: usize) -> usize {
    if self.rest() < LONG {
      1
    } else {
      1 + self.below(most.min(self.rest() / (LONG / 2)))
    }
  }

  pub fn exhausted(&self) -> bool {
    self.pos >= self.data.len()
  }

  /// A choice in `0..n` (0 is the simplest one).
  pub fn below(&mut self, n: usize) -> usize {
    if n <= 1 {
      return 0;
    }
    // multiplicative mapping is monotone, so shrinking a choice shrinks it
    ((self.raw() as u64 * n as u64) >> 32) as usize
  }

  /// A choice in `lo..=hi`.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }

  /// True with probability `pct`/100 (false is the simplest choice).
  pub fn chance(&mut self, pct: u32) -> bool {
    let v = self.raw();
    v >= u32::MAX - (u32::MAX / 100) * pct
  }

  pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
    &items[self.below(items.len())]
  }

  /// A weighted choice: returns the index of the chosen weight.
  pub fn weighted(&mut self, weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let mut v = self.below(total as usize) as u32;
    for (i, w) in weights.iter().enumerate() {
      if v < *w {
        return i;
      }
      v -= w;
    }
    0
  }

  /// An `i32`, biased towards boundary values.
  pub fn int(&mut self) -> i32 {
    match self.below(8) {
      0 | 1 => self.below(12) as i32,
      2 => -(self.below(12) as i32),
      3 => self.below(300) as i32,
      4 => self.raw() as i32,
      5 => i32::MAX - self.below(2) as i32,
      6 => i32::MIN + self.below(2) as i32,
      _ => {
        let s = self.below(31);
        (1i32 << s).wrapping_sub(self.below(2) as i32)
      }
    }
  }
}
