//! Runs a check: splits its cases over worker processes, each of which drives
//! proptest over tapes; collects evidence; shrinks and reports failures.

use crate::tape::Tape;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::prop_oneof;
use proptest::test_runner::{
  Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What one case tells the runner about itself.
#[derive(Default)]
pub struct Case {
  pub classes: Vec<&'static str>,
  pub nontrivial: bool,
  /// Identity of the case, for counting distinct ones.
  pub key: u64,
  /// The case written out.
  pub text: String,
  /// Set for replays and samples: checks may then render expensive texts.
  pub verbose: bool,
}

impl Case {
  pub fn class(&mut self, c: &'static str) {
    self.classes.push(c);
  }
  pub fn class_if(&mut self, b: bool, c: &'static str) {
    if b {
      self.classes.push(c);
    }
  }
  pub fn describe(&mut self, s: String) {
    self.key = fnv(s.as_bytes());
    self.text = s;
  }
}

pub fn fnv(b: &[u8]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for x in b {
    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
  }
  h
}

/// A failure: a stable signature (for known findings) and a message.
#[derive(Clone, Debug)]
pub struct Fail {
  pub sig: String,
  pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
  Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
  ($c:expr, $sig:expr, $($a:tt)+) => {
    if !$c { return $crate::runner::fail($sig, format!($($a)+)); }
  };
}

pub struct Check {
  pub id: &'static str,
  /// How cases are made, and what makes one non-trivial.
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  /// Largest tape length.
  pub tape: usize,
  pub run: fn(&mut Tape, &mut Case) -> Res,
  /// Extra fixed cases, run once (by worker 0) before the random ones.
  pub fixed: Option<fn(&mut Case) -> Res>,
  pub assumptions: &'static [&'static str],
}

thread_local! {
  static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|i| {
    let m = i
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| i.payload().downcast_ref::<String>().cloned())
      .unwrap_or_default();
    let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
  }));
}

pub fn last_panic() -> String {
  PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

unsafe extern "C" {
  fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
  fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

/// A case that uses more processor time (in seconds) does not terminate.
const CASE_LIMIT: i64 = 40;

/// Arms the limits of a case: `CASE_LIMIT` of processor time (signal 27, a
/// finding), and far more wall-clock time (signal 14, an error of the check).
fn arm(on: bool) {
  let (cpu, wall) = if on { (CASE_LIMIT, 400) } else { (0, 0) };
  unsafe {
    setitimer(2, &[0, 0, cpu, 0], std::ptr::null_mut());
    setitimer(0, &[0, 0, wall, 0], std::ptr::null_mut());
  }
}

pub fn limits() {
  // address space: a runaway allocation ends its own process only
  unsafe { setrlimit(9, &[3u64 << 30, 3 << 30]) };
}

fn one(ck: &Check, data: &[u32], verbose: bool) -> (Case, Res) {
  let mut case = Case { verbose, ..Case::default() };
  arm(true);
  let r = no_panic(|| {
    let mut t = Tape::new(data);
    (ck.run)(&mut t, &mut case)
  });
  arm(false);
  match r {
    Ok(r) => (case, r),
    Err(m) => {
      let r = fail(format!("panic: {}", strip_line(&m)), format!("panicked: {m}"));
      (case, r)
    }
  }
}

fn strip_line(m: &str) -> String {
  m.rsplit_once(" at ").map_or(m, |x| x.0).chars().take(120).collect()
}

fn fixed_one(ck: &Check) -> Option<(Case, Res)> {
  let f = ck.fixed?;
  let mut case = Case { verbose: true, ..Case::default() };
  let r = match no_panic(|| f(&mut case)) {
    Ok(r) => r,
    Err(m) => fail(format!("panic: {}", strip_line(&m)), format!("panicked: {m}")),
  };
  Some((case, r))
}

fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o
}

fn tape_str(d: &[u32]) -> String {
  d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

pub fn parse_tape(s: &str) -> Vec<u32> {
  s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

fn seed32(seed: u64, id: &str, w: u64) -> [u8; 32] {
  let mut out = [0u8; 32];
  let mut x = fnv(format!("{id}/{seed}/{w}").as_bytes());
  for c in out.chunks_mut(8) {
    // splitmix64
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
  }
  out
}

#[derive(Default)]
struct Stats {
  evals: u64,
  hashes: HashSet<u64>,
  classes: BTreeMap<String, u64>,
  samples: Vec<String>,
}

impl Stats {
  fn add(&mut self, c: &Case, keep: bool) {
    self.evals += 1;
    if c.nontrivial {
      self.hashes.insert(c.key);
    }
    for k in &c.classes {
      *self.classes.entry(k.to_string()).or_default() += 1;
    }
    if keep && c.nontrivial && self.samples.len() < 4 && c.text.len() < 1800 {
      self.samples.push(c.text.clone());
    }
  }
}

/// Entry point of a worker process.
pub fn worker(ck: &Check, seed: u64, w: u64, cases: u64, dir: &Path) {
  quiet_panics();
  limits();
  let state = fs::File::create(dir.join(format!("w{w}.state"))).unwrap();
  let stats = RefCell::new(Stats::default());
  let failing: RefCell<Option<Fail>> = RefCell::new(None);
  let mut fixed_fail = None;
  if w == 0 {
    let _ = state.write_all_at(b"fixed\n", 0);
    if let Some((case, r)) = fixed_one(ck) {
      stats.borrow_mut().add(&case, false);
      if let Err(f) = r {
        fixed_fail = Some((f, case.text));
      }
    }
    let _ = state.set_len(0);
  }
  let config = Config {
    cases: cases as u32,
    failure_persistence: None,
    max_shrink_iters: 20000,
    max_shrink_time: 45_000,
    max_global_rejects: 0,
    rng_algorithm: RngAlgorithm::ChaCha,
    rng_seed: RngSeed::Fixed(seed),
    ..Config::default()
  };
  let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(seed, ck.id, w));
  let mut runner = TestRunner::new_with_rng(config, rng);
  // one case in 300 is large
  let strat = prop_oneof![
    299 => vec(any::<u32>(), 0..=ck.tape),
    1 => vec(any::<u32>(), 0..=40 * ck.tape),
  ];
  let r = if fixed_fail.is_some() {
    Ok(())
  } else {
    runner.run(&strat, |d| {
      // the tape of the running case, should the process die
      let mut buf = Vec::with_capacity(d.len() * 4 + 8);
      buf.extend_from_slice(&(d.len() as u64).to_le_bytes());
      for x in &d {
        buf.extend_from_slice(&x.to_le_bytes());
      }
      let _ = state.write_all_at(&buf, 0);
      let (case, r) = one(ck, &d, false);
      crate::cap::tidy();
      if failing.borrow().is_none() {
        let mut st = stats.borrow_mut();
        let keep = w == 0 || st.samples.is_empty();
        st.add(&case, keep);
      }
      match r {
        Ok(()) => Ok(()),
        Err(f) => {
          let mut cur = failing.borrow_mut();
          // while shrinking, stay on the failure first found
          if cur.as_ref().is_some_and(|c| c.sig != f.sig) {
            return Ok(());
          }
          *cur = Some(f.clone());
          Err(TestCaseError::fail(f.msg))
        }
      }
    })
  };
  let st = stats.into_inner();
  let mut o = String::new();
  o.push_str(&format!("evals {}\n", st.evals));
  for (k, v) in &st.classes {
    o.push_str(&format!("class {v} {k}\n"));
  }
  for s in &st.samples {
    o.push_str(&format!("sample {}\n", esc(s)));
  }
  if let Some((f, text)) = fixed_fail {
    o.push_str(&format!("failfixed {}\n", esc(&text)));
    o.push_str(&format!("failsig {}\nfailmsg {}\n", esc(&f.sig), esc(&f.msg)));
  }
  match r {
    Ok(()) => {}
    Err(TestError::Fail(_, d)) => {
      let f = failing.into_inner().unwrap();
      o.push_str(&format!("failtape {}\n", tape_str(&d)));
      o.push_str(&format!("failsig {}\nfailmsg {}\n", esc(&f.sig), esc(&f.msg)));
    }
    Err(TestError::Abort(m)) => o.push_str(&format!("abort {}\n", esc(&m.to_string()))),
  }
  let mut hs: Vec<u8> = vec![];
  for h in &st.hashes {
    hs.extend_from_slice(&h.to_le_bytes());
  }
  fs::write(dir.join(format!("w{w}.hash")), hs).unwrap();
  o.push_str("done\n");
  fs::write(dir.join(format!("w{w}.out")), o).unwrap();
}

/// Runs one tape in this process and prints the outcome.
pub fn replay(ck: &Check, data: Option<&[u32]>) -> i32 {
  quiet_panics();
  limits();
  crate::cap::to_scratch();
  let (case, r) = match data {
    Some(d) => one(ck, d, true),
    None => fixed_one(ck).expect("check has no fixed cases"),
  };
  println!("--- case ---\n{}\n------------", case.text);
  match r {
    Ok(()) => {
      println!("OK");
      0
    }
    Err(f) => {
      println!("FAIL [{}] {}", f.sig, f.msg);
      1
    }
  }
}

fn verif_dir() -> PathBuf {
  PathBuf::from(std::env::var("KV_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// `(property, signature, text)` of every listed known finding.
fn known() -> Vec<(String, String, String)> {
  let mut v = vec![];
  if let Ok(s) = fs::read_to_string(verif_dir().join("known-findings.txt")) {
    for l in s.lines() {
      if let Some(r) = l.strip_prefix("known: property=") {
        let mut it = r.splitn(2, ' ');
        let id = it.next().unwrap_or("").to_string();
        let rest = it.next().unwrap_or("");
        if let Some(r) = rest.strip_prefix("sig=[") {
          if let Some((sig, text)) = r.split_once("] ") {
            v.push((id, sig.to_string(), text.to_string()));
          }
        }
      }
    }
  }
  v
}

/// Is this failure a listed finding?
pub fn is_known(id: &str, sig: &str) -> bool {
  known().iter().any(|k| k.0 == id && k.1 == sig)
}

fn write_replay(id: &str, tape: Option<&[u32]>, sig: &str, msg: &str, text: &str) -> PathBuf {
  let dir = verif_dir().join("replays");
  let _ = fs::create_dir_all(&dir);
  let body = format!(
    "{{\"property\": \"{id}\", \"signature\": \"{}\", \"message\": \"{}\", \"case\": \"{}\", \"tape\": {}}}\n",
    esc(sig),
    esc(msg),
    esc(text),
    tape.map_or("null".into(), |t| format!("[{}]", tape_str(t)))
  );
  let p = dir.join(format!("{id}-{:016x}.json", fnv(body.as_bytes())));
  fs::write(&p, body).unwrap();
  p
}

fn child_case(id: &str, tape: &[u32]) -> Option<i32> {
  // signal number if the case kills its process
  let exe = std::env::current_exe().unwrap();
  let mut c = Command::new(exe)
    .args(["tape", id])
    .stdin(Stdio::piped())
    .stdout(Stdio::null())
    .stderr(Stdio::null())
    .spawn()
    .unwrap();
  c.stdin.take().unwrap().write_all(tape_str(tape).as_bytes()).unwrap();
  let st = wait_for(&mut c, Duration::from_secs(120))?;
  st.signal()
}

fn wait_for(c: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
  let t0 = Instant::now();
  loop {
    if let Some(s) = c.try_wait().unwrap() {
      return Some(s);
    }
    if t0.elapsed() > d {
      let _ = c.kill();
      let _ = c.wait();
      return None;
    }
    std::thread::sleep(Duration::from_millis(3));
  }
}

/// Shrinks a tape whose case kills its process.
fn shrink_crash(id: &str, mut tape: Vec<u32>, sig: i32) -> Vec<u32> {
  let t0 = Instant::now();
  let ok = |t: &[u32]| child_case(id, t) == Some(sig);
  let mut n = tape.len();
  while n > 0 && t0.elapsed() < Duration::from_secs(90) {
    let mut i = 0;
    let mut cut = false;
    while i < tape.len() && t0.elapsed() < Duration::from_secs(90) {
      let mut c = tape.clone();
      c.drain(i..(i + n).min(c.len()));
      if ok(&c) {
        tape = c;
        cut = true;
      } else {
        i += n;
      }
    }
    if !cut || n == 1 {
      n /= 2;
    }
  }
  for i in 0..tape.len() {
    if t0.elapsed() > Duration::from_secs(100) {
      break;
    }
    if tape[i] != 0 {
      let mut c = tape.clone();
      c[i] = 0;
      if ok(&c) {
        tape = c;
      }
    }
  }
  tape
}

/// Runs a check; returns the exit code.
pub fn run(ck: &Check, tier: &str, seed: u64) -> i32 {
  let t0 = Instant::now();
  let nw: u64 = std::env::var("KV_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let mut total = if tier == "thorough" { ck.thorough } else { ck.quick };
  if let Some(s) = std::env::var("KV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
    total = ((total as f64 * s) as u64).max(nw);
  }
  let base = std::env::temp_dir().join(format!("kv-{}-{}", ck.id, std::process::id()));
  let _ = fs::remove_dir_all(&base);
  fs::create_dir_all(&base).unwrap();
  // bounded rounds of worker processes, so that handle counters stay small
  let per = 20_000u64;
  let mut jobs: Vec<(u64, u64)> = vec![];
  let mut left = total;
  let mut j = 0;
  let chunk = (total.div_ceil(nw)).clamp(1, per);
  while left > 0 {
    let n = left.min(chunk);
    jobs.push((j, n));
    j += 1;
    left -= n;
  }
  let exe = std::env::current_exe().unwrap();
  let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 780 });
  let mut running: Vec<(u64, std::process::Child)> = vec![];
  let mut next = 0;
  let mut dead: Vec<(u64, std::process::ExitStatus)> = vec![];
  let mut stop = false;
  let mut hung = false;
  let mut finished = vec![];
  while (next < jobs.len() && !stop) || !running.is_empty() {
    while next < jobs.len() && running.len() < nw as usize && !stop {
      let (w, n) = jobs[next];
      next += 1;
      let err = fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(base.join(format!("w{w}.err")))
        .unwrap();
      let c = Command::new(&exe)
        .args(["worker", ck.id, &seed.to_string(), &w.to_string(), &n.to_string()])
        .arg(&base)
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap();
      running.push((w, c));
    }
    let mut i = 0;
    while i < running.len() {
      if let Some(st) = running[i].1.try_wait().unwrap() {
        let (w, _) = running.remove(i);
        if !st.success() {
          dead.push((w, st));
          stop = true;
        } else if fs::read_to_string(base.join(format!("w{w}.out"))).unwrap_or_default().contains("\nfail")
        {
          stop = true;
        }
        finished.push(w);
      } else {
        i += 1;
      }
    }
    if t0.elapsed() > limit {
      for (_, c) in &mut running {
        let _ = c.kill();
        let _ = c.wait();
      }
      hung = true;
      break;
    }
    std::thread::sleep(Duration::from_millis(5));
  }
  // merge
  let mut evals = 0;
  let mut classes: BTreeMap<String, u64> = BTreeMap::new();
  let mut samples: Vec<String> = vec![];
  let mut hashes: HashSet<u64> = HashSet::new();
  let mut fails: Vec<(Option<Vec<u32>>, String, String, String)> = vec![];
  let mut aborts = vec![];
  finished.sort();
  for w in &finished {
    let Ok(o) = fs::read_to_string(base.join(format!("w{w}.out"))) else { continue };
    let (mut ft, mut fs_, mut fixed) = (None, String::new(), None);
    for l in o.lines() {
      let (k, v) = l.split_once(' ').unwrap_or((l, ""));
      match k {
        "evals" => evals += v.parse::<u64>().unwrap_or(0),
        "class" => {
          let (n, name) = v.split_once(' ').unwrap();
          *classes.entry(name.into()).or_default() += n.parse::<u64>().unwrap_or(0);
        }
        "sample" if samples.len() < 5 => samples.push(v.into()),
        "failtape" => ft = Some(parse_tape(v)),
        "failfixed" => fixed = Some(v.to_string()),
        "failsig" => fs_ = v.into(),
        "failmsg" => fails.push((ft.take(), fs_.clone(), v.into(), fixed.take().unwrap_or_default())),
        "abort" => aborts.push(v.to_string()),
        _ => {}
      }
    }
    if let Ok(h) = fs::read(base.join(format!("w{w}.hash"))) {
      for c in h.chunks_exact(8) {
        hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
  }
  let mut error = hung;
  if hung {
    eprintln!("error: {} did not finish within {limit:?}", ck.id);
  }
  for a in &aborts {
    eprintln!("error: {} aborted: {a}", ck.id);
    error = true;
  }
  for (w, st) in &dead {
    let sig = st.signal().unwrap_or(0);
    if fails.iter().any(|f| f.1 == format!("signal {sig}")) {
      continue;
    }
    let state = fs::read(base.join(format!("w{w}.state"))).unwrap_or_default();
    let err = fs::read(base.join(format!("w{w}.err"))).unwrap_or_default();
    let err = String::from_utf8_lossy(&err[err.len().saturating_sub(400)..]).to_string();
    let no_hang = sig != 27;
    if matches!(sig, 0 | 9 | 14 | 15) || state.len() < 8 {
      eprintln!("error: worker {w} of {} ended with {st}: {err}", ck.id);
      error = true;
      continue;
    }
    if state.starts_with(b"fixed\n") {
      fails.push((
        None,
        format!("signal {sig}"),
        format!("the fixed cases kill the process with signal {sig}: {}", esc(&err)),
        String::new(),
      ));
      continue;
    }
    let n = u64::from_le_bytes(state[..8].try_into().unwrap()) as usize;
    let tape: Vec<u32> = state[8..]
      .chunks_exact(4)
      .take(n)
      .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
      .collect();
    match child_case(ck.id, &tape) {
      Some(s) if !matches!(s, 9 | 14 | 15) => {
        let t = if no_hang { shrink_crash(ck.id, tape, s) } else { tape };
        fails.push((
          Some(t),
          format!("signal {s}"),
          if s == 27 {
            format!("the case does not end within {CASE_LIMIT} s of processor time")
          } else {
            format!("the process dies with signal {s}: {}", esc(&err))
          },
          String::new(),
        ));
      }
      _ => {
        eprintln!("error: worker {w} of {} died ({st}), not reproduced: {err}", ck.id);
        error = true;
      }
    }
  }
  if !fails.is_empty() {
    quiet_panics();
    crate::cap::to_scratch();
  }
  let mut violations = 0;
  let mut seen = HashSet::new();
  fails.sort_by_key(|f| f.0.as_ref().map_or(0, |t| t.len()));
  for (tape, sig, msg, fixed) in &fails {
    if !seen.insert(sig.clone()) {
      continue;
    }
    let text = match tape {
      Some(t) if !sig.starts_with("signal") => one(ck, t, true).0.text,
      Some(_) => String::new(),
      None => fixed.clone(),
    };
    let p = write_replay(ck.id, tape.as_deref(), sig, msg, &text);
    println!("VIOLATION property={} replay={}", ck.id, p.display());
    println!("  [{sig}] {msg}");
    for l in text.lines().take(40) {
      println!("  | {l}");
    }
    violations += 1;
  }
  for (id, sig, text) in known() {
    if id == ck.id {
      println!("KNOWN-FINDING: property={id} {text} [{sig}]");
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  let cls: Vec<String> = classes.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect();
  let smp: Vec<String> = samples.iter().map(|s| format!("\"{s}\"")).collect();
  let asm: Vec<String> = ck.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
  let ev = format!(
    "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
    ck.id,
    hashes.len(),
    esc(ck.rule),
    cls.join(", "),
    smp.join(",\n   "),
    asm.join(", ")
  );
  let evd = verif_dir().join("evidence");
  let _ = fs::create_dir_all(&evd);
  fs::write(evd.join(format!("{}.json", ck.id)), ev).unwrap();
  let _ = fs::remove_dir_all(&base);
  println!(
    "{}: {evals} cases, {} distinct non-trivial, {violations} violation(s), {wall:.1}s",
    ck.id,
    hashes.len()
  );
  if violations > 0 {
    1
  } else if error {
    2
  } else {
    0
  }
}
