mod alloc;
mod api;
mod cap;
mod checks;
mod exec;
mod extract;
mod gen;
mod hist;
mod llvm;
mod mutate;
mod raw;
mod reff;
mod runner;
mod serve;
mod spans;
mod spec;
mod tape;
mod text;

use std::io::Read;
use std::path::Path;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
  let find = |id: &str| {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
      eprintln!("unknown check {id}");
      std::process::exit(3)
    })
  };
  unsafe { std::env::set_var("NO_COLOR", "1") };
  let code = match a.get(1).copied() {
    Some("run") => {
      let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
      let tier = a.get(3).copied().unwrap_or(&tier).to_string();
      let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
      runner::run(&find(a[2]), &tier, seed)
    }
    Some("worker") => {
      let ck = find(a[2]);
      let (seed, w, n) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
      let dir = a[6].to_string();
      on_usual_stack(move || {
        runner::worker(&ck, seed, w, n, Path::new(&dir));
        0
      })
    }
    Some("tape") => {
      let ck = find(a[2]);
      let mut s = String::new();
      if let Some(p) = a.get(3) {
        s = std::fs::read_to_string(p).unwrap();
        if let Some(i) = s.find("\"tape\": ") {
          s = s[i + 8..].trim_matches(|c: char| c == '[' || c == ']' || c == '}' || c.is_whitespace()).into();
        }
      } else {
        std::io::stdin().read_to_string(&mut s).unwrap();
      }
      on_usual_stack(move || {
        if s.starts_with("null") {
          runner::replay(&ck, None)
        } else {
          runner::replay(&ck, Some(&runner::parse_tape(&s)))
        }
      })
    }
    Some("serve") => on_usual_stack(serve::serve),
    Some("list") => {
      for c in checks::all() {
        println!("{}", c.id);
      }
      0
    }
    _ => {
      eprintln!("usage: kv run ID [tier] | kv tape ID [replay.json] | kv list");
      3
    }
  };
  std::process::exit(code)
}

fn on_usual_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
  let h = std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap();
  h.join().unwrap_or_else(|_| {
    eprintln!("harness panic");
    4
  })
}
