//! Damages the token list of a program.

use crate::reff::KEYWORDS;
use crate::spec::BINS;
use crate::tape::Tape;
use crate::text::{Sp, Tok};

fn is_sym(s: &str) -> bool {
  s.starts_with('@') || s.starts_with('%')
}

fn is_int(s: &str) -> bool {
  s.starts_with('-') || s.starts_with(|c: char| c.is_ascii_digit())
}

pub fn random_tok(t: &mut Tape, syms: &[String]) -> String {
  match t.below(6) {
    0 => t.pick(&["(", ")", "{", "}", "[", "]", ",", ":", "=", "*", ";", "+", "<"]).to_string(),
    1 => t.pick(&KEYWORDS).to_string(),
    2 => t.pick(&BINS).1.to_string(),
    3 => int_tok(t),
    4 if !syms.is_empty() => t.pick(syms).clone(),
    _ => t
      .pick(&["@new", "%new", "%0", "%01", "@0", "%", "@", "%007", "unit", "i64", "jmp", "i32i32", "-", "--1", "\"", "/", "#"])
      .to_string(),
  }
}

fn int_tok(t: &mut Tape) -> String {
  match t.below(5) {
    4 => {
      // any number of zeros in front
      let sign = if t.chance(30) { "-" } else { "" };
      let zeros = "0".repeat(t.below(30));
      let rest = match t.below(3) {
        0 => t.below(3).to_string(),
        1 => t.raw().to_string(),
        _ => t.pick(&["2147483648", "4294967295", "9223372036854775807", "9223372036854775808"]).to_string(),
      };
      format!("{sign}{zeros}{rest}")
    }
    0 => t.pick(&["0", "1", "-1", "00", "-0", "2147483647", "2147483648", "-2147483648", "4294967296"]).to_string(),
    1 => t.pick(&["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999"]).to_string(),
    _ => t.int().to_string(),
  }
}

/// Basic blocks: start, start of the statements, end, and end of the function's last block.
fn labels(k: &[Tok]) -> Vec<(usize, usize, usize, usize)> {
  let tok = |i: usize| k.get(i).map_or("", |x| x.s.as_str());
  let mut starts = vec![];
  let mut depth = 0i32;
  for i in 0..k.len() {
    match tok(i) {
      "(" => depth += 1,
      ")" => depth -= 1,
      s if depth == 0 && is_sym(s) && i > 0 && !matches!(tok(i - 1), "fun" | "decl" | "call" | "jump" | ",") => {
        if tok(i + 1) == ":" {
          starts.push((i, i + 2));
        } else if tok(i + 1) == "(" {
          if let Some(j) = (i..k.len()).find(|j| tok(*j) == ")") {
            if tok(j + 1) == ":" {
              starts.push((i, j + 2));
            }
          }
        }
      }
      _ => {}
    }
  }
  // a function ends before the `}` that precedes an item or the end
  let stop = |i: usize| {
    (i..k.len()).find(|j| tok(*j) == "}" && matches!(tok(j + 1), "" | "fun" | "decl" | "global")).unwrap_or(k.len())
  };
  let mut v = vec![];
  for (n, (a, b)) in starts.iter().enumerate() {
    let last = stop(*a);
    let end = starts.get(n + 1).map_or(last, |x| x.0.min(last));
    if *b <= end {
      v.push((*a, *b, end, last));
    }
  }
  v
}

/// Applies one mutation; returns its name.
pub fn mutate(t: &mut Tape, k: &mut Vec<Tok>) -> &'static str {
  if k.is_empty() {
    return "none";
  }
  let mut syms: Vec<String> = k.iter().map(|x| x.s.clone()).filter(|s| is_sym(s)).collect();
  syms.sort();
  syms.dedup();
  let at = |t: &mut Tape, k: &[Tok], f: &dyn Fn(&str) -> bool| -> Option<usize> {
    let v: Vec<usize> = (0..k.len()).filter(|i| f(&k[*i].s)).collect();
    (!v.is_empty()).then(|| v[t.below(v.len())])
  };
  match t.weighted(&[10, 4, 3, 2, 3, 2, 3, 3, 3, 2, 2, 3, 2, 2]) {
    0 | 9 => {
      // a symbol becomes another one (often one nearby)
      let Some(i) = at(t, k, &is_sym) else { return "none" };
      let near: Vec<String> = k[i.saturating_sub(40)..(i + 40).min(k.len())]
        .iter()
        .map(|x| x.s.clone())
        .filter(|s| is_sym(s))
        .collect();
      k[i].s = if t.chance(15) {
        t.pick(&["@new", "%new", "%0", "%77"]).to_string()
      } else if t.chance(60) {
        t.pick(&near).clone()
      } else {
        t.pick(&syms).clone()
      };
      "symbol"
    }
    1 => {
      let i = t.below(k.len());
      k.remove(i);
      "delete"
    }
    2 => {
      let i = t.below(k.len());
      let x = k[i].clone();
      k.insert(i, x);
      "duplicate"
    }
    3 => {
      let i = t.below(k.len());
      if i + 1 < k.len() {
        let x = k[i].s.clone();
        k[i].s = std::mem::replace(&mut k[i + 1].s, x);
      }
      "swap"
    }
    4 => {
      let i = t.below(k.len());
      k[i].s = random_tok(t, &syms);
      "replace"
    }
    5 => {
      let i = t.below(k.len() + 1);
      k.insert(i, Tok { s: random_tok(t, &syms), sp: Sp::Any });
      "insert"
    }
    6 => {
      let Some(i) = at(t, k, &is_int) else { return "none" };
      k[i].s = int_tok(t);
      "integer"
    }
    7 => {
      // an argument or element more or less
      let Some(i) = at(t, k, &|s| s == ",") else { return "none" };
      match t.below(3) {
        0 => {
          k.remove(i);
          if i < k.len() {
            k.remove(i);
          }
        }
        1 if i + 1 < k.len() => {
          let v = [k[i].clone(), k[i + 1].clone()];
          k.splice(i..i, v);
        }
        _ if i > 0 && i + 1 < k.len() => {
          let x = k[i - 1].s.clone();
          k[i - 1].s = std::mem::replace(&mut k[i + 1].s, x);
        }
        _ => {}
      }
      "list"
    }
    8 => {
      // a type
      let Some(i) = at(t, k, &|s| s == "i32" || s == "*" || s == "[") else { return "none" };
      match t.below(5) {
        0 => k.insert(i, Tok { s: "*".into(), sp: Sp::Any }),
        1 if k[i].s == "*" => {
          k.remove(i);
        }
        2 if k[i].s == "i32" => {
          let v = ["[", "i32", ",", "2", "]"].map(|s| Tok { s: s.into(), sp: Sp::Any });
          k.splice(i..i + 1, v);
        }
        3 if k[i].s == "i32" => {
          let v = ["(", "i32", ")"].map(|s| Tok { s: s.into(), sp: Sp::Any });
          k.splice(i..i + 1, v);
        }
        _ if k[i].s == "i32" => {
          k.remove(i);
        }
        _ => {
          k.insert(i, Tok { s: "*".into(), sp: Sp::Any });
          k.insert(i, Tok { s: "*".into(), sp: Sp::Any });
        }
      }
      "type"
    }
    10 => {
      // items: drop, repeat or move one
      let starts: Vec<usize> =
        (0..k.len()).filter(|i| matches!(k[*i].s.as_str(), "global" | "fun" | "decl")).collect();
      if starts.is_empty() {
        return "none";
      }
      let n = t.below(starts.len());
      let end = starts.get(n + 1).copied().unwrap_or(k.len());
      let item: Vec<Tok> = k[starts[n]..end].to_vec();
      match t.below(3) {
        0 => {
          k.drain(starts[n]..end);
        }
        1 => {
          k.splice(end..end, item);
        }
        _ => {
          k.drain(starts[n]..end);
          let to = if t.chance(50) { 0 } else { k.len() };
          k.splice(to..to, item);
        }
      }
      "item"
    }
    12 => {
      // basic blocks: drop, repeat, move or empty one, or drop all of a function
      let ls = labels(k);
      if ls.is_empty() {
        return "none";
      }
      let n = t.below(ls.len());
      let (from, body, end, last) = ls[n];
      let item: Vec<Tok> = k[from..end].to_vec();
      match t.below(6) {
        0 => {
          k.drain(from..end);
        }
        1 => {
          k.splice(end..end, item);
        }
        2 => {
          k.drain(body..end);
        }
        3 => {
          // the label alone goes
          k.drain(from..body);
        }
        4 => {
          let first = ls.iter().filter(|l| l.3 == last).map(|l| l.0).min().unwrap();
          k.drain(first..last);
        }
        _ => {
          let to = ls[t.below(ls.len())].0;
          if to <= from {
            k.drain(from..end);
            k.splice(to..to, item);
          }
        }
      }
      "block"
    }
    13 => {
      // a statement gets or loses its name
      let st: Vec<usize> = (0..k.len())
        .filter(|i| {
          matches!(k[*i].s.as_str(), "store" | "br" | "jump" | "ret" | "call")
            || (*i > 1 && k[*i - 1].s == "=" && is_sym(&k[*i - 2].s))
        })
        .collect();
      if st.is_empty() {
        return "none";
      }
      let i = st[t.below(st.len())];
      if i > 1 && k[i - 1].s == "=" {
        k.drain(i - 2..i);
      } else {
        let s = if syms.is_empty() || t.chance(70) { "%fresh".to_string() } else { t.pick(&syms).clone() };
        let v = [s, "=".to_string()].map(|s| Tok { s, sp: Sp::Any });
        k.splice(i..i, v);
      }
      "name"
    }
    _ => {
      // statements: drop, repeat or move one
      let st: Vec<usize> = (0..k.len())
        .filter(|i| {
          matches!(k[*i].s.as_str(), "store" | "br" | "jump" | "ret" | "call")
            || (is_sym(&k[*i].s) && k.get(*i + 1).is_some_and(|x| x.s == "="))
        })
        .collect();
      if st.is_empty() {
        return "none";
      }
      let n = t.below(st.len());
      let end = st.get(n + 1).copied().unwrap_or(k.len());
      let item: Vec<Tok> = k[st[n]..end].to_vec();
      match t.below(3) {
        0 => {
          k.drain(st[n]..end);
        }
        1 => {
          k.splice(end..end, item);
        }
        _ => {
          let to = st[t.below(st.len())];
          if to <= st[n] {
            k.drain(st[n]..end);
            k.splice(to..to, item);
          }
        }
      }
      "statement"
    }
  }
}
