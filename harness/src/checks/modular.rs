//! The analysis of a function depends on its own code and its callees' signatures, on nothing else.
use std::collections::BTreeMap;

use flowistry::extensions::{ContextMode, EvalMode};
use serde_json::json;

use super::laws::{first_difference, modes, snapshots, unit_of};
use crate::{r#gen::{self, Cfg}, run::*, tape::Rng};

fn tune(rng: &mut Rng) -> Cfg {
  let mut c = Cfg { private: rng.below(2) == 0, ..Default::default() };
  c.stmts = 6;
  c.boxes = rng.below(3) > 0;
  c
}

/// (name, start of the body, end of the body) of every function with a body, outermost only.
fn functions(src: &str) -> Vec<(String, usize, usize)> {
  let b = src.as_bytes();
  let mut out = vec![];
  let mut i = 0;
  while let Some(k) = src[i..].find("fn ") {
    let at = i + k;
    i = at + 3;
    if at > 0 && (b[at - 1].is_ascii_alphanumeric() || b[at - 1] == b'_') {
      continue;
    }
    let name: String = src[at + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    if name.is_empty() {
      continue;
    }
    let Some(open) = src[at..].find(['{', ';']) else { break };
    let open = at + open;
    if b[open] == b';' && !src[at..open].contains('[') {
      continue;
    }
    // (The `;` of an array type is not the end of a declaration.)
    let mut open = at;
    let mut brackets = 0;
    let mut decl = false;
    loop {
      match b[open] {
        b'[' => brackets += 1,
        b']' => brackets -= 1,
        b'{' if brackets == 0 => break,
        b';' if brackets == 0 => {
          decl = true;
          break;
        }
        _ => {}
      }
      open += 1;
      if open >= b.len() {
        return out;
      }
    }
    if decl {
      continue;
    }
    let mut depth = 0;
    let mut end = open;
    while end < b.len() {
      match b[end] {
        b'{' => depth += 1,
        b'}' => {
          depth -= 1;
          if depth == 0 {
            break;
          }
        }
        _ => {}
      }
      end += 1;
    }
    out.push((name, open, end));
    i = end;
  }
  out
}

/// The same unit with other bodies for all functions but the callers (`t0`, `t1`, ...).
pub fn other_callees(src: &str, rng: &mut Rng) -> String {
  let mut s = String::new();
  let mut at = 0;
  for (name, open, end) in functions(src) {
    if is_caller(&name) {
      continue;
    }
    s += &src[at..open];
    s += match rng.below(4) {
      0 => "{ loop {} }",
      1 => "{ panic!() }",
      2 => "{ let x = [1, 2]; if x[0] > 1 { loop {} } unreachable!() }",
      _ => "{ std::process::exit(0) }",
    };
    at = end + 1;
  }
  s + &src[at..]
}

/// The same unit without the bodies of some functions.
pub fn without_bodies(src: &str, names: &std::collections::BTreeSet<String>) -> String {
  let mut s = String::new();
  let mut at = 0;
  for (name, open, end) in functions(src) {
    if names.contains(&name) {
      s += &src[at..open];
      s += "{ loop {} }";
      at = end + 1;
    }
  }
  s + &src[at..]
}

fn is_caller(name: &str) -> bool {
  name.strip_prefix('t').is_some_and(|r| !r.is_empty() && r.chars().all(|c| c.is_ascii_digit()))
}

/// The same unit with other names of variables.
fn other_names(src: &str, rng: &mut Rng) -> String {
  let prefix = ["zz", "a_", "Q", "_q", "self_"][rng.below(5)];
  let mut s = String::new();
  let mut it = src.char_indices().peekable();
  while let Some((i, c)) = it.next() {
    if !(c.is_alphabetic() || c == '_') {
      s.push(c);
      // Digits that follow digits or a letter are not the start of a word.
      if c.is_ascii_digit() {
        while let Some((_, d)) = it.next_if(|x| x.1.is_alphanumeric() || x.1 == '_') {
          s.push(d);
        }
      }
      continue;
    }
    let mut w = c.to_string();
    while let Some((_, d)) = it.next_if(|x| x.1.is_alphanumeric() || x.1 == '_') {
      w.push(d);
    }
    let head = w.trim_end_matches(|c: char| c.is_ascii_digit());
    let lifetime = i > 0 && src.as_bytes()[i - 1] == b'\'';
    if !lifetime && w != "i32" && w != "i64" && head.len() < w.len() && ["v", "x", "d", "k", "o", "n", "a", "c", "i", "b"].contains(&head) {
      s += prefix;
    }
    s += &w;
  }
  s
}

/// The same unit laid out differently, with unrelated items in between.
fn other_layout(src: &str, rng: &mut Rng) -> String {
  let mut s = String::new();
  for (i, l) in src.lines().enumerate() {
    // Items start in the first column; attributes may precede them.
    let item = l.starts_with("pub ") || l.starts_with("impl") || l.starts_with("mod ") || l.starts_with("use ");
    let after_attr = i > 0 && src.lines().nth(i - 1).is_some_and(|p| p.starts_with("#["));
    if item && !after_attr {
      match rng.below(6) {
        0 => s += &format!("pub fn unrelated{i}(x: &mut (i32, i32)) -> &mut i32 {{ x.0 = 1; &mut x.1 }}\n"),
        1 => s += &format!("pub struct Unrelated{i}<'a> {{ pub f0: &'a mut i32, f1: i32 }}\n"),
        2 => s += &format!("static UNRELATED{i}: i32 = 3;\n"),
        3 if l.starts_with("pub fn") => s += "/// Documented. `let x = 1;`\n#[allow(dead_code)]\n",
        4 if l.starts_with("pub fn") => s += ["#[inline]\n", "#[inline(never)]\n", "#[cold]\n", "#[must_use]\n"][rng.below(4)],
        _ => {}
      }
    }
    for _ in 0..rng.below(3) {
      s += "\n";
    }
    if rng.below(3) == 0 {
      s += "   /* é */ ";
    }
    s += l;
    if rng.below(4) == 0 {
      s += " // line";
    }
    s += "\n";
  }
  s
}

fn c07(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  let mut fails = vec![];
  let mut rng = Rng::new(b.seed);
  let sig: Vec<EvalMode> = modes().into_iter().filter(|m| m.context_mode == ContextMode::SigOnly).collect();
  let mode = sig[if rng.below(2) == 0 { 0 } else { rng.below(sig.len()) }];
  let base = b.source();
  let Some(x) = snapshots(&base, mode, false, st) else { return fails };
  for what in 0..3 {
    let how = ["with other bodies of its callees", "with other names of its variables", "with another layout and unrelated items in between"][what];
    let src: String = b.units.iter().enumerate().map(|(i, u)| {
      let u = match what {
        0 => other_callees(u, &mut rng),
        1 => other_names(u, &mut rng),
        _ => other_layout(u, &mut rng),
      };
      r#gen::module(i, &u)
    }).collect();
    let Some(y) = snapshots(&src, mode, false, st) else {
      st.count("variants_rejected", 1);
      continue;
    };
    let mut compared = 0;
    for (f, a) in &x {
      let caller = f.split("::").any(is_caller);
      if what == 0 && !caller {
        continue;
      }
      let Some(b2) = y.get(f) else { continue };
      compared += 1;
      st.evaluations += a.len() as u64;
      if let Some(d) = first_difference(a, b2) {
        fails.push(Failure { unit: unit_of(f).unwrap_or(0), item: f.clone(), detail: format!("{how} (in {mode:?}), the same function gets something else for the {d}") });
      } else if a.len() > 60 {
        st.nontrivial.insert(hash((f, b.seed, what)));
      }
    }
    st.count(["other_callees", "other_names", "other_layout"][what], compared);
  }
  if let Some(u) = b.units.first() {
    st.sample(2, || json!({"unit": u, "with_other_callees": other_callees(u, &mut Rng::new(1)), "with_other_names": other_names(u, &mut Rng::new(1))}));
  }
  fails
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C07",
    level: "exploration",
    rule: "All answers about generated functions, against the same functions with other bodies of the callees, other names of the variables, and another layout among unrelated items. Non-trivial: a function with more than 60 answers compared.",
    assumptions: &[],
    cfg: tune,
    run: c07,
    quick: (20, 48),
    thorough: (20, 500),
    corpus: true,
  }]
}
