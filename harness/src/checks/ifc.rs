//! The information flow checker: insecure values that depend on secure ones.
use std::{collections::{BTreeMap, BTreeSet}, process::Command, time::Duration};

use serde_json::json;

use super::ide::{Scratch, run_command, tools};
use crate::{r#gen::Cfg, run::*, session, tape::{Rng, Tape}};

// ---- programs whose flows are known ----

#[derive(Clone, Debug)]
enum E {
  Const(i32),
  Var(usize),
  Field(usize, usize),
  Secret(usize),
  Bin(Box<E>, Box<E>),
  Call(Box<E>),
  /// Through a closure that captures nothing, a tuple, an array or a reference.
  Wrap(u32, Box<E>),
}
#[derive(Clone, Debug)]
enum L {
  Var(usize),
  Field(usize, usize),
}
#[derive(Clone, Debug)]
enum S {
  Let(usize, E),
  LetPair(usize, E, E),
  Assign(L, E),
  /// Through a reference to the variable.
  Write(usize, L, E),
  /// By a function that gets a reference to the variable.
  CallWrite(L, E),
  If(E, Vec<S>, Vec<S>),
  While(usize, E, Vec<S>),
  Secret(usize, E),
  Sink(usize, E),
  Print(E),
  Return(E),
}

struct G<'t> {
  t: &'t mut Tape,
  n: usize,
  ints: Vec<usize>,
  pairs: Vec<usize>,
  secrets: Vec<usize>,
  budget: usize,
}
impl G<'_> {
  fn fresh(&mut self) -> usize {
    self.n += 1;
    self.n
  }
  fn expr(&mut self, d: usize) -> E {
    match self.t.weighted(&[2, 5, 3, 3, if d > 0 { 2 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 2 } else { 0 }]) {
      1 if !self.ints.is_empty() => E::Var(self.ints[self.t.below(self.ints.len())]),
      2 if !self.pairs.is_empty() => E::Field(self.pairs[self.t.below(self.pairs.len())], self.t.below(2)),
      3 if !self.secrets.is_empty() => E::Secret(self.secrets[self.t.below(self.secrets.len())]),
      4 => E::Bin(Box::new(self.expr(d - 1)), Box::new(self.expr(d - 1))),
      5 => E::Call(Box::new(self.expr(d - 1))),
      6 => E::Wrap(self.t.next(), Box::new(self.expr(d - 1))),
      _ => E::Const(self.t.below(9) as i32),
    }
  }
  fn target(&mut self) -> Option<L> {
    if !self.pairs.is_empty() && self.t.chance(40) {
      return Some(L::Field(self.pairs[self.t.below(self.pairs.len())], self.t.below(2)));
    }
    (!self.ints.is_empty()).then(|| L::Var(self.ints[self.t.below(self.ints.len())]))
  }
  fn block(&mut self, d: usize, top: bool, n: usize) -> Vec<S> {
    let (i, p) = (self.ints.len(), self.pairs.len());
    let mut v = vec![];
    for _ in 0..n {
      if self.budget == 0 {
        break;
      }
      self.budget -= 1;
      let s = match self.t.weighted(&[4, 2, 5, 2, 2, 3, 2, if top { 4 } else { 0 }, 4, 1, if top { 1 } else { 0 }]) {
        0 => {
          let e = self.expr(2);
          let x = self.fresh();
          self.ints.push(x);
          S::Let(x, e)
        }
        1 => {
          let (a, b) = (self.expr(1), self.expr(1));
          let x = self.fresh();
          self.pairs.push(x);
          S::LetPair(x, a, b)
        }
        k @ 2..=4 => {
          let e = self.expr(2);
          let Some(t) = self.target() else { continue };
          match k {
            2 => S::Assign(t, e),
            3 => S::Write(self.fresh(), t, e),
            _ => S::CallWrite(t, e),
          }
        }
        5 if d > 0 => {
          let e = self.expr(1);
          let a = self.block(d - 1, false, 3);
          let b = if self.t.chance(50) { self.block(d - 1, false, 3) } else { vec![] };
          S::If(e, a, b)
        }
        6 if d > 0 => {
          let e = self.expr(1);
          let x = self.fresh();
          S::While(x, e, self.block(d - 1, false, 4))
        }
        7 => {
          let e = self.expr(1);
          let x = self.fresh();
          self.secrets.push(x);
          S::Secret(x, e)
        }
        8 => {
          let e = self.expr(2);
          S::Sink(self.fresh(), e)
        }
        9 => S::Print(self.expr(1)),
        // What decides about an early return is no secret.
        10 => S::Return(E::Const(self.t.below(9) as i32)),
        _ => continue,
      };
      v.push(s);
    }
    if !top {
      self.ints.truncate(i);
      self.pairs.truncate(p);
    }
    v
  }
}

fn show_e(e: &E) -> String {
  match e {
    E::Const(c) => c.to_string(),
    E::Var(x) => format!("x{x}"),
    E::Field(x, f) => format!("x{x}.{f}"),
    E::Secret(x) => format!("s{x}{}", secret(*x).1),
    E::Bin(a, b) => format!("({} - {})", show_e(a), show_e(b)),
    E::Call(a) => format!("twice({})", show_e(a)),
    E::Wrap(k, a) => {
      let a = show_e(a);
      match k % 6 {
        0 => format!("(1, {a}).1"),
        1 => format!("[{a}, 2][0]"),
        2 => format!("*&{a}"),
        3 => format!("Some({a}).unwrap_or(3)"),
        4 => format!("(|y: i32| y + 1)({a})"),
        _ => format!("*Box::new({a})"),
      }
    }
  }
}
/// How to make a secret from `_`, and the value in it: secrets may be parts of others values.
fn secret(x: usize) -> (&'static str, &'static str) {
  match x % 5 {
    3 => ("(2, Sec(_))", ".1.0"),
    4 => ("Holder { s: Sec(_), n: 2 }", ".s.0"),
    _ => ("Sec(_)", ".0"),
  }
}
fn sink(x: usize) -> &'static str {
  match x % 4 {
    1 => "(Ins(_), 2)",
    2 => "(1, Show { k: Ins(_), n: 1 })",
    _ => "Ins(_)",
  }
}
fn show_l(l: &L) -> String {
  match l {
    L::Var(x) => format!("x{x}"),
    L::Field(x, f) => format!("x{x}.{f}"),
  }
}

type Taint = BTreeSet<usize>;
type Vars = BTreeMap<(usize, usize), Taint>;

/// The text of the program, with the number of the secrets that each sink must and must not depend on.
struct Print<'a> {
  out: Vec<String>,
  indent: usize,
  leaks: &'a BTreeMap<usize, Taint>,
  weak: &'a BTreeMap<usize, Taint>,
  prints: usize,
}
impl Print<'_> {
  fn line(&mut self, s: String) {
    self.out.push(format!("{}{s}", "  ".repeat(self.indent)));
  }
  /// The secrets that a sink must and, with a question mark, may leak.
  fn which(&self, sink: usize) -> String {
    let none = Taint::new();
    let must = self.leaks.get(&sink).unwrap_or(&none);
    let may = self.weak.get(&sink).unwrap_or(&none);
    may.union(must).map(|s| format!("{s}{}", if must.contains(s) { "" } else { "?" })).collect::<Vec<_>>().join(" ")
  }
  fn block(&mut self, v: &[S]) {
    for s in v {
      match s {
        S::Let(x, e) => self.line(format!("let mut x{x} = {};", show_e(e))),
        S::LetPair(x, a, b) => self.line(format!("let mut x{x} = ({}, {});", show_e(a), show_e(b))),
        S::Assign(l, e) => self.line(format!("{} = {};", show_l(l), show_e(e))),
        S::Write(r, l, e) => self.line(format!("let v{r} = {}; let r{r} = &mut {}; *r{r} = v{r};", show_e(e), show_l(l))),
        S::CallWrite(l, e) => self.line(format!("change({}, &mut {});", show_e(e), show_l(l))),
        S::If(e, a, b) => {
          self.line(format!("if {} > 3 {{", show_e(e)));
          self.indent += 1;
          self.block(a);
          self.indent -= 1;
          if b.is_empty() {
            self.line("}".into());
          } else {
            self.line("} else {".into());
            self.indent += 1;
            self.block(b);
            self.indent -= 1;
            self.line("}".into());
          }
        }
        S::While(x, e, b) => {
          self.line(format!("let mut x{x} = 0; while x{x} < {} {{ x{x} += 1;", show_e(e)));
          self.indent += 1;
          self.block(b);
          self.indent -= 1;
          self.line("}".into());
        }
        S::Secret(x, e) => self.line(format!("let s{x} = {}; // secret {x}", secret(*x).0.replace('_', &show_e(e)))),
        S::Sink(x, e) => {
          let l = self.which(*x);
          self.line(format!("let k{x} = {}; // leaks {l}", sink(*x).replace('_', &show_e(e))));
        }
        S::Print(e) => {
          self.prints += 1;
          let l = self.which(1000 + self.prints);
          // (The macro takes a name, not any expression.)
          self.line(format!("{{ let p = {}; insecure_print!(\"{{}}\", p); }} // leaks {l}", show_e(e)));
        }
        S::Return(e) => self.line(format!("if {} > 3 {{ return; }}", show_e(e))),
      }
    }
  }
}

fn taint_e(e: &E, v: &Vars) -> Taint {
  match e {
    E::Const(_) => Taint::new(),
    E::Var(x) => v.get(&(*x, 0)).cloned().unwrap_or_default(),
    E::Field(x, f) => v.get(&(*x, *f)).cloned().unwrap_or_default(),
    E::Secret(x) => v.get(&(*x, 9)).cloned().unwrap_or_default(),
    E::Bin(a, b) => &taint_e(a, v) | &taint_e(b, v),
    E::Call(a) | E::Wrap(_, a) => taint_e(a, v),
  }
}
fn key(l: &L) -> (usize, usize) {
  match l {
    L::Var(x) => (*x, 0),
    L::Field(x, f) => (*x, *f),
  }
}
/// What a value assigned to a place depends on; the sinks are collected on the way.
///
/// A reference may (`weak`) or may not count as made from the value that it refers to, so that what is written
/// through it keeps the old value's dependencies.
fn eval(b: &[S], v: &mut Vars, ctx: &Taint, leaks: &mut BTreeMap<usize, Taint>, prints: &mut usize, weak: bool) {
  for s in b {
    match s {
      S::Let(x, e) => {
        let t = &taint_e(e, v) | ctx;
        v.insert((*x, 0), t);
      }
      S::LetPair(x, a, b) => {
        let (a, b) = (&taint_e(a, v) | ctx, &taint_e(b, v) | ctx);
        v.insert((*x, 0), a);
        v.insert((*x, 1), b);
      }
      S::Assign(l, e) => {
        let t = &taint_e(e, v) | ctx;
        v.insert(key(l), t);
      }
      S::Write(_, l, e) if weak => {
        let t = &(&taint_e(e, v) | ctx) | &v.get(&key(l)).cloned().unwrap_or_default();
        v.insert(key(l), t);
      }
      S::Write(_, l, e) => {
        let t = &taint_e(e, v) | ctx;
        v.insert(key(l), t);
      }
      S::CallWrite(l, e) => {
        let t = &(&taint_e(e, v) | ctx) | &v.get(&key(l)).cloned().unwrap_or_default();
        v.insert(key(l), t);
      }
      S::If(e, a, b) => {
        let c = ctx | &taint_e(e, v);
        let mut w = v.clone();
        eval(a, v, &c, leaks, prints, weak);
        eval(b, &mut w, &c, leaks, prints, weak);
        for (k, t) in w {
          v.entry(k).or_default().extend(t);
        }
      }
      S::While(x, e, b) => {
        v.insert((*x, 0), ctx.clone());
        let start = *prints;
        loop {
          let old = v.clone();
          let c = &(ctx | &taint_e(e, v)) | &v[&(*x, 0)];
          let mut w = v.clone();
          w.get_mut(&(*x, 0)).unwrap().extend(c.clone());
          *prints = start;
          eval(b, &mut w, &c, leaks, prints, weak);
          for (k, t) in w {
            v.entry(k).or_default().extend(t);
          }
          if *v == old {
            break;
          }
        }
      }
      S::Secret(x, e) => {
        let mut t = &taint_e(e, v) | ctx;
        t.insert(*x);
        v.insert((*x, 9), t);
      }
      S::Sink(x, e) => leaks.entry(*x).or_default().extend(&taint_e(e, v) | ctx),
      S::Print(e) => {
        *prints += 1;
        leaks.entry(1000 + *prints).or_default().extend(&taint_e(e, v) | ctx);
      }
      S::Return(_) => {}
    }
  }
}

/// A module of functions; comments say which secrets each sink leaks.
pub fn unit(t: &mut Tape) -> String {
  let mut out = vec![];
  for f in 0..4 {
    let mut g = G { t, n: 0, ints: vec![], pairs: vec![], secrets: vec![], budget: 28 };
    let mut params = vec![];
    let mut v = Vars::new();
    for _ in 0..g.t.below(4) {
      let x = g.fresh();
      match g.t.below(4) {
        0 => {
          g.ints.push(x);
          params.push(format!("mut x{x}: i32"));
        }
        1 => {
          g.pairs.push(x);
          params.push(format!("mut x{x}: (i32, i32)"));
        }
        k => {
          g.secrets.push(x);
          v.insert((x, 9), [x].into());
          let ty = match x % 5 {
            3 => "(i32, Sec)",
            4 => "Holder",
            _ => "Sec",
          };
          // (The tool looks for parts of values, but not behind references.)
          params.push(format!("s{x}: {}{ty} /* secret {x} */", if k == 3 && ty == "Sec" { "&" } else { "" }));
        }
      }
    }
    let n = 4 + g.t.below(10);
    let b = g.block(3, true, n);
    let mut leaks = BTreeMap::new();
    eval(&b, &mut v.clone(), &Taint::new(), &mut leaks, &mut 0, false);
    let mut weak = BTreeMap::new();
    eval(&b, &mut v, &Taint::new(), &mut weak, &mut 0, true);
    let mut p = Print { out: vec![], indent: 1, leaks: &leaks, weak: &weak, prints: 0 };
    p.block(&b);
    // Every parameter on a line of its own.
    out.push(format!("pub fn f{f}(\n  {}\n) {{", params.join(",\n  ")));
    out.extend(p.out);
    out.push("}".into());
  }
  out.join("\n") + "\n"
}

/// Functions that have nothing to report, for one reason or another.
const ODD: &[&str] = &[
  "pub fn never(s: Sec) -> ! { let k = Ins(1); loop {} }\n",
  "pub const K: i32 = { let k = Ins(2); k.0 };\npub static T: Ins = Ins(3);\n",
  "pub fn unset() { let s: Sec; let k = Ins(1); }\n",
  "pub fn unset_later(b: bool) { let s: Sec; let k = Ins(1); if b { s = Sec(2); } }\n",
  "macro_rules! make { ($n:ident) => { pub fn $n(x: i32) { let k = Ins(x); } } }\nmake!(made);\n",
  "pub trait Tr { fn d(&self, s: Sec) { let k = Ins(1); } fn e(&self); }\n",
  "pub fn closures(s: Sec) { let f = |x: i32| { let k = Ins(x); }; f(1); }\n",
  "pub enum Opt { A(Sec), B(Ins) }\npub fn fields(a: (Sec, i32), b: i32) { let mut a = (Sec(1), b); let k = Ins(b); a.1 = 3; let j = Ins(a.1); }\n",
  "pub fn generic<T: Clone>(x: T, s: Sec) -> T { let k = Ins(1); x.clone() }\n",
  "pub fn overwritten(s: Sec) { let mut k = Ins(s.0); k = Ins(1); }\n",
  "pub fn nothing() {}\n",
];

fn c16(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  let mut rng = Rng::new(b.seed ^ hash(&b.units[0]));
  let dir = Scratch::new("ifc");
  std::fs::create_dir_all(dir.0.join("src")).unwrap();
  std::fs::write(dir.0.join("Cargo.toml"), "[package]\nname = \"proj\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\nflowistry_ifc_traits = { path = \"/repo/crates/flowistry_ifc_traits\" }\n").unwrap();
  let head = "use flowistry_ifc_traits::*;\nuse crate::*;\n";
  let mut lib = "#![allow(warnings)]\nuse flowistry_ifc_traits::*;\npub struct Sec(pub i32);\nimpl Secure for Sec {}\npub struct Ins(pub i32);\nimpl Insecure for Ins {}\npub struct Holder { pub s: Sec, pub n: i32 }\npub struct Show { pub k: Ins, pub n: i32 }\n\
    pub fn twice(x: i32) -> i32 { x + x }\npub fn change(x: i32, y: &mut i32) { *y -= x; }\n".to_string();
  let mut odd = vec![];
  for _ in 0..3 {
    let o = ODD[rng.below(ODD.len())];
    if !odd.contains(&o) {
      odd.push(o);
      lib += o;
    }
  }
  let mut texts = vec![];
  // (Sometimes none of the units, so that nothing is to be reported.)
  let some = rng.below(5) > 0 || b.units.len() == 1;
  for (i, u) in b.units.iter().enumerate() {
    if some {
      lib += &format!("mod u{i};\n");
      let t = format!("{head}{u}");
      std::fs::write(dir.0.join(format!("src/u{i}.rs")), &t).unwrap();
      texts.push(t);
    }
  }
  std::fs::write(dir.0.join("src/lib.rs"), &lib).unwrap();
  let mut c = Command::new("cargo");
  let path = std::env::join_paths(std::iter::once(tools()).chain(std::env::split_paths(&std::env::var("PATH").unwrap()))).unwrap();
  c.arg("ifc").current_dir(&dir.0).env("PATH", path).env("SYSROOT", &*session::SYSROOT).env("TERM", "dumb").env("NO_COLOR", "1");
  for v in ["CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "RUST_LOG"] {
    c.env_remove(v);
  }
  let fail = |unit: usize, d: String| vec![Failure { unit, item: "cargo ifc".into(), detail: d }];
  st.evaluations += 1;
  let Some(a) = run_command(c, Duration::from_secs(200)) else { return fail(0, "does not finish".into()) };
  if a.code != 0 {
    if a.stderr.contains("error[E") {
      st.count("crates_rejected", 1);
      eprintln!("{}", a.stderr.chars().take(2000).collect::<String>());
      return vec![];
    }
    return fail(0, format!("exit code {}: {}\nwith {odd:?}", a.code, a.stderr));
  }
  // What is reported: (file, line of the source, line of the destination).
  let mut got: BTreeSet<(String, usize, usize)> = BTreeSet::new();
  let lines: Vec<&str> = a.stderr.lines().collect();
  for (i, l) in lines.iter().enumerate() {
    let Some(r) = l.strip_prefix("ERROR: insecure flow in ") else { continue };
    let Some((file, at)) = r.split_once(" from data at ") else { return fail(0, format!("not understood: {l}")) };
    let line = |s: &str| s.split(':').next().and_then(|n| n.parse::<usize>().ok());
    let to = lines[i..].iter().find_map(|l| l.strip_prefix("to data at "));
    match (line(at), to.and_then(line)) {
      (Some(x), Some(y)) => {
        got.insert((file.to_string(), x, y));
      }
      _ => return fail(0, format!("no source or destination: {l} {to:?}\nof {}\nin {lib}", a.stderr)),
    }
  }
  let none = lines.iter().filter(|l| l.trim() == "No security issues found!").count();
  if none != usize::from(got.is_empty()) {
    return fail(0, format!("{} flows are reported, and {none} times that there are none:\n{}\n{lib}", got.len(), a.stderr));
  }
  st.count("reported", got.len() as u64);
  st.count("crates_without_flows", u64::from(got.is_empty()));
  if let Some(x) = got.iter().find(|x| x.0 == "lib.rs") {
    return fail(0, format!("an insecure flow is reported from line {} to line {} of lib.rs, where there is none:\n{}\n{lib}", x.1, x.2, a.stderr));
  }
  let mut fails = vec![];
  for (i, t) in texts.iter().enumerate() {
    let file = format!("u{i}.rs");
    let mut secrets: Vec<(usize, usize)> = vec![];
    let mut sinks = vec![];
    let mut want: BTreeSet<(String, usize, usize)> = BTreeSet::new();
    let mut may = BTreeSet::new();
    for (n, l) in t.lines().enumerate() {
      if l.starts_with("pub fn f") {
        secrets.clear();
      }
      let num = |s: &str| s.trim().trim_end_matches(',').trim_end_matches("*/").trim().parse::<usize>().ok();
      if let Some((_, x)) = l.split_once(" secret ") {
        secrets.push((num(x).unwrap(), n + 1));
      }
      if let Some((_, x)) = l.split_once("// leaks ") {
        sinks.push(n + 1);
        for s in x.split(' ').filter(|s| !s.is_empty()) {
          let k: usize = s.trim_end_matches('?').parse().unwrap();
          let flow = (file.clone(), secrets.iter().find(|x| x.0 == k).unwrap().1, n + 1);
          if s.ends_with('?') { may.insert(flow) } else { want.insert(flow) };
        }
      }
      st.count("sinks", u64::from(l.contains("// leaks ")));
    }
    let got: BTreeSet<_> = got.iter().filter(|x| x.0 == file).cloned().collect();
    st.evaluations += sinks.len() as u64;
    st.count("flows", want.len() as u64);
    if let Some(x) = got.symmetric_difference(&want).find(|x| !may.contains(x)) {
      fails.push(Failure { unit: i, item: "cargo ifc".into(), detail: format!("the flow from line {} to line {} is {}:\n{}", x.1, x.2, if want.contains(x) { "not reported" } else { "reported, but does not exist" },
        t.lines().enumerate().map(|(n, l)| format!("{:3} {l}\n", n + 1)).collect::<String>()) });
    }
    if !want.is_empty() && sinks.len() > want.len() {
      st.nontrivial.insert(hash(t));
      st.sample(2, || json!({"source": t, "reported": got}));
    }
  }
  fails
}

fn tune(_: &mut Rng) -> Cfg {
  Cfg { own: Some(unit), ..Default::default() }
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C16",
    level: "exploration",
    rule: "Runs of `cargo ifc` on generated crates with known flows from secure to insecure values, comparing all reported pairs of lines. Non-trivial: a module with flows to some but not all of the insecure values.",
    assumptions: &[],
    cfg: tune,
    run: c16,
    quick: (6, 400),
    thorough: (6, 12000),
    corpus: false,
  }]
}
