//! What the command-line tool answers to the editor.
use std::{
  collections::{BTreeMap, BTreeSet, HashMap},
  io::Read,
  path::{Path, PathBuf},
  process::{Command, Stdio},
  sync::atomic::{AtomicUsize, Ordering},
  time::{Duration, Instant},
};

use base64::Engine;
use flowistry::{
  extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode},
  infoflow::{Direction, compute_dependency_spans, compute_flow, mutation::ModularMutationVisitor},
};
use rustc_hir::{BodyId, def_id::LocalDefId};
use rustc_middle::{mir::{visit::Visitor, *}, ty::TyCtxt};
use rustc_span::{FileName, Span, SpanData};
use rustc_utils::{BodyExt, SpanExt, mir::location_or_arg::LocationOrArg, source_map::spanner::{EnclosingHirSpans, Spanner}};
use serde_json::{Value, json};

use super::flow::tune;
use crate::{r#gen, run::*, session, tape::Rng};

const IDE_ARGS: &[&str] = &["-Cdebuginfo=2"];

/// Pieces of code that the generator does not make.
const ODD: &[&str] = &[
  "const C: usize = { let f = |x: usize| x + 1; 3 };\nstatic S: i32 = 1 + 2;\n",
  "macro_rules! make { ($n:ident) => { pub fn $n(x: i32) -> i32 { let y = x; y } } }\nmake!(made);\n",
  "pub struct P { a: i32 }\nimpl P {\n  pub fn get(&self) -> i32 { self.a }\n  pub fn set(&mut self, é: i32) { /* éü */ self.a = é; }\n}\n",
  "pub trait T {\n  fn d(&self) -> i32 { let x = 3; x }\n  fn e(&self);\n}\n",
  "pub fn outer(x: i32) -> i32 {\n  fn inner(y: i32) -> i32 { y + 1 }\n  let f = |z: i32| { let g = move |w: i32| w + z; g(1) };\n  inner(x) + f(2)\n}\n",
  "pub const fn k(x: i32) -> i32 { x + 1 }\npub fn s(b: bool) -> &'static str { let é = \"é🦀\"; if b { é } else { \"🦀\" } }\n",
  "pub unsafe fn raw(p: *mut i32) -> i32 { unsafe { *p = 1; *p } }\n",
  "pub fn nothing() {}\npub fn never() -> ! { loop {} }\n",
  "pub fn tabs(x: i32) -> i32 {\n\tlet y =\n\t\tx\n\n\t\t+ 1;\n\treturn y;\n}\n",
  "pub fn shown(x: i32, y: &mut i32) -> String { *y += 1; println!(\"{x} {}\", y); let s = format!(\"{}-{x}\", *y); assert!(x > 1); s }\n",
  "pub fn pattern((a, b): (i32, &mut i32), [c, d]: [i32; 2]) -> i32 { let (e, _) = (a, c); if let Some(f) = Some(d) { *b = f; } e }\n",
  "pub mod deep { pub mod er { pub fn f(x: Option<i32>) -> i32 { let Some(y) = x else { return 0 }; y } } }\n",
];

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
  pub fn new(what: &str) -> Scratch {
    let d = std::env::temp_dir().join(format!("vh-{what}-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d.canonicalize().unwrap())
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

type Pos = (usize, usize);

struct Files {
  text: BTreeMap<String, Vec<Vec<char>>>,
}
impl Files {
  /// The characters within a range that are not white space.
  fn chars(&self, file: &str, a: Pos, b: Pos, out: &mut BTreeSet<Pos>) {
    let t = &self.text[file];
    for l in a.0..=b.0.min(t.len() - 1) {
      let lo = if l == a.0 { a.1 } else { 0 };
      let hi = if l == b.0 { b.1 } else { t[l].len() };
      for c in lo..hi.min(t[l].len()) {
        if !t[l][c].is_whitespace() {
          out.insert((l, c));
        }
      }
    }
  }
}

/// What is expected about a place that can be selected.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Place_ {
  range: (Pos, Pos),
  slice: BTreeSet<Pos>,
  direct: BTreeSet<Pos>,
}
#[derive(Clone, Debug)]
struct Expected {
  name: String,
  unit: Option<usize>,
  file: String,
  span: (Pos, Pos),
  size: u32,
  containers: Vec<(Pos, Pos)>,
  places: Vec<Place_>,
  closure: bool,
}

fn pos_of(tcx: TyCtxt<'_>, b: rustc_span::BytePos) -> (String, Pos) {
  let p = tcx.sess.source_map().lookup_char_pos(b);
  let f = match &p.file.name {
    FileName::Real(r) => r.local_path().unwrap().file_name().unwrap().to_str().unwrap().to_string(),
    _ => "?".into(),
  };
  (f, (p.line - 1, p.col.0))
}
fn range_of(tcx: TyCtxt<'_>, s: Span) -> (Pos, Pos) {
  (pos_of(tcx, s.lo()).1, pos_of(tcx, s.hi()).1)
}

fn expect<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, body_id: BodyId, files: &Files, span: Span) -> Option<Expected> {
  let facts = session::facts(tcx, def)?;
  let body = &facts.body;
  let file = pos_of(tcx, span.lo()).0;
  let results = compute_flow(tcx, body_id, facts);
  let spanner = Spanner::new(tcx, body_id, body);
  // The mentions of places, by where they are in the source.
  let mut mentions: Vec<(SpanData, Vec<(Place<'tcx>, LocationOrArg)>)> = vec![];
  for m in spanner.mir_span_tree.iter() {
    let ts = m.locations.iter().map(|l| (m.place, *l));
    match mentions.iter_mut().find(|x| x.0 == m.span) {
      Some(x) => x.1.extend(ts),
      None => mentions.push((m.span, ts.collect())),
    }
  }
  // What each instruction reads and writes directly.
  let info = &results.analysis.place_info;
  let mut touched: Vec<(LocationOrArg, Place<'tcx>)> = vec![];
  for loc in body.all_locations() {
    let mut v = ModularMutationVisitor::new(info, |l, ms| {
      for m in ms {
        for i in &m.inputs {
          touched.extend(info.reachable_values(*i, Mutability::Not).iter().map(|p| (LocationOrArg::Location(l), *p)));
        }
        touched.extend(info.reachable_values(m.mutated, Mutability::Mut).iter().map(|p| (LocationOrArg::Location(l), *p)));
      }
    });
    match super::util::at(body, loc) {
      super::util::At::Stmt(s) => v.visit_statement(s, loc),
      super::util::At::Term(t) => v.visit_terminator(t, loc),
    }
  }
  let mut places = vec![];
  for (sp, ts) in mentions {
    let slice = compute_dependency_spans(&results, vec![ts.clone()], Direction::Both, &spanner).pop().unwrap();
    let mut p = Place_ { range: range_of(tcx, sp.span()), slice: Default::default(), direct: Default::default() };
    for s in &slice {
      let (a, b) = range_of(tcx, *s);
      files.chars(&file, a, b, &mut p.slice);
    }
    for (t, _) in ts {
      let reach = info.reachable_values(t, Mutability::Not);
      for l in touched.iter().filter(|(_, q)| reach.contains(q)).map(|x| x.0).collect::<std::collections::HashSet<_>>() {
        for s in spanner.location_to_spans(l, body, EnclosingHirSpans::None) {
          if slice.iter().any(|x| x.contains(s)) {
            let (a, b) = range_of(tcx, s);
            files.chars(&file, a, b, &mut p.direct);
          }
        }
      }
    }
    places.push(p);
  }
  places.sort();
  let hir = tcx.hir_body(body_id);
  let mut containers = vec![range_of(tcx, hir.value.span), range_of(tcx, tcx.hir_fn_decl_by_hir_id(tcx.hir_body_owner(body_id))?.output.span())];
  if let (Some(a), Some(b)) = (hir.params.first(), hir.params.last()) {
    containers.push((pos_of(tcx, a.span.lo()).1, pos_of(tcx, b.span.hi()).1));
  }
  containers.sort();
  let name = tcx.def_path_str(def.to_def_id());
  let unit = name.split("::").find_map(|c| c.strip_prefix('u').and_then(|n| n.parse::<usize>().ok()));
  Some(Expected { name, unit, file, span: range_of(tcx, span), size: span.size(), containers, places, closure: tcx.is_closure_like(def.to_def_id()) })
}

pub fn tools() -> PathBuf {
  std::env::var("VERIF_TOOLS").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join(".target/tools/debug"))
}

pub struct Answer {
  pub code: i32,
  pub stdout: String,
  pub stderr: String,
}

/// Runs a command with a time limit.
pub fn run_command(mut c: Command, limit: Duration) -> Option<Answer> {
  let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
  let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
  let to = std::thread::spawn(move || { let mut s = vec![]; let _ = o.read_to_end(&mut s); String::from_utf8_lossy(&s).to_string() });
  let te = std::thread::spawn(move || { let mut s = vec![]; let _ = e.read_to_end(&mut s); String::from_utf8_lossy(&s).to_string() });
  let start = Instant::now();
  let status = loop {
    if let Some(s) = child.try_wait().ok()? {
      break Some(s);
    }
    if start.elapsed() > limit {
      let _ = child.kill();
      let _ = child.wait();
      break None;
    }
    std::thread::sleep(Duration::from_millis(5));
  };
  status.map(|s| Answer { code: s.code().unwrap_or(-1), stdout: to.join().unwrap(), stderr: te.join().unwrap() })
}

fn flowistry(dir: &Path, args: &[String]) -> Option<Answer> {
  let mut c = Command::new("cargo");
  let path = std::env::join_paths(std::iter::once(tools()).chain(std::env::split_paths(&std::env::var("PATH").unwrap()))).unwrap();
  c.arg("flowistry").args(args).current_dir(dir).env("PATH", path).env("CARGO_PATH", "cargo").env("SYSROOT", &*session::SYSROOT);
  for v in ["CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "RUST_LOG"] {
    c.env_remove(v);
  }
  run_command(c, Duration::from_secs(120))
}

fn decode(out: &str) -> Result<Value, String> {
  let b = base64::engine::general_purpose::STANDARD.decode(out.trim()).map_err(|e| format!("the output is not base64 ({e}): {:?}", out.chars().take(200).collect::<String>()))?;
  let mut s = String::new();
  flate2::read::GzDecoder::new(&b[..]).read_to_string(&mut s).map_err(|e| format!("the output is not compressed text: {e}"))?;
  serde_json::from_str(&s).map_err(|e| format!("the output is not JSON: {e}"))
}

fn jrange(v: &Value) -> Option<(Pos, Pos)> {
  let p = |v: &Value| Some((v["line"].as_u64()? as usize, v["column"].as_u64()? as usize));
  Some((p(&v["start"])?, p(&v["end"])?))
}

fn compare(e: &Expected, out: &Value, files: &Files) -> Result<(), String> {
  let ok = &out["Ok"];
  let ranges = |v: &Value| -> Result<Vec<(Pos, Pos)>, String> { v.as_array().ok_or("a list of ranges is missing")?.iter().map(|r| jrange(r).ok_or_else(|| format!("not a range: {r}"))).collect() };
  let mut c = ranges(&ok["containers"])?;
  c.sort();
  if c != e.containers {
    return Err(format!("the containers are {c:?}, not {:?}", e.containers));
  }
  let mut got = vec![];
  for p in ok["place_info"].as_array().ok_or("no place_info")? {
    let range = jrange(&p["range"]).ok_or("no range")?;
    let mut q = Place_ { range, slice: Default::default(), direct: Default::default() };
    for (k, set) in [("slice", &mut q.slice), ("direct_influence", &mut q.direct)] {
      for (a, b) in ranges(&p[k])? {
        if a.0 != b.0 {
          return Err(format!("a range of the {k} of {range:?} goes over several lines: {a:?} to {b:?}"));
        }
        let t = &files.text[&e.file][a.0];
        if a.1 < b.1 && t.get(a.1).is_some_and(|c| c.is_whitespace()) {
          return Err(format!("a range of the {k} of {range:?} begins with white space: {a:?} to {b:?}"));
        }
        files.chars(&e.file, a, b, set);
      }
    }
    // The ranges that are highlighted for the place itself are those of the place.
    let (mut x, mut y) = (BTreeSet::new(), BTreeSet::new());
    for (a, b) in ranges(&p["ranges"])? {
      files.chars(&e.file, a, b, &mut x);
    }
    files.chars(&e.file, range.0, range.1, &mut y);
    if x != y {
      return Err(format!("the ranges of the place at {range:?} are {}", p["ranges"]));
    }
    if let Some(d) = q.direct.difference(&q.slice).next() {
      return Err(format!("{d:?} is directly influenced by the place at {range:?} but not in its slice"));
    }
    got.push(q);
  }
  got.sort();
  if got.iter().map(|p| p.range).ne(e.places.iter().map(|p| p.range)) {
    return Err(format!("the places that can be selected are at {:?}, not {:?}", got.iter().map(|p| p.range).collect::<Vec<_>>(), e.places.iter().map(|p| p.range).collect::<Vec<_>>()));
  }
  for (a, b) in got.iter().zip(&e.places) {
    for (what, x, y) in [("slice", &a.slice, &b.slice), ("direct influence", &a.direct, &b.direct)] {
      if let Some(d) = x.symmetric_difference(y).next() {
        return Err(format!("the {what} of the place at {:?} {} the character at {d:?}", a.range, if x.contains(d) { "contains" } else { "lacks" }));
      }
    }
  }
  Ok(())
}

fn with_mode<R>(m: Option<EvalMode>, f: impl FnOnce() -> R) -> R {
  match m {
    Some(m) => EVAL_MODE.set(m, f),
    None => f(),
  }
}

/// The units without the bodies of the functions that rustc rejects: the tool needs a crate that compiles.
pub fn accepted(units: &[String]) -> Option<Vec<String>> {
  let b = Batch { units: units.to_vec(), seed: 0 };
  let bad: Vec<(usize, String)> = session::run(&b.source(), &[], |tcx| {
    session::bodies(tcx).into_iter().filter(|(d, _)| session::facts(tcx, *d).is_none())
      .filter_map(|(d, _)| {
        let root = tcx.typeck_root_def_id(d.to_def_id());
        Some((super::laws::unit_of(&tcx.def_path_str(d.to_def_id()))?, tcx.opt_item_name(root)?.to_string()))
      }).collect()
  }).result?;
  Some(units.iter().enumerate().map(|(i, u)| super::modular::without_bodies(u, &bad.iter().filter(|(j, _)| *j == i).map(|(_, n)| n.clone()).collect())).collect())
}

fn c17(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  let mut fails = vec![];
  let mut rng = Rng::new(b.seed ^ hash(&b.units[0]));
  let Some(units) = accepted(&b.units) else {
    st.count("batches_rejected", 1);
    return fails;
  };
  let dir = Scratch::new("ide");
  std::fs::create_dir_all(dir.0.join("src")).unwrap();
  std::fs::write(dir.0.join("Cargo.toml"), "[package]\nname = \"proj\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n").unwrap();
  let mut lib = String::new();
  let mut texts: BTreeMap<String, String> = BTreeMap::new();
  if rng.below(3) == 0 {
    lib += "// é🦀 first line\n\n";
  }
  lib += &crate::features::items(&units);
  for (i, u) in units.iter().enumerate() {
    if hash(u) % 2 == 0 {
      lib += &r#gen::module(i, u);
    } else {
      lib += &format!("pub mod u{i};\n");
      texts.insert(format!("u{i}.rs"), u.clone());
    }
    for _ in 0..2 {
      // (Twice the same would not compile.)
      let o = ODD[rng.below(ODD.len())];
      if !lib.contains(o) {
        lib += o;
      }
    }
  }
  let broken = rng.below(12) == 0;
  texts.insert("lib.rs".into(), lib.clone());
  let crlf = rng.below(6) == 0;
  for (n, t) in &texts {
    let t = if crlf { t.replace('\n', "\r\n") } else { t.clone() };
    std::fs::write(dir.0.join("src").join(n), t).unwrap();
  }
  let files = Files { text: texts.iter().map(|(n, t)| (n.clone(), t.split('\n').map(|l| l.chars().collect()).collect())).collect() };
  let mode = match rng.below(3) {
    0 => None,
    _ => Some(EvalMode {
      context_mode: [ContextMode::SigOnly, ContextMode::Recurse][rng.below(2)],
      mutability_mode: [MutabilityMode::DistinguishMut, MutabilityMode::IgnoreMut][rng.below(2)],
      pointer_mode: [PointerMode::Precise, PointerMode::Conservative][rng.below(2)],
    }),
  };
  let mut mode_args = vec![];
  if let Some(m) = mode {
    mode_args.extend(["--context-mode".to_string(), format!("{:?}", m.context_mode), "--mutability-mode".into(), format!("{:?}", m.mutability_mode), "--pointer-mode".into(), format!("{:?}", m.pointer_mode)]);
  }
  let out = session::run_file(&dir.0.join("src/lib.rs"), IDE_ARGS, |tcx| {
    let mut v = vec![];
    for def in tcx.hir_body_owners() {
      if !tcx.hir_body_owner_kind(def).is_fn_or_closure() {
        continue;
      }
      // (Constants are not searched.)
      if !tcx.def_kind(tcx.typeck_root_def_id(def.to_def_id())).is_fn_like() {
        continue;
      }
      let body_id = tcx.hir_body_owned_by(def).id();
      let span = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(def));
      if span.from_expansion() {
        continue;
      }
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_mode(mode, || expect(tcx, def, body_id, &files, span))));
      match r {
        Ok(Some(e)) => v.push(e),
        Ok(None) => return Err(format!("{} is rejected", tcx.def_path_str(def.to_def_id()))),
        Err(e) => return Err(format!("panic for {}: {}", tcx.def_path_str(def.to_def_id()), session::panic_message(&*e))),
      }
    }
    Ok(v)
  });
  let exp = match out.result {
    Some(Ok(v)) => v,
    Some(Err(e)) => {
      st.count("crates_skipped", 1);
      eprintln!("C17 skips a crate: {e}");
      return fails;
    }
    None => {
      st.count("crates_rejected", 1);
      eprintln!("C17 rejects a crate: {:?} {:?}", out.diags, out.panicked);
      return fails;
    }
  };
  let mut fail = |u: Option<usize>, item: String, detail: String| fails.push(Failure { unit: u.unwrap_or(0), item, detail });
  let ask = |args: Vec<String>| -> Result<Answer, String> {
    flowistry(&dir.0, &args).ok_or_else(|| format!("`cargo flowistry {}` does not finish", args.join(" ")))
  };
  // The functions of a file.
  for f in texts.keys() {
    let args = vec!["spans".to_string(), format!("src/{f}")];
    st.evaluations += 1;
    let r = ask(args.clone()).and_then(|a| if a.code != 0 { Err(format!("exit code {}: {}", a.code, a.stderr)) } else { decode(&a.stdout) }).and_then(|v| {
      let mut got: Vec<_> = v["Ok"]["spans"].as_array().ok_or_else(|| format!("no spans: {v}"))?.iter().filter_map(jrange).collect();
      got.sort();
      let mut want: Vec<_> = exp.iter().filter(|e| e.file == *f).map(|e| e.span).collect();
      want.sort();
      if got == want { Ok(()) } else { Err(format!("the functions in {f} are at {got:?}, not {want:?}")) }
    });
    if let Err(e) = r {
      fail(None, f.clone(), e);
    }
  }
  // What is focused on at a position.
  let mut asked: Vec<(String, Pos)> = vec![];
  for _ in 0..5 {
    let e = &exp[rng.below(exp.len())];
    let (a, z) = e.span;
    let line = a.0 + rng.below(z.0 - a.0 + 1);
    let len = files.text[&e.file][line].len();
    let (lo, hi) = (if line == a.0 { a.1 } else { 0 }, if line == z.0 { z.1 } else { len });
    asked.push((e.file.clone(), (line, lo + rng.below(hi - lo + 1))));
  }
  {
    let fs: Vec<_> = files.text.keys().collect();
    let f = fs[rng.below(fs.len())];
    let line = rng.below(files.text[f].len());
    asked.push((f.clone(), (line, rng.below(files.text[f][line].len() + 1))));
    if rng.below(4) == 0 {
      // The end of the file.
      let line = files.text[f].len() - 1;
      asked.push((f.clone(), (line, files.text[f][line].len())));
    }
  }
  let mut seen = BTreeSet::new();
  for (f, p) in asked {
    let mut inside: Vec<&Expected> = exp.iter().filter(|e| e.file == f && e.span.0 <= p && p <= e.span.1).collect();
    inside.sort_by_key(|e| e.size);
    inside.retain({
      let m = inside.first().map(|e| e.size);
      move |e| Some(e.size) == m
    });
    let mut args = mode_args.clone();
    args.extend(["focus".to_string(), format!("src/{f}"), p.0.to_string(), p.1.to_string()]);
    if let [e] = inside[..] {
      // (Several positions in the same function give the same answer.)
      if !seen.insert(e.name.clone()) && rng.below(3) > 0 {
        continue;
      }
    }
    st.evaluations += 1;
    let r = ask(args.clone()).and_then(|a| if a.code != 0 { Err(format!("exit code {}: {}", a.code, a.stderr)) } else { decode(&a.stdout) }).and_then(|v| {
      if inside.is_empty() {
        st.count("outside", 1);
        if v["Err"]["type"] == json!("AnalysisError") && v["Err"]["error"].is_string() { Ok(()) } else { Err(format!("there is no function, but the answer is {v}")) }
      } else {
        st.count("focused", 1);
        if mode.is_some_and(|m| m != EvalMode::default()) {
          st.count("in_other_modes", 1);
        }
        if inside.iter().any(|e| e.places.len() > 5) {
          st.nontrivial.insert(hash((&inside[0].name, b.seed)));
          st.sample(2, || json!({"command": args, "source": texts[&f].lines().skip(inside[0].span.0.0).take(inside[0].span.1.0 - inside[0].span.0.0 + 1).collect::<Vec<_>>(), "places": inside[0].places.len()}));
        }
        let errs: Vec<String> = inside.iter().filter_map(|e| compare(e, &v, &files).err()).collect();
        if errs.len() == inside.len() { Err(errs[0].clone()) } else { Ok(()) }
      }
    });
    if let Err(e) = r {
      fail(inside.first().and_then(|e| e.unit), inside.first().map(|e| e.name.clone()).unwrap_or_default(), format!("`cargo flowistry {}`: {e}\n{}", args.join(" "), texts[&f]));
    }
  }
  // Files that are not part of the crate, and crates that do not compile.
  if rng.below(4) == 0 {
    std::fs::write(dir.0.join("src/unused.rs"), "pub fn f() {}\n").unwrap();
    for (cmd, want) in [(vec!["spans", "src/unused.rs"], "FileNotFound"), (vec!["focus", "src/unused.rs", "0", "12"], "AnalysisError")] {
      st.evaluations += 1;
      st.count("unknown_files", 1);
      let r = ask(cmd.iter().map(|s| s.to_string()).collect()).and_then(|a| if a.code != 0 { Err(format!("exit code {}: {}", a.code, a.stderr)) } else { decode(&a.stdout) }).and_then(|v| {
        if v["Err"]["type"] == json!(want) { Ok(()) } else { Err(format!("for a file outside of the crate, the answer is {v}")) }
      });
      if let Err(e) = r {
        fail(None, cmd[0].into(), e);
      }
    }
  }
  if broken {
    std::fs::write(dir.0.join("src/lib.rs"), lib + "pub fn wrong() -> i32 { \"\" }\n").unwrap();
    for cmd in [vec!["spans", "src/lib.rs"], vec!["focus", "src/lib.rs", "0", "0"]] {
      st.evaluations += 1;
      st.count("broken_crates", 1);
      let r = ask(cmd.iter().map(|s| s.to_string()).collect()).and_then(|a| {
        if a.code != 0 && a.stdout.trim().is_empty() && a.stderr.contains("mismatched types") { Ok(()) } else { Err(format!("for a crate that does not compile: exit code {}, output {:?}, errors {:?}", a.code, a.stdout, a.stderr)) }
      });
      if let Err(e) = r {
        fail(None, cmd[0].into(), e);
      }
    }
  }
  fails
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C17",
    level: "exploration",
    rule: "Runs of `cargo flowistry spans|focus` on generated crates of several files, in all modes and at random positions, against the analysis of the function around the position. Non-trivial: an answer about a function in which more than five places can be selected.",
    assumptions: &[],
    cfg: tune,
    run: c17,
    quick: (2, 80),
    thorough: (2, 1200),
    corpus: false,
  }]
}
