//! Runs checks over batches of generated units, shrinks failures, writes evidence and replay files.
use std::{
  collections::{BTreeMap, HashSet},
  hash::{DefaultHasher, Hash, Hasher},
  path::PathBuf,
  sync::Mutex,
  time::{Duration, Instant},
};

use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::{BodyId, def_id::LocalDefId};
use rustc_middle::ty::TyCtxt;
use serde_json::{Value, json};

use crate::{
  r#gen::{self, Cfg},
  session,
  tape::{self, Rng, Tape},
};

#[derive(Default)]
pub struct Stats {
  pub evaluations: u64,
  pub nontrivial: HashSet<u64>,
  pub samples: Vec<Value>,
  pub counters: BTreeMap<String, u64>,
}
impl Stats {
  pub fn count(&mut self, k: &str, n: u64) {
    *self.counters.entry(k.to_string()).or_default() += n;
  }
  pub fn sample(&mut self, limit: usize, f: impl FnOnce() -> Value) {
    if self.samples.len() < limit {
      self.samples.push(f());
    }
  }
  pub fn merge(&mut self, o: Stats) {
    self.evaluations += o.evaluations;
    self.nontrivial.extend(o.nontrivial);
    for s in o.samples {
      if self.samples.len() < 8 {
        self.samples.push(s);
      }
    }
    for (k, n) in o.counters {
      if k.starts_with("slowest") {
        let e = self.counters.entry(k).or_default();
        *e = (*e).max(n);
        continue;
      }
      *self.counters.entry(k).or_default() += n;
    }
  }
}

pub fn hash(x: impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

#[derive(Clone, Debug)]
pub struct Failure {
  pub unit: usize,
  pub item: String,
  pub detail: String,
}

/// A set of units (module bodies) with the seed of the random choices the check makes about them.
pub struct Batch {
  pub units: Vec<String>,
  pub seed: u64,
}
impl Batch {
  pub fn source(&self) -> String {
    crate::features::items(&self.units) + &self.units.iter().enumerate().map(|(i, u)| r#gen::module(i, u)).collect::<String>()
  }
}

pub struct FnCtx<'a, 'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub def: LocalDefId,
  pub body_id: BodyId,
  pub facts: &'tcx BodyWithBorrowckFacts<'tcx>,
  pub name: String,
  pub unit: usize,
  pub rng: Rng,
  pub src: &'a str,
}

type FnCheck = for<'a, 'tcx> fn(&mut FnCtx<'a, 'tcx>, &mut Stats) -> Result<(), String>;

pub const NO_OVERFLOW: &[&str] = &["-Coverflow-checks=off"];

/// Runs `f` on every accepted function of the batch. A panic while checking a function is a failure of that function.
pub fn over_functions(b: &Batch, args: &[&str], stats: &mut Stats, f: FnCheck) -> Vec<Failure> {
  let src = b.source();
  let seed = b.seed;
  let out = session::run(&src, args, |tcx| {
    let mut fails = vec![];
    let mut st = Stats::default();
    for (def, body_id) in session::bodies(tcx) {
      let path = tcx.def_path_str(def.to_def_id());
      let unit = path.split("::").find_map(|c| c.strip_prefix('u').and_then(|n| n.parse::<usize>().ok()));
      let Some(unit) = crate::features::home(&b.units, &path).or(unit) else { continue };
      let name = path.splitn(2, "::").nth(1).unwrap_or("").to_string();
      st.count("functions", 1);
      let Some(facts) = session::facts(tcx, def) else {
        st.count("rejected_by_rustc", 1);
        continue;
      };
      let mut cx = FnCtx { tcx, def, body_id, facts, rng: Rng::new(seed ^ hash(&name)), name: name.clone(), unit, src: &src };
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx, &mut st)));
      let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", session::panic_message(&*e))),
      };
      if let Err(detail) = r {
        fails.push(Failure { unit, item: name, detail });
      }
    }
    (fails, st)
  });
  match out.result {
    Some((f, st)) => {
      stats.merge(st);
      f
    }
    None => {
      stats.count("batches_rejected", 1);
      if let Some(p) = out.panicked {
        stats.count("batches_panicked", 1);
        eprintln!("batch panicked: {p}");
      }
      vec![]
    }
  }
}

pub struct Check {
  pub id: &'static str,
  pub level: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub cfg: fn(&mut Rng) -> Cfg,
  pub run: fn(&Batch, &mut Stats) -> Vec<Failure>,
  /// (units per batch, batches) per tier
  pub quick: (usize, usize),
  pub thorough: (usize, usize),
  /// Also run on the hand-written units in /verif/corpus.
  pub corpus: bool,
}

fn corpus() -> Vec<String> {
  let mut v: Vec<_> = std::fs::read_dir(verif_dir().join("corpus")).into_iter().flatten().flatten().map(|e| e.path())
    .filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
  v.sort();
  v.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect()
}

pub fn verif_dir() -> PathBuf {
  std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn base_seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn threads() -> usize {
  std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
}

pub fn par<T: Send, R: Send>(items: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
  let n = items.len();
  let queue = Mutex::new(items.into_iter().enumerate().collect::<std::collections::VecDeque<_>>());
  let out = Mutex::new((0..n).map(|_| None).collect::<Vec<Option<R>>>());
  std::thread::scope(|s| {
    for _ in 0..threads().min(n.max(1)) {
      s.spawn(|| {
        loop {
          let Some((i, x)) = queue.lock().unwrap().pop_front() else { break };
          let r = f(x);
          out.lock().unwrap()[i] = Some(r);
        }
      });
    }
  });
  out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

pub struct Known {
  pub property: String,
  pub unit: String,
  pub what: String,
}

/// Findings listed in known_findings.txt (never written by a run). Each is one specific unit.
pub fn known(id: &str) -> Vec<Known> {
  let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
  text.lines().filter_map(|l| {
    let v: Value = serde_json::from_str(l).ok()?;
    Some(Known { property: v["property"].as_str()?.into(), unit: v["unit"].as_str()?.into(), what: v["what"].as_str()?.into() })
  }).filter(|k| k.property == id).collect()
}

pub fn replay_path(id: &str) -> PathBuf {
  let d = verif_dir().join("replays");
  let _ = std::fs::create_dir_all(&d);
  d.join(format!("{id}.json"))
}

pub fn write_evidence(id: &str, tier: &str, level: &str, rule: &str, assumptions: &[&str], stats: &Stats, wall: f64, violations: u64, extra: Value) {
  let mut cov = json!({
    "evaluations": stats.evaluations,
    "distinct_nontrivial": stats.nontrivial.len(),
    "rule": rule,
    "samples": stats.samples,
    "counters": stats.counters,
  });
  if let (Some(c), Value::Object(e)) = (cov.as_object_mut(), extra) {
    c.extend(e);
  }
  let ev = json!({
    "property": id, "tier": tier, "seed": base_seed(), "level": level, "coverage": cov,
    "assumptions": assumptions, "wall_s": (wall * 100.0).round() / 100.0, "violations": violations,
  });
  let d = verif_dir().join("evidence");
  let _ = std::fs::create_dir_all(&d);
  std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
}

/// Bytes of memory in use: rustc leaks some in every session.
fn memory() -> u64 {
  let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok());
  pages.unwrap_or(0) * 4096
}

/// Where the supervisor finds the batches that are being looked at.
fn inflight(id: &str) -> Option<PathBuf> {
  std::env::var("VERIF_SUPERVISED").ok()?;
  Some(verif_dir().join("replays").join(format!("{id}.running")))
}

/// Runs a check in a process of its own, and takes an analysis that never ends, or that takes down
/// the whole process (such as with a stack overflow), for a violation on the batch it was looking at.
pub fn supervise(c: &Check, tier: &str) -> i32 {
  use std::os::unix::process::ExitStatusExt;
  let start = Instant::now();
  let running = verif_dir().join("replays").join(format!("{}.running", c.id));
  let _ = std::fs::remove_dir_all(&running);
  std::fs::create_dir_all(&running).unwrap();
  let _ = std::fs::remove_file(replay_path(c.id));
  let patience = Duration::from_secs(std::env::var("VERIF_PATIENCE").ok().and_then(|x| x.parse().ok()).unwrap_or(300));
  let mut child = std::process::Command::new(std::env::current_exe().unwrap()).args(["run", c.id, "--tier", tier]).env("VERIF_SUPERVISED", "1").spawn().unwrap();
  let batches = || {
    let mut v: Vec<_> = std::fs::read_dir(&running).into_iter().flatten().flatten()
      .filter_map(|e| Some((e.metadata().ok()?.modified().ok()?.elapsed().unwrap_or_default(), e.path()))).collect();
    v.sort();
    v
  };
  let fail = |bs: Vec<PathBuf>, what: &str| {
    let mut all: Option<Value> = None;
    for v in bs.iter().filter_map(|p| serde_json::from_str::<Value>(&std::fs::read_to_string(p).ok()?).ok()) {
      match &mut all {
        None => all = Some(v),
        Some(a) => a["units"].as_array_mut().unwrap().extend(v["units"].as_array().unwrap().clone()),
      }
    }
    let path = replay_path(c.id);
    if let Some(v) = all {
      std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
    println!("{what}");
    println!("VIOLATION property={} replay={}", c.id, path.display());
    write_evidence(c.id, tier, c.level, c.rule, c.assumptions, &Stats::default(), start.elapsed().as_secs_f64(), 1, json!({}));
    1
  };
  let code = loop {
    std::thread::sleep(Duration::from_millis(100));
    if let Some(s) = child.try_wait().unwrap() {
      match (s.code(), s.signal()) {
        (Some(c), _) => break c,
        // SIGILL, SIGABRT, SIGBUS, SIGSEGV
        (_, Some(4 | 6 | 7 | 11)) if replay_path(c.id).exists() => break fail(vec![], "the analysis crashed while shrinking a failure"),
        (_, Some(4 | 6 | 7 | 11)) => break fail(batches().into_iter().map(|x| x.1).collect(), "the analysis crashed"),
        _ => break 2,
      }
    }
    let late: Vec<_> = batches().into_iter().filter(|x| x.0 > patience).map(|x| x.1).collect();
    if !late.is_empty() {
      let _ = child.kill();
      let _ = child.wait();
      break fail(late, &format!("no result after {} s", patience.as_secs()));
    }
    if tier == "quick" && start.elapsed() > Duration::from_secs(780) && replay_path(c.id).exists() {
      let _ = child.kill();
      let _ = child.wait();
      break fail(vec![], "a failure that does not shrink");
    }
  };
  let _ = std::fs::remove_dir_all(&running);
  code
}

/// Some of the units are compositions of language features instead (see features.rs).
fn featured(id: &str, s: u64) -> bool {
  let every = match id {
    "C01" | "C02" | "C09" => 4,
    "C04" | "C05" | "C06" | "C11" | "C12" | "C13" => 6,
    "C08" | "C10" => 10,
    _ => return false,
  };
  (s >> 20) % every == 0
}

/// Returns the exit code.
pub fn run_check(c: &Check, tier: &str) -> i32 {
  let start = Instant::now();
  let (per, batches) = if tier == "thorough" { c.thorough } else { c.quick };
  let batches = std::env::var("VERIF_BATCHES").ok().and_then(|x| x.parse().ok()).unwrap_or(batches);
  let deadline = start + Duration::from_secs(if tier == "thorough" { 2400 } else { 240 });
  let seed = base_seed();
  let stats = Mutex::new(Stats::default());
  let stop = Mutex::new(None::<(Batch, Vec<Vec<u32>>, Vec<Cfg>, Failure)>);
  let mut jobs: Vec<Option<usize>> = vec![];
  if c.corpus {
    jobs.push(None);
  }
  crate::interp::DESTRUCTORS.store(true, std::sync::atomic::Ordering::Relaxed);
  for k in known(c.id) {
    let b = Batch { units: vec![k.unit], seed };
    if !(c.run)(&b, &mut Stats::default()).is_empty() {
      println!("KNOWN-FINDING: property={} {}", c.id, k.what);
    }
  }
  crate::interp::DESTRUCTORS.store(false, std::sync::atomic::Ordering::Relaxed);
  jobs.extend((0..batches).map(Some));
  par(jobs, |job| {
    if stop.lock().unwrap().is_some() || Instant::now() > deadline || memory() > 20 << 30 {
      stats.lock().unwrap().count("batches_skipped", 1);
      return;
    }
    let (units, tapes, cfgs, bseed) = match job {
      None => (corpus(), vec![], vec![], seed),
      Some(b) => {
        let mut units = vec![];
        let mut tapes = vec![];
        let mut cfgs = vec![];
        for i in 0..per {
          let s = hash((seed, c.id, b, i));
          let mut cfg = (c.cfg)(&mut Rng::new(s ^ 77));
          if cfg.own.is_none() && !cfg.wrap && (featured(c.id, s) || std::env::var("FEATURES").is_ok()) {
            cfg.own = Some(crate::features::unit);
          }
          let mut t = Tape::random(s, 6000);
          units.push(r#gen::unit(&mut t, &cfg));
          tapes.push(t.data);
          cfgs.push(cfg);
        }
        (units, tapes, cfgs, hash((seed, c.id, b)))
      }
    };
    let batch = Batch { units, seed: bseed };
    let mut st = Stats::default();
    let running = inflight(c.id).map(|d| {
      let p = d.join(format!("{}.json", job.map_or("corpus".into(), |j| j.to_string())));
      let v = json!({ "property": c.id, "seed": bseed, "units": batch.units, "item": "", "detail": "the analysis does not finish, or crashes, on these units" });
      let _ = std::fs::write(&p, v.to_string());
      p
    });
    let fails = (c.run)(&batch, &mut st);
    if let Some(p) = running {
      let _ = std::fs::remove_file(p);
    }
    stats.lock().unwrap().merge(st);
    if let Some(f) = fails.into_iter().next() {
      let mut g = stop.lock().unwrap();
      if g.is_none() {
        *g = Some((batch, tapes, cfgs, f));
      }
    }
  });
  let mut stats = stats.into_inner().unwrap();
  let found = stop.into_inner().unwrap();
  let mut violations = 0;
  let mut code = 0;
  if let Some((batch, tapes, cfgs, f)) = found {
    violations = 1;
    code = 1;
    let path = shrink_and_save(c, batch, tapes, cfgs, f);
    println!("VIOLATION property={} replay={}", c.id, path.display());
  }
  stats.count("seconds_exploring", start.elapsed().as_secs());
  write_evidence(c.id, tier, c.level, c.rule, c.assumptions, &stats, start.elapsed().as_secs_f64(), violations, json!({}));
  println!(
    "{} {tier}: {} evaluations, {} distinct non-trivial, {violations} violations, {:.1}s {:?}",
    c.id, stats.evaluations, stats.nontrivial.len(), start.elapsed().as_secs_f64(), stats.counters
  );
  code
}

fn shrink_and_save(c: &Check, batch: Batch, tapes: Vec<Vec<u32>>, cfgs: Vec<Cfg>, f: Failure) -> PathBuf {
  let deadline = Instant::now() + Duration::from_secs(60);
  let bseed = batch.seed;
  let mut units = vec![batch.units[f.unit].clone()];
  let mut fail = f.clone();
  let _ = std::fs::write(replay_path(c.id), json!({ "property": c.id, "seed": bseed, "units": batch.units, "item": f.item, "detail": f.detail }).to_string());
  let alone = {
    let b = Batch { units: units.clone(), seed: bseed };
    (c.run)(&b, &mut Stats::default()).into_iter().next()
  };
  match alone {
    None => units = batch.units,
    Some(f2) => {
      fail = f2;
      if let Some(t) = tapes.get(f.unit) {
        let cfg = &cfgs[f.unit];
        let small = tape::shrink(t.clone(), deadline, |cands| {
          let rs = par(cands.to_vec(), |cand| {
            let mut t = Tape::replay(cand);
            let u = r#gen::unit(&mut t, cfg);
            let b = Batch { units: vec![u], seed: bseed };
            !(c.run)(&b, &mut Stats::default()).is_empty()
          });
          rs.into_iter().position(|x| x)
        });
        let u = r#gen::unit(&mut Tape::replay(small), cfg);
        let b = Batch { units: vec![u.clone()], seed: bseed };
        if let Some(f3) = (c.run)(&b, &mut Stats::default()).into_iter().next() {
          units = vec![u];
          fail = f3;
        }
      }
    }
  }
  let path = replay_path(c.id);
  let v = json!({ "property": c.id, "seed": bseed, "units": units, "item": fail.item, "detail": fail.detail });
  std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
  for u in &units {
    if units.len() < 4 {
      println!("--- failing unit ---\n{u}");
    }
  }
  println!("{}: {}", fail.item, fail.detail);
  path
}

pub fn replay(c: &Check, v: &Value) -> i32 {
  let units = v["units"].as_array().unwrap().iter().map(|u| u.as_str().unwrap().to_string()).collect();
  let b = Batch { units, seed: v["seed"].as_u64().unwrap() };
  let id = c.id;
  std::thread::spawn(move || {
    std::thread::sleep(Duration::from_secs(300));
    println!("no result after 300 s\nVIOLATION property={id} replay=(given)");
    std::process::exit(1);
  });
  let fails = (c.run)(&b, &mut Stats::default());
  for f in &fails {
    println!("{}: {}", f.item, f.detail);
  }
  if fails.is_empty() {
    println!("no longer fails");
    0
  } else {
    println!("VIOLATION property={} replay=(given)", c.id);
    1
  }
}
