//! The analysis gives a result for whatever the language has.
use std::time::Instant;

use flowistry::{extensions::{EVAL_MODE, EvalMode}, infoflow::{Direction, compute_dependencies, compute_dependency_spans}};
use rustc_middle::mir::*;
use rustc_utils::{BodyExt, PlaceExt, mir::location_or_arg::LocationOrArg, source_map::spanner::Spanner};
use serde_json::json;

use super::{laws::modes, util::*};
use crate::{features, r#gen::Cfg, run::*, tape::Rng};

fn queries<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats, spanner: &Spanner) -> Result<(), String> {
  let tcx = cx.tcx;
  let body = &cx.facts.body;
  let results = flow(cx);
  let locs: Vec<Location> = body.all_locations().collect();
  let locals: Vec<Local> = body.local_decls.indices().collect();
  // What a place depends on, wherever one may ask.
  for l in locs.iter().copied() {
    if locs.len() >= 60 && cx.rng.below(locs.len() / 30) > 0 {
      continue;
    }
    let s = results.state_at(l);
    for local in &locals {
      let mut places = vec![];
      expand(tcx, body, cx.def.to_def_id(), Place::from_local(*local, tcx), 2, true, &mut places);
      let p = places[cx.rng.below(places.len())];
      let d = results.analysis.deps_for(s, p);
      st.count("places", 1);
      if let Some(x) = d.iter().find(|x| match x {
        LocationOrArg::Location(l) => l.block.as_usize() >= body.basic_blocks.len() || l.statement_index > body.basic_blocks[l.block].statements.len(),
        LocationOrArg::Arg(a) => a.as_usize() == 0 || a.as_usize() > body.arg_count,
      }) {
        return Err(format!("{p:?} at {l:?} depends on {x:?}, which does not exist"));
      }
    }
  }
  let targets: Vec<Vec<(Place<'tcx>, LocationOrArg)>> = (0..4).map(|_| (0..1 + cx.rng.below(3)).map(|_| {
    let l = locs[cx.rng.below(locs.len())];
    (Place::from_local(locals[cx.rng.below(locals.len())], tcx), LocationOrArg::Location(l))
  }).collect()).collect();
  for d in [Direction::Backward, Direction::Forward, Direction::Both] {
    let n = compute_dependencies(&results, targets.clone(), d).len();
    let m = compute_dependency_spans(&results, targets.clone(), d, spanner).len();
    if n != targets.len() || m != targets.len() {
      return Err(format!("{} targets, but {n} and {m} answers", targets.len()));
    }
  }
  Ok(())
}

fn c14_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let body = &cx.facts.body;
  let spanner = Spanner::new(cx.tcx, cx.body_id, body);
  for m in modes() {
    let start = Instant::now();
    let mode = |m: &EvalMode| format!("{:?} {:?} {:?}", m.context_mode, m.mutability_mode, m.pointer_mode);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| EVAL_MODE.set(m, || queries(cx, st, &spanner))));
    match r {
      Ok(r) => r?,
      Err(e) => return Err(format!("in mode {}: panic: {}", mode(&m), crate::session::panic_message(&*e))),
    }
    st.evaluations += 1;
    let t = start.elapsed().as_millis() as u64;
    let max = st.counters.entry("slowest_ms".into()).or_default();
    *max = (*max).max(t);
  }
  let kinds = body.basic_blocks.iter().flat_map(|b| b.statements.iter().map(|s| std::mem::discriminant(&s.kind))).collect::<std::collections::HashSet<_>>().len();
  if body.basic_blocks.len() > 20 && kinds >= 3 {
    st.nontrivial.insert(hash((&cx.name, body_size(body), body.local_decls.len(), cx.src.len())));
    let (src, unit, name) = (cx.src, cx.unit, cx.name.clone());
    st.sample(2, || json!({"function": find_fn_text(src, unit, &name), "blocks": body.basic_blocks.len(), "locals": body.local_decls.len()}));
  }
  Ok(())
}

fn c14(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, &[], st, c14_fn)
}

fn tune(_: &mut Rng) -> Cfg {
  Cfg { own: Some(features::unit), ..Default::default() }
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C14",
    level: "exploration",
    rule: "Function × mode, with all queries. Non-trivial: functions of more than 20 basic blocks with at least three kinds of statements.",
    assumptions: &[],
    cfg: tune,
    run: c14,
    quick: (2, 400),
    thorough: (2, 12000),
    corpus: true,
  }]
}
