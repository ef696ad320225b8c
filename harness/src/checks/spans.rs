//! Slices as source ranges.
use std::collections::{BTreeSet, HashMap};

use flowistry::infoflow::{Direction, FlowResults, compute_dependencies, compute_dependency_spans};
use rustc_middle::mir::*;
use rustc_span::Span;
use rustc_utils::{BodyExt, PlaceExt, SpanExt, mir::location_or_arg::LocationOrArg, source_map::spanner::{EnclosingHirSpans, Spanner}};
use serde_json::json;

use super::{precision::owner, util::*};
use crate::{r#gen::Cfg, run::*, tape::Rng};

fn tune(rng: &mut Rng) -> Cfg {
  if rng.below(3) == 0 { super::precision::tune_worlds(rng) } else { super::flow::tune(rng) }
}

fn bytes(spans: &[Span]) -> BTreeSet<u32> {
  spans.iter().flat_map(|s| s.lo().0..s.hi().0).collect()
}

/// Targets whose slice must not contain a line of the other program, by the program they belong to.
fn targets<'tcx>(cx: &FnCtx<'_, 'tcx>) -> Vec<(Place<'tcx>, LocationOrArg, bool)> {
  let body = &cx.facts.body;
  let mut v = vec![];
  for loc in body.all_locations() {
    match at(body, loc) {
      At::Stmt(Statement { kind: StatementKind::Assign(b), .. }) => {
        let fake = matches!(b.1, Rvalue::Ref(_, BorrowKind::Fake(_), _));
        v.push((b.0, LocationOrArg::Location(loc), !fake));
      }
      At::Term(Terminator { kind: TerminatorKind::Call { destination, args, .. }, .. }) => {
        v.push((*destination, LocationOrArg::Location(loc), true));
        v.extend(args.iter().filter_map(|a| a.node.place()).map(|p| (p, LocationOrArg::Location(loc), false)));
      }
      At::Term(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => {
        v.extend(discr.place().map(|p| (p, LocationOrArg::Location(loc), false)));
      }
      _ => {}
    }
  }
  v.extend(body.args_iter().map(|a| (Place::from_local(a, cx.tcx), LocationOrArg::Arg(a), true)));
  v
}

fn c13_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let tcx = cx.tcx;
  if tcx.is_closure_like(cx.def.to_def_id()) {
    // (A `Spanner` is for functions: closures are shown as part of the function they are in.)
  }
  let body = &cx.facts.body;
  let sm = tcx.sess.source_map();
  let results: FlowResults<'_, 'tcx> = flow(cx);
  let spanner = Spanner::new(tcx, cx.body_id, body);
  let pool = targets(cx);
  if pool.is_empty() {
    return Ok(());
  }
  let span_of = |l: LocationOrArg| match l {
    LocationOrArg::Location(l) => body.source_info(l).span,
    LocationOrArg::Arg(a) => body.local_decls[a].source_info.span,
  };
  let own: HashMap<LocationOrArg, char> = body.all_locations().map(LocationOrArg::Location).chain(body.args_iter().map(LocationOrArg::Arg))
    .filter_map(|l| Some((l, owner(tcx, span_of(l))?))).collect();
  let two = own.values().any(|w| *w == 'B') && own.values().any(|w| *w == 'A') && body.all_returns().count() == 1;
  let show = |s: Span| {
    let (a, b) = (sm.lookup_char_pos(s.lo()), sm.lookup_char_pos(s.hi()));
    format!("{}:{}-{}:{}", a.line, a.col.0 + 1, b.line, b.col.0 + 1)
  };
  for round in 0..8 {
    let n = [1, 1, 2, 4][cx.rng.below(4)];
    // Half of the time with all targets in one of the two programs.
    let dirs = [Direction::Backward, Direction::Forward, Direction::Both];
    let d = dirs[cx.rng.below(3)];
    let only = (two && round % 2 == 0).then_some(match d {
      Direction::Backward => 'A',
      _ => 'B',
    });
    let apart = only.is_some() && !matches!(d, Direction::Both);
    let from: Vec<_> = pool.iter().filter(|t| only.is_none_or(|w| own.get(&t.1) == Some(&w)) && (!apart || t.2)).collect();
    if from.is_empty() {
      continue;
    }
    let groups: Vec<Vec<(Place<'tcx>, LocationOrArg)>> = (0..n).map(|_| {
      let k = [0, 1, 1, 1, 2, 4][cx.rng.below(6)];
      (0..k).map(|_| from[cx.rng.below(from.len())]).map(|t| (t.0, t.1)).collect()
    }).collect();
    let spans = compute_dependency_spans(&results, groups.clone(), d, &spanner);
    let deps = compute_dependencies(&results, groups.clone(), d);
    if spans.len() != groups.len() {
      return Err(format!("{} groups of targets give {} slices ({d:?})", groups.len(), spans.len()));
    }
    for ((g, ss), ds) in groups.iter().zip(&spans).zip(&deps) {
      st.evaluations += 1;
      let covered = bytes(ss);
      let total: u32 = ss.iter().map(|s| s.hi().0 - s.lo().0).sum();
      if total as usize != covered.len() {
        return Err(format!("the spans of the {d:?} slice of {g:?} overlap: {:?}", ss.iter().map(|s| show(*s)).collect::<Vec<_>>()));
      }
      if let Some(s) = ss.iter().find(|s| !spanner.item_span.contains(**s)) {
        return Err(format!("the {d:?} slice of {g:?} contains {}, which is outside of the function", show(*s)));
      }
      let mut want: BTreeSet<u32> = BTreeSet::new();
      for l in ds.iter() {
        want.extend(bytes(&spanner.location_to_spans(*l, body, EnclosingHirSpans::OuterOnly)));
        // The source of an instruction itself, unless it stands for the whole function or comes from elsewhere.
        let s = span_of(*l);
        let whole = s.source_equal(body.span) || s.source_equal(spanner.body_span) || s.source_equal(spanner.item_span) || s.is_dummy();
        if !whole && spanner.item_span.contains(s) && !s.from_expansion() && s != body.span.shrink_to_hi() {
          if let Some(x) = (s.lo().0..s.hi().0).find(|x| !covered.contains(x)) {
            return Err(format!("the {d:?} slice of {g:?} does not cover all of {} of its dependency {l:?} (at byte {x}): {:?}", show(s), ss.iter().map(|s| show(*s)).collect::<Vec<_>>()));
          }
        }
      }
      if let Some(x) = want.symmetric_difference(&covered).next() {
        let b = Span::with_root_ctxt(rustc_span::BytePos(*x), rustc_span::BytePos(*x + 1));
        return Err(format!("the {d:?} slice of {g:?} {} {} although its dependencies {{{}}} say otherwise: {:?}", if covered.contains(x) { "contains" } else { "does not contain" }, show(b), show_deps(ds), ss.iter().map(|s| show(*s)).collect::<Vec<_>>()));
      }
      if let (true, Some(w)) = (apart, only) {
        st.count("one_of_two_programs", 1);
        // (The return type stands for the returned value.)
        // (An instruction that stands for a whole block brings all of it.)
        let blocks: Vec<Span> = ds.iter().map(|l| span_of(*l)).filter(|s| sm.lookup_char_pos(s.lo()).line != sm.lookup_char_pos(s.hi()).line).collect();
        if blocks.iter().any(|s| spanner.item_span.contains(*s)) {
          st.count("with_whole_blocks", 1);
          continue;
        }
        for s in ss.iter().filter(|s| !spanner.ret_span.contains(**s)) {
          let (a, b) = (sm.lookup_char_pos(s.lo()), sm.lookup_char_pos(s.hi()));
          for line in a.line..=b.line {
            let Some(text) = a.file.get_line(line - 1) else { continue };
            // What the span covers of the line.
            let lo = if line == a.line { a.col.0 } else { 0 };
            let hi = if line == b.line { b.col.0 } else { text.chars().count() };
            let part: String = text.chars().skip(lo).take(hi.saturating_sub(lo)).collect();
            let other = if w == 'A' { "/*B*/" } else { "/*A*/" };
            let mine = if w == 'A' { "/*A*/" } else { "/*B*/" };
            let code = part.replace(other, "");
            // The beginning and end of a compound statement may be there for what it encloses.
            let stmt = text.replace(other, "").trim().to_string();
            let simple = stmt.ends_with(';') && !stmt.starts_with('}') && stmt.matches('{').count() == stmt.matches('}').count();
            if simple && text.contains(other) && !text.contains(mine) && code.trim().chars().any(|c| c.is_alphanumeric()) {
              return Err(format!("{}: the {d:?} slice of {g:?} (program {w}) contains {:?} of line {line} ({}), which belongs to the other program\n{}", cx.name, code.trim(), text.trim(), body.to_string(tcx).unwrap()));
            }
          }
        }
      }
      if ss.len() > 2 && ds.iter().count() > 3 {
        st.nontrivial.insert(hash((cx.unit, &cx.name, covered.len(), ss.len())));
        st.sample(2, || json!({"function": find_fn_text(cx.src, cx.unit, &cx.name), "targets": format!("{g:?}"), "direction": format!("{d:?}"),
          "slice": ss.iter().map(|s| sm.span_to_snippet(*s).unwrap_or_default()).collect::<Vec<_>>()}));
      }
    }
  }
  Ok(())
}
fn c13(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, &[], st, c13_fn)
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C13",
    level: "exploration",
    rule: "Slices (all directions, groups of targets) of generated functions as source ranges, against the dependencies and, for functions made of two interleaved programs, against the lines of the other program. Non-trivial: a slice of more than two ranges for more than three dependencies.",
    assumptions: &[],
    cfg: tune,
    run: c13,
    quick: (25, 150),
    thorough: (25, 3000),
    corpus: true,
  }]
}
