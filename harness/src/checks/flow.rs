//! Soundness of the dependencies, by perturbing executions.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use flowistry::{extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode}, infoflow::{Direction, FlowResults, compute_dependencies, compute_flow}};
use rustc_hir::def_id::LocalDefId;
use rustc_middle::{mir::{visit::Visitor, *}, ty::{GenericArgs, GenericParamDefKind, TyKind}};
use rustc_utils::{BodyExt, PlaceExt, mir::place::UNKNOWN_REGION, mir::location_or_arg::{LocationOrArg, index::LocationOrArgSet}};
use rustc_mir_dataflow::{Analysis, impls::MaybeLiveLocals};
use serde_json::json;

use super::util::*;
use crate::{
  r#gen::Cfg,
  interp::*,
  run::*, session,
  tape::Rng,
};

pub fn tune(rng: &mut Rng) -> Cfg {
  let mut c = Cfg::default();
  match rng.below(6) {
    0 => { c.stmts = 4; c.depth = 2; }
    1 => { c.loops = false; c.early_return = false; c.stmts = 9; }
    2 => { c.structs = false; c.stmts = 9; }
    3 => { c.early_return = false; c.closures = false; }
    _ => {}
  }
  c
}

/// A run of the function on fabricated inputs; None if it does not finish or uses something unsupported.
pub fn execute<'tcx>(cx: &FnCtx<'_, 'tcx>, input_seed: u64, hooks: Hooks<'tcx>) -> Result<(Interp<'tcx>, Frame<'tcx>), Err> {
  let mut it = Interp::new(cx.tcx);
  let mut rng = Rng::new(input_seed);
  let body = &cx.facts.body;
  // Type parameters are instantiated with `i32`.
  let root = cx.tcx.typeck_root_def_id(cx.def.to_def_id());
  let args = GenericArgs::for_item(cx.tcx, root, |p, _| match p.kind {
    GenericParamDefKind::Lifetime => cx.tcx.lifetimes.re_erased.into(),
    _ => cx.tcx.types.i32.into(),
  });
  let mut vals = vec![];
  for a in body.args_iter() {
    let ty = it.mono(body.local_decls[a].ty, args);
    let v = it.fabricate(ty, &mut || (rng.next() >> 40) as u32, 0)?;
    vals.push(v);
  }
  it.hooks = hooks;
  let fr = it.run_top(cx.def.to_def_id(), cx.facts, args, vals)?;
  Ok((it, fr))
}

pub struct Plan<'tcx> {
  pub places: Vec<Place<'tcx>>,
  pub observe: HashMap<Location, Vec<(usize, Place<'tcx>)>>,
}

pub fn plan<'tcx>(cx: &FnCtx<'_, 'tcx>) -> Plan<'tcx> {
  let body = &cx.facts.body;
  let mut places = vec![];
  for l in body.local_decls.indices() {
    let mut v = vec![];
    expand(cx.tcx, body, cx.def.to_def_id(), Place::from_local(l, cx.tcx), 3, true, &mut v);
    places.extend(v);
  }
  places.truncate(500);
  let cyc = cyclic(body);
  let mut cursor = MaybeLiveLocals.iterate_to_fixpoint(cx.tcx, body, None).into_results_cursor(body);
  let mut observe = HashMap::new();
  for loc in body.all_locations() {
    if cyc.contains(&loc.block) {
      continue;
    }
    let is_ret = matches!(body.basic_blocks[loc.block].terminator().kind, TerminatorKind::Return) && loc.statement_index == body.basic_blocks[loc.block].statements.len();
    // All places where something happened, and a sample of the others.
    let interesting = match at(body, loc) {
      At::Stmt(s) => matches!(s.kind, StatementKind::Assign(..)),
      At::Term(t) => matches!(t.kind, TerminatorKind::Call { .. } | TerminatorKind::Return),
    };
    if interesting || is_ret {
      cursor.seek_before_primary_effect(loc);
      let live = cursor.get();
      // What is behind a reference held by a dead local is not observable by the program.
      let ps = places.iter().copied().enumerate().filter(|(_, p)| {
        live.contains(p.local) || p.is_arg(body) || p.refs_in_projection(body, cx.tcx).next().is_none() && !has_refs(cx, *p)
      });
      observe.insert(loc, ps.collect());
    }
  }
  Plan { places, observe }
}

fn has_refs<'tcx>(cx: &FnCtx<'_, 'tcx>, p: Place<'tcx>) -> bool {
  let ty = p.ty(&cx.facts.body.local_decls, cx.tcx).ty;
  fn go<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, ty: rustc_middle::ty::Ty<'tcx>, d: usize) -> bool {
    match ty.kind() {
      TyKind::Ref(..) | TyKind::RawPtr(..) => true,
      TyKind::Tuple(ts) => ts.iter().any(|t| go(tcx, t, d)),
      TyKind::Array(t, _) | TyKind::Slice(t) => go(tcx, *t, d),
      TyKind::Adt(a, args) => d > 4 || args.regions().next().is_some() || a.all_fields().any(|f| go(tcx, f.ty(tcx, args), d + 1)),
      TyKind::Closure(_, args) => args.as_closure().upvar_tys().iter().any(|t| go(tcx, t, d)),
      _ => false,
    }
  }
  if ty.is_box() { go(cx.tcx, ty.boxed_ty().unwrap(), 0) } else { go(cx.tcx, ty, 0) }
}

#[derive(Clone, Copy)]
pub struct NiOpts {
  pub inputs: usize,
  pub kinds: u32,
  pub calls: bool,
}

/// Is the function in scope of the executable semantics?
pub fn excluded(cx: &FnCtx) -> bool {
  let mut d = Some(cx.tcx.typeck_root_def_id(cx.def.to_def_id()));
  while let Some(x) = d {
    let g = cx.tcx.generics_of(x);
    if g.own_params.iter().any(|p| matches!(p.kind, GenericParamDefKind::Const { .. })) {
      return true;
    }
    d = g.parent;
  }
  // Flowistry does not track references that are nested deeply within the inputs.
  let deep = cx.facts.body.args_iter().any(|a| {
    Place::from_local(a, cx.tcx).interior_pointers(cx.tcx, &cx.facts.body, cx.def.to_def_id()).into_iter()
      .any(|(r, ps)| r != UNKNOWN_REGION && ps.iter().any(|(p, _)| p.projection.len() > 2))
  });
  if deep {
    return true;
  }
  cx.facts.body.all_returns().next().is_none()
}

/// Every observed difference between two executions that differ at one site must be explained by the dependencies.
pub fn noninterference<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats, results: &FlowResults<'_, 'tcx>, o: NiOpts) -> Result<(), String> {
  if excluded(cx) {
    st.count("fn_excluded", 1);
    return Ok(());
  }
  let body = &cx.facts.body;
  let plan = plan(cx);
  let mut cache: HashMap<(Location, usize), LocationOrArgSet> = HashMap::new();
  let mut flows: BTreeSet<(Location, usize, Site2)> = BTreeSet::new();
  for _ in 0..o.inputs {
    let input = cx.rng.next();
    let hooks = Hooks { observe: plan.observe.clone(), ..Default::default() };
    let (base, _) = match execute(cx, input, hooks) {
      Ok(x) => x,
      Err(e) => {
        st.count(&format!("base_{}", short(&e)), 1);
        continue;
      }
    };
    st.count("base_runs", 1);
    let mut sites: Vec<Site> = body.args_iter().map(Site::Arg).collect();
    let mut locs: Vec<Location> = base.hooks.visited.iter().copied().collect();
    locs.sort();
    for l in locs {
      let ok = match at(body, l) {
        At::Stmt(s) => matches!(s.kind, StatementKind::Assign(..)),
        At::Term(t) => match t.kind {
          TerminatorKind::Call { .. } => o.calls,
          TerminatorKind::SwitchInt { .. } => true,
          _ => false,
        },
      };
      if ok {
        sites.push(Site::Loc(l));
      }
    }
    for site in sites {
      for _ in 0..o.kinds {
        let kind = (cx.rng.next() >> 33) as u32 % 64;
        let hooks = Hooks { observe: plan.observe.clone(), perturb: Some(Perturb { site, kind, call_effects: true }), ..Default::default() };
        let (run, _) = match execute(cx, input, hooks) {
          Ok(x) => x,
          Err(e) => {
            st.count(&format!("perturbed_{}", short(&e)), 1);
            continue;
          }
        };
        if run.hooks.perturbed == 0 {
          continue;
        }
        st.evaluations += 1;
        let wanted = match site {
          Site::Arg(a) => LocationOrArg::Arg(a),
          Site::Loc(l) => LocationOrArg::Location(l),
        };
        let mut differing: Vec<(Location, usize)> = base.hooks.obs.iter().filter(|(k, v)| run.hooks.obs.get(k).is_some_and(|w| w != *v)).map(|(k, _)| *k).collect();
        differing.sort();
        for (loc, i) in differing {
          let deps = cache.entry((loc, i)).or_insert_with(|| results.analysis.deps_for(results.state_at(loc), plan.places[i]));
          flows.insert((loc, i, site2(site)));
          if !deps.contains(wanted) {
            return Err(format!(
              "{}: perturbing {site:?} (kind {kind}) changes {:?} at {loc:?}, but its dependencies there are {{{}}}\n{}",
              cx.name, plan.places[i], show_deps(deps), body.to_string(cx.tcx).unwrap()
            ));
          }
        }
      }
    }
  }
  if !flows.is_empty() {
    st.count("explained_flows", flows.len() as u64);
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, flows.len())));
    st.sample(3, || json!({"function": t, "explained_flows": flows.len()}));
  }
  Ok(())
}

type Site2 = (u8, usize, usize);
fn site2(s: Site) -> Site2 {
  match s {
    Site::Arg(a) => (0, a.as_usize(), 0),
    Site::Loc(l) => (1, l.block.as_usize(), l.statement_index),
  }
}

pub fn short(e: &Err) -> String {
  match e {
    Err::Unsupported(s) => format!("unsupported_{}", s.chars().take(24).collect::<String>()),
    Err::Panic(_) => "panic".into(),
    Err::Uninit => "uninit".into(),
    Err::Fuel => "fuel".into(),
    Err::Stuck(s) => format!("stuck_{s}"),
  }
}

/// The places that the instruction at `loc` assigns (as targets of a forward query), if it is a perturbation site.
fn assigned<'tcx>(cx: &FnCtx<'_, 'tcx>, loc: Location) -> Option<Vec<Place<'tcx>>> {
  match at(&cx.facts.body, loc) {
    At::Stmt(s) => match &s.kind {
      StatementKind::Assign(b) => Some(vec![b.0]),
      _ => None,
    },
    At::Term(t) => match &t.kind {
      TerminatorKind::Call { destination, args, .. } => {
        Some(args.iter().filter_map(|a| a.node.place()).chain([*destination]).collect())
      }
      _ => None,
    },
  }
}

/// Every instruction whose effect changes when a target is perturbed must be among the target's forward dependencies.
fn c02_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  if excluded(cx) {
    st.count("fn_excluded", 1);
    return Ok(());
  }
  let results = flow(cx);
  let body = &cx.facts.body;
  let cyc = cyclic(body);
  let mut observe = HashMap::new();
  for loc in body.all_locations().filter(|l| !cyc.contains(&l.block)) {
    let p = match at(body, loc) {
      At::Stmt(s) => match &s.kind {
        StatementKind::Assign(b) => b.0,
        _ => continue,
      },
      At::Term(t) => match &t.kind {
        TerminatorKind::Call { destination, .. } => *destination,
        _ => continue,
      },
    };
    observe.insert(loc, vec![(0, p)]);
  }
  let mk = |perturb| Hooks { observe: observe.clone(), shallow: true, log_effects: true, perturb, ..Default::default() };
  let mut cache: HashMap<Site, LocationOrArgSet> = HashMap::new();
  let mut flows = BTreeSet::new();
  for _ in 0..3 {
    let input = cx.rng.next();
    let base = match execute(cx, input, mk(None)) {
      Ok((b, _)) => b,
      Err(e) => {
        st.count(&format!("base_{}", short(&e)), 1);
        continue;
      }
    };
    st.count("base_runs", 1);
    let mut locs: Vec<Location> = base.hooks.visited.iter().copied().filter(|l| assigned(cx, *l).is_some()).collect();
    locs.sort();
    let sites: Vec<Site> = body.args_iter().map(Site::Arg).chain(locs.into_iter().map(Site::Loc)).collect();
    for site in sites {
      for _ in 0..3 {
        let kind = (cx.rng.next() >> 33) as u32 % 64;
        let run = match execute(cx, input, mk(Some(Perturb { site, kind, call_effects: true }))) {
          Ok((r, _)) => r,
          Err(e) => {
            st.count(&format!("perturbed_{}", short(&e)), 1);
            continue;
          }
        };
        if run.hooks.perturbed == 0 {
          continue;
        }
        st.evaluations += 1;
        let (b, r) = (&base.hooks, &run.hooks);
        let mut changed: BTreeSet<Location> = BTreeSet::new();
        changed.extend(b.obs.iter().filter(|(k, v)| r.obs.get(k).is_some_and(|w| w != *v)).map(|(k, _)| k.0));
        changed.extend(b.effects.iter().filter(|(k, v)| !cyc.contains(&k.0.block) && r.effects.get(k).is_some_and(|w| w != *v)).map(|(k, _)| k.0));
        changed.extend(b.discrs.iter().filter(|(k, v)| !cyc.contains(&k.block) && r.discrs.get(k).is_some_and(|w| w != *v)).map(|(k, _)| *k));
        if let Site::Loc(l) = site {
          changed.remove(&l);
        }
        for loc in changed {
          let fwd = cache.entry(site).or_insert_with(|| {
            let targets = match site {
              Site::Arg(a) => vec![(Place::from_local(a, cx.tcx), LocationOrArg::Arg(a))],
              Site::Loc(l) => assigned(cx, l).unwrap().into_iter().map(|p| (p, LocationOrArg::Location(l))).collect(),
            };
            compute_dependencies(&results, vec![targets], Direction::Forward).pop().unwrap()
          });
          flows.insert((site2(site), loc));
          if !fwd.contains(LocationOrArg::Location(loc)) {
            return Err(format!(
              "{}: perturbing {site:?} (kind {kind}) changes what {loc:?} computes, but its forward dependencies are {{{}}}\n{}",
              cx.name, show_deps(fwd), body.to_string(cx.tcx).unwrap()
            ));
          }
        }
      }
    }
  }
  if !flows.is_empty() {
    st.count("explained_flows", flows.len() as u64);
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, flows.len())));
    st.sample(3, || json!({"function": t, "explained_flows": flows.len()}));
  }
  Ok(())
}
fn c02(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, NO_OVERFLOW, st, c02_fn)
}

fn c01_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let results = flow(cx);
  noninterference(cx, st, &results, NiOpts { inputs: 3, kinds: 2, calls: true })
}
fn c01(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, NO_OVERFLOW, st, c01_fn)
}

const RECURSE: EvalMode = EvalMode { context_mode: ContextMode::Recurse, mutability_mode: MutabilityMode::DistinguishMut, pointer_mode: PointerMode::Precise };
fn c09_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  EVAL_MODE.set(RECURSE, || {
    let results = flow(cx);
    noninterference(cx, st, &results, NiOpts { inputs: 3, kinds: 2, calls: false })
  })
}
/// What the values behind arguments and the return value depend on, when the function returns.
fn summary<'tcx>(cx: &FnCtx<'_, 'tcx>, def: LocalDefId) -> Option<BTreeMap<String, BTreeSet<usize>>> {
  let facts = session::facts(cx.tcx, def)?;
  let body = &facts.body;
  let results = compute_flow(cx.tcx, cx.tcx.hir_body_owned_by(def).id(), facts);
  let mut returns = body.basic_blocks.iter_enumerated().filter(|(_, d)| matches!(d.terminator().kind, TerminatorKind::Return));
  let (bb, _) = returns.next()?;
  if returns.next().is_some() {
    return None;
  }
  let loc = body.terminator_loc(bb);
  // Where a variable is changed itself, what is behind it is not what was passed.
  struct Changed(HashSet<Local>);
  impl<'tcx> Visitor<'tcx> for Changed {
    fn visit_place(&mut self, p: &Place<'tcx>, c: visit::PlaceContext, _: Location) {
      if c.is_mutating_use() && !c.is_drop() && !p.is_indirect() {
        self.0.insert(p.local);
      }
    }
  }
  let mut changed = Changed(HashSet::new());
  changed.visit_body(body);
  let mut out = BTreeMap::new();
  for l in [RETURN_PLACE].into_iter().chain(body.args_iter()) {
    let mut v = vec![];
    expand(cx.tcx, body, def.to_def_id(), Place::from_local(l, cx.tcx), 3, true, &mut v);
    for p in v {
      // Changes to arguments themselves are invisible to the caller.
      let behind_ref = p.iter_projections().any(|(q, e)| matches!(e, PlaceElem::Deref) && q.ty(&body.local_decls, cx.tcx).ty.is_ref());
      if l != RETURN_PLACE && (changed.0.contains(&l) || !behind_ref) || matches!(p.projection.last(), Some(PlaceElem::Downcast(..))) {
        continue;
      }
      let deps = results.analysis.deps_for(results.state_at(loc), p);
      let args = deps.iter().filter_map(|d| match d { LocationOrArg::Arg(a) => Some(a.as_usize()), _ => None }).collect();
      out.insert(p.projection.iter().fold(format!("{l:?}"), |s, e| match e {
        PlaceElem::Deref => format!("(*{s})"),
        PlaceElem::Field(f, _) => format!("{s}.{}", f.as_usize()),
        PlaceElem::Downcast(n, _) => format!("({s} as {n:?})"),
        e => format!("{s}{e:?}"),
      }), args);
    }
  }
  Some(out)
}

/// A wrapper that only passes on its arguments depends on them just as what it calls.
fn composition<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let Some(n) = cx.name.strip_prefix("wrap_") else { return Ok(()) };
  let tcx = cx.tcx;
  let path = tcx.def_path_str(cx.def.to_def_id());
  let inner = path.replace(&cx.name, n);
  let Some((def, _)) = session::bodies(tcx).into_iter().find(|(d, _)| tcx.def_path_str(d.to_def_id()) == inner) else { return Ok(()) };
  let (Some(want), Some(got)) = (summary(cx, def), summary(cx, cx.def)) else { return Ok(()) };
  let mut rich = 0;
  for (p, w) in &want {
    let Some(g) = got.get(p) else { continue };
    st.evaluations += 1;
    // The caller learns about effects on each place one by one, so an effect on a part that is overwritten
    // by an effect on another part stays. But no other value gets in.
    let root = p.trim_start_matches(['(', '*']).split(['.', ')', ' ']).next().unwrap();
    let upper: BTreeSet<usize> = want.iter().filter(|(q, _)| q.trim_start_matches(['(', '*']).split(['.', ')', ' ']).next() == Some(root)).flat_map(|(_, w)| w).copied().collect();
    if !w.is_subset(g) || !g.is_subset(&upper) {
      return Err(format!(
        "{}: {p} depends on the arguments {w:?} when {n} returns (and all of {root} on {upper:?}), but {g:?} when its wrapper does\n{}\n{}",
        cx.name, session::facts(tcx, def).unwrap().body.to_string(tcx).unwrap(), cx.facts.body.to_string(tcx).unwrap()
      ));
    }
    if !w.is_empty() && w.len() < cx.facts.body.arg_count {
      rich += 1;
    }
  }
  if rich > 0 {
    st.count("separating_wrappers", 1);
    let t = find_fn_text(cx.src, cx.unit, n);
    st.nontrivial.insert(hash((&t, rich)));
    st.sample(3, || json!({"function": t, "places_that_depend_on_some_arguments_only": rich}));
  }
  Ok(())
}

/// Adds to every function under test a wrapper that passes on its arguments.
fn with_wrappers(unit: &str) -> String {
  let mut out = unit.to_string();
  let mut rest = unit;
  while let Some(i) = rest.find("pub fn t") {
    rest = &rest[i..];
    let Some(j) = rest.find(" {\n") else { break };
    let head = &rest[..j];
    let name: String = head["pub fn ".len()..].chars().take_while(|c| c.is_alphanumeric()).collect();
    let mut names = vec![];
    let mut h = head;
    while let Some(k) = h.find("mut v") {
      h = &h[k + 4..];
      names.push(h.chars().take_while(|c| c.is_alphanumeric()).collect::<String>());
    }
    let head = head.replacen(&name, &format!("wrap_{name}"), 1).replace("mut v", "v");
    out.push_str(&format!("{head} {{\n  {name}({})\n}}\n", names.join(", ")));
    rest = &rest[j..];
  }
  out
}

fn tune_c09(rng: &mut Rng) -> Cfg {
  let mut c = tune(rng);
  if rng.below(2) == 0 {
    c.wrap = true;
    c.precise = true;
    c.early_return = false;
    c.boxes = false;
    c.fns = 4;
  }
  c
}

fn c09(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  let b = Batch { units: b.units.iter().map(|u| if u.starts_with("// wrap") { with_wrappers(u) } else { u.clone() }).collect(), seed: b.seed };
  over_functions(&b, NO_OVERFLOW, st, |cx, st| {
    let unit = format!("pub mod u{} {{\n  // wrap", cx.unit);
    if cx.src.contains(&unit) {
      EVAL_MODE.set(RECURSE, || composition(cx, st))
    } else {
      c09_fn(cx, st)
    }
  })
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C09",
    level: "exploration",
    rule: "Generated functions are analysed by recursing into their callees, and run in pairs that differ at one instruction, branch or argument. Non-trivial: a function in which at least one perturbation changed at least one observed value, or a function that depends on some but not all of its arguments, compared with a wrapper around it.",
    assumptions: &[],
    cfg: tune_c09,
    run: c09,
    quick: (25, 48),
    thorough: (25, 600),
    corpus: true,
  }, Check {
    id: "C01",
    level: "exploration",
    rule: "Generated functions are run in pairs that differ at one instruction, branch, argument or call effect. Non-trivial: a function in which at least one perturbation changed at least one observed value.",
    assumptions: &[],
    cfg: tune,
    run: c01,
    quick: (25, 48),
    thorough: (25, 600),
    corpus: true,
  }, Check {
    id: "C02",
    level: "exploration",
    rule: "Generated functions are run in pairs that differ in what one instruction or argument produces. Non-trivial: a function in which a perturbation changed what some other instruction computed.",
    assumptions: &[],
    cfg: tune,
    run: c02,
    quick: (25, 48),
    thorough: (25, 600),
    corpus: true,
  }]
}
