//! Laws of the queries: relations between places, analysis modes, histories, directions and engines.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use flowistry::{
  extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode},
  infoflow::{Direction, FlowAnalysis, FlowResults, compute_dependencies, compute_flow, mutation::ModularMutationVisitor},
  mir::{engine, placeinfo::PlaceInfo},
};
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def_id::DefId;
use rustc_index::bit_set::DenseBitSet;
use rustc_middle::{mir::{visit::Visitor, *}, ty::{Ty, TyCtxt, TyKind}};
use rustc_mir_dataflow::{Analysis, impls::MaybeBorrowedLocals};
use rustc_utils::{BodyExt, PlaceExt, mir::location_or_arg::{LocationOrArg, index::LocationOrArgSet}};
use serde_json::json;

use super::{flow::tune, util::*};
use crate::{run::*, session, tape::Rng};

// ---- C06: relations between places ----

/// All places inside `place` that are not behind a reference, by the definition.
fn inside<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, local: Local, path: &mut Vec<PlaceElem<'tcx>>, ty: Ty<'tcx>, stack: &mut Vec<Ty<'tcx>>, out: &mut BTreeSet<String>, n: &dyn Fn(Place<'tcx>) -> String) {
  if stack.contains(&ty) {
    return;
  }
  stack.push(ty);
  out.insert(n(Place::make(local, path, tcx)));
  let mut fields: Vec<(Vec<PlaceElem<'tcx>>, Ty<'tcx>)> = vec![];
  match ty.kind() {
    _ if ty.is_box() => fields.push((vec![PlaceElem::Deref], ty.boxed_ty().unwrap())),
    TyKind::Tuple(ts) => fields.extend(ts.iter().enumerate().map(|(i, t)| (vec![PlaceElem::Field(FieldIdx::from_usize(i), t)], t))),
    TyKind::Array(t, _) | TyKind::Slice(t) => fields.push((vec![PlaceElem::Index(Local::from_usize(0))], *t)),
    TyKind::Closure(_, args) => fields.extend(args.as_closure().upvar_tys().iter().enumerate().map(|(i, t)| (vec![PlaceElem::Field(FieldIdx::from_usize(i), t)], t))),
    TyKind::Coroutine(_, args) => fields.extend(args.as_coroutine().upvar_tys().iter().enumerate().map(|(i, t)| (vec![PlaceElem::Field(FieldIdx::from_usize(i), t)], t))),
    TyKind::Adt(a, args) if a.is_struct() => {
      for (i, f) in a.non_enum_variant().fields.iter_enumerated() {
        if f.vis.is_accessible_from(def, tcx) {
          let t = f.ty(tcx, args);
          fields.push((vec![PlaceElem::Field(i, t)], t));
        }
      }
    }
    TyKind::Adt(a, args) if a.is_enum() => {
      for (vi, v) in a.variants().iter_enumerated() {
        for (i, f) in v.fields.iter_enumerated() {
          let t = f.ty(tcx, args);
          fields.push((vec![PlaceElem::Downcast(Some(v.name), vi), PlaceElem::Field(i, t)], t));
        }
      }
    }
    _ => {}
  }
  for (es, t) in fields {
    let k = path.len();
    path.extend(es);
    inside(tcx, def, local, path, t, stack, out, n);
    path.truncate(k);
  }
  stack.pop();
}

fn has_pointer<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, d: usize) -> bool {
  match ty.kind() {
    TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Never | TyKind::FnDef(..) | TyKind::FnPtr(..) | TyKind::Str => false,
    TyKind::Tuple(ts) => ts.iter().any(|t| has_pointer(tcx, t, d + 1)),
    TyKind::Array(t, _) | TyKind::Slice(t) => has_pointer(tcx, *t, d + 1),
    TyKind::Adt(a, args) => d > 6 || a.is_box() || args.types().any(|t| has_pointer(tcx, t, d + 1)) || a.all_fields().any(|f| has_pointer(tcx, f.ty(tcx, args), d + 1)),
    _ => true,
  }
}

fn c06_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let tcx = cx.tcx;
  let body = &cx.facts.body;
  // (Raw pointers and unions are out of scope.)
  if body.local_decls.iter().any(|d| d.ty.walk().any(|t| t.as_type().is_some_and(|t| t.is_raw_ptr() || t.is_union()))) {
    return Ok(());
  }
  let def = cx.def.to_def_id();
  let info: PlaceInfo<'tcx, 'tcx> = PlaceInfo::build(tcx, def, cx.facts);
  let mut places = vec![];
  for l in body.local_decls.indices() {
    let mut v = vec![];
    expand(tcx, body, def, Place::from_local(l, tcx), 4, true, &mut v);
    places.extend(v);
  }
  // And the places that occur in the body.
  struct Occ<'tcx>(Vec<Place<'tcx>>);
  impl<'tcx> Visitor<'tcx> for Occ<'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, _: visit::PlaceContext, _: Location) {
      self.0.push(*p);
    }
  }
  let mut occ = Occ(vec![]);
  occ.visit_body(body);
  let occurring = occ.0.clone();
  places.extend(occ.0);
  let erase = |p: Place<'tcx>| tcx.erase_regions(p);
  let name = |p: Place<'tcx>| format!("{:?}", info.normalize(p));
  let ty_of = |p: Place<'tcx>| p.ty(&body.local_decls, tcx);
  let mut seen = HashSet::new();
  places.retain(|p| seen.insert(erase(*p)));
  places.truncate(400);
  let show = |s: &BTreeSet<String>| s.iter().cloned().collect::<Vec<_>>().join(" ");
  let bare = |p: Place<'tcx>| matches!(p.projection.last(), Some(PlaceElem::Downcast(..)));
  let mut rich = 0;
  let mut conflicts: HashMap<Place<'tcx>, BTreeSet<String>> = HashMap::new();
  for p in places.iter().copied() {
    if bare(p) {
      continue;
    }
    st.evaluations += 1;
    // Normal forms.
    let norm = info.normalize(p);
    if info.normalize(norm) != norm {
      return Err(format!("{}: normalizing {p:?} twice gives {:?}, once gives {norm:?}", cx.name, info.normalize(norm)));
    }
    let indexed = p.projection.iter().any(|e| matches!(e, PlaceElem::Index(_) | PlaceElem::ConstantIndex { .. } | PlaceElem::Subslice { .. }));
    if !indexed && erase(norm).projection.iter().map(|e| format!("{e:?}")).ne(erase(p).projection.iter().map(|e| format!("{e:?}"))) {
      return Err(format!("{}: the normal form of {p:?} is another place, {norm:?}", cx.name));
    }
    // Children.
    let got: BTreeSet<String> = info.children(p).into_iter().map(name).collect();
    let mut want = BTreeSet::new();
    inside(tcx, def, p.local, &mut p.projection.to_vec(), ty_of(p).ty, &mut vec![], &mut want, &name);
    if got != want {
      return Err(format!("{}: the children of {p:?} are {{{}}}, not {{{}}}\n{}", cx.name, show(&want), show(&got), body.to_string(tcx).unwrap()));
    }
    if want.len() > 2 {
      rich += 1;
    }
    // Conflicts: inside, or around up to the nearest reference.
    let got: BTreeSet<String> = info.conflicts(p).iter().map(|q| name(*q)).collect();
    for i in (0..p.projection.len()).rev() {
      let q = Place::make(p.local, &p.projection[..i], tcx);
      if matches!(p.projection[i], PlaceElem::Deref) && !ty_of(q).ty.is_box() {
        break;
      }
      if !bare(q) {
        want.insert(name(q));
      }
    }
    if got != want {
      return Err(format!("{}: the places in conflict with {p:?} are {{{}}}, not {{{}}}\n{}", cx.name, show(&want), show(&got), body.to_string(tcx).unwrap()));
    }
    conflicts.insert(p, got);
    // Aliases.
    let al: BTreeSet<String> = info.aliases(p).iter().map(|q| name(*q)).collect();
    if !info.aliases(p).iter().any(|q| erase(*q) == erase(p)) && !indexed {
      return Err(format!("{}: {p:?} is not among its own aliases {{{}}}", cx.name, show(&al)));
    }
    if p.refs_in_projection(body, tcx).next().is_none() && al.len() != 1 {
      return Err(format!("{}: {p:?} is not behind a reference, but has aliases {{{}}}", cx.name, show(&al)));
    }
    // Whatever may be changed through a value may be read through it.
    let r: BTreeSet<String> = info.reachable_values(p, Mutability::Not).iter().map(|q| name(*q)).collect();
    let m: BTreeSet<String> = info.reachable_values(p, Mutability::Mut).iter().map(|q| name(*q)).collect();
    if !m.is_subset(&r) {
      return Err(format!("{}: what can be mutated through {p:?}, {{{}}}, is not all reachable from it, {{{}}}", cx.name, show(&m), show(&r)));
    }
    let own: BTreeSet<String> = [name(p)].into();
    if p.is_direct(body, tcx) && !r.contains(&name(p)) {
      return Err(format!("{}: {p:?} is not reachable from itself, only {{{}}}", cx.name, show(&r)));
    }
    if !has_pointer(tcx, ty_of(p).ty, 0) && !r.is_subset(&own) {
      return Err(format!("{}: {{{}}} is reachable from {p:?}, which holds no pointers", cx.name, show(&r)));
    }
  }
  // What holds for a place carries over to its parts.
  let set: HashSet<Place<'tcx>> = places.iter().copied().collect();
  for p in places.iter().copied() {
    let Some((parent, last)) = p.as_ref().last_projection() else { continue };
    let (parent, tail) = match last {
      PlaceElem::Field(..) => match parent.last_projection() {
        Some((q, d @ PlaceElem::Downcast(..))) => (Place::from_ref(q, tcx), vec![d, last]),
        _ => (Place::from_ref(parent, tcx), vec![last]),
      },
      _ => continue,
    };
    if !set.contains(&parent) || bare(p) {
      continue;
    }
    st.evaluations += 1;
    // An alias of what a reference points to is either that very thing, or something that holds it.
    let got: BTreeSet<String> = info.aliases(p).iter().map(|q| name(*q)).collect();
    let mut allowed = BTreeSet::new();
    for a in info.aliases(parent) {
      let mut pair = vec![name(*a)];
      let at = a.ty(&body.local_decls, tcx);
      if at.ty == ty_of(parent).ty {
        pair.push(name(a.project_deeper(&tail, tcx)));
      }
      if !pair.iter().any(|a| got.contains(a)) {
        return Err(format!("{}: {parent:?} may be {a:?}, but its part {p:?} has the aliases {{{}}}\n{}", cx.name, show(&got), body.to_string(tcx).unwrap()));
      }
      allowed.extend(pair);
    }
    if !got.is_subset(&allowed) {
      return Err(format!("{}: the aliases of {parent:?} make at most {{{}}} the aliases of its part {p:?}, not {{{}}}\n{}", cx.name, show(&allowed), show(&got), body.to_string(tcx).unwrap()));
    }
    for mu in [Mutability::Not, Mutability::Mut] {
      let whole: BTreeSet<String> = info.reachable_values(parent, mu).iter().map(|q| name(*q)).collect();
      let part: BTreeSet<String> = info.reachable_values(p, mu).iter().filter(|q| erase(**q) != erase(p)).map(|q| name(*q)).collect();
      if !part.is_subset(&whole) {
        return Err(format!("{}: {{{}}} is reachable from {p:?} but only {{{}}} from the whole {parent:?} ({mu:?})\n{}", cx.name, show(&part), show(&whole), body.to_string(tcx).unwrap()));
      }
      if part.len() > 1 {
        rich += 1;
      }
    }
  }
  // The parts of a recursive type end where the type comes again.
  let recursive = |p: Place<'tcx>, from: usize| {
    let path: Vec<_> = (from..=p.projection.len()).filter(|i| *i == 0 || !matches!(p.projection[*i - 1], PlaceElem::Downcast(..)))
      .map(|i| ty_of(Place::make(p.local, &p.projection[..i], tcx)).ty).collect();
    path.iter().collect::<HashSet<_>>().len() < path.len()
  };
  // Conflict is symmetric.
  for p in places.iter().copied().filter(|p| !bare(*p)) {
    for q in places.iter().copied().filter(|q| q.local == p.local && !bare(*q)) {
      let (Some(a), Some(b)) = (conflicts.get(&p), conflicts.get(&q)) else { continue };
      let (short, long) = if p.projection.len() < q.projection.len() { (p, q) } else { (q, p) };
      if recursive(long, short.projection.len()) {
        continue;
      }
      st.evaluations += 1;
      if a.contains(&name(q)) != b.contains(&name(p)) && name(q) != name(p) {
        return Err(format!("{}: {p:?} and {q:?} conflict in one order only", cx.name));
      }
    }
  }
  // Arguments.
  let mut args: BTreeMap<Local, BTreeSet<String>> = BTreeMap::new();
  for (p, i) in info.all_args() {
    let LocationOrArg::Arg(a) = *info.location_domain().value(i) else { return Err(format!("{}: {p:?} is reported as part of no argument", cx.name)) };
    if p.local != a {
      return Err(format!("{}: {p:?} is reported as part of the argument {a:?}", cx.name));
    }
    args.entry(a).or_default().insert(name(p));
  }
  for a in body.args_iter() {
    let mut v = vec![];
    expand(tcx, body, def, Place::from_local(a, tcx), 3, true, &mut v);
    for p in v {
      st.evaluations += 1;
      if p.refs_in_projection(body, tcx).count() > 1 || p.refs_in_projection(body, tcx).any(|(r, _)| r.projection.len() > 2) || bare(p) || recursive(p, 0) {
        continue;
      }
      if !args.get(&a).is_some_and(|s| s.contains(&name(p))) {
        return Err(format!("{}: {p:?} is not among the places of the arguments", cx.name));
      }
    }
  }
  // All elements of an array are one.
  for p in occurring {
    if let Some((q, PlaceElem::Index(_) | PlaceElem::ConstantIndex { .. })) = p.as_ref().last_projection() {
      let q = Place::from_ref(q, tcx).project_deeper(&[PlaceElem::Index(Local::from_usize(1))], tcx);
      st.evaluations += 1;
      if info.normalize(p) != info.normalize(q) {
        return Err(format!("{}: {p:?} and {q:?} have different normal forms", cx.name));
      }
    }
  }
  if rich > 3 {
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, places.len())));
    st.sample(3, || json!({"function": t, "places": places.len()}));
  }
  Ok(())
}

// ---- C08: modes ----

pub fn modes() -> Vec<EvalMode> {
  let mut v = vec![];
  for mutability_mode in [MutabilityMode::DistinguishMut, MutabilityMode::IgnoreMut] {
    for pointer_mode in [PointerMode::Precise, PointerMode::Conservative] {
      for context_mode in [ContextMode::SigOnly, ContextMode::Recurse] {
        v.push(EvalMode { mutability_mode, context_mode, pointer_mode });
      }
    }
  }
  v
}

/// Points of interest: at each assignment or call, the places it names; and everything at returns.
fn points<'tcx>(cx: &FnCtx<'_, 'tcx>) -> Vec<(Location, Place<'tcx>)> {
  let body = &cx.facts.body;
  let mut v = vec![];
  for loc in body.all_locations() {
    match at(body, loc) {
      At::Stmt(s) => if let StatementKind::Assign(a) = &s.kind {
        v.push((loc, a.0));
      },
      At::Term(t) => match &t.kind {
        TerminatorKind::Call { destination, args, .. } => v.extend(args.iter().filter_map(|a| a.node.place()).chain([*destination]).map(|p| (loc, p))),
        TerminatorKind::SwitchInt { discr, .. } => v.extend(discr.place().map(|p| (loc, p))),
        TerminatorKind::Return => {
          for l in body.local_decls.indices() {
            let mut x = vec![];
            expand(cx.tcx, body, cx.def.to_def_id(), Place::from_local(l, cx.tcx), 2, true, &mut x);
            v.extend(x.into_iter().map(|p| (loc, p)));
          }
        }
        _ => {}
      },
    }
  }
  v
}

fn what_modes_mean<'tcx>(cx: &FnCtx<'_, 'tcx>, st: &mut Stats, m: EvalMode, info: &PlaceInfo<'tcx, 'tcx>) -> Result<(), String> {
  let (tcx, body) = (cx.tcx, &cx.facts.body);
  let name = |p: Place<'tcx>| format!("{:?}", info.normalize(p));
  let mut places = vec![];
  for l in body.local_decls.indices() {
    expand(tcx, body, cx.def.to_def_id(), Place::from_local(l, tcx), 2, false, &mut places);
  }
  if m.mutability_mode == MutabilityMode::IgnoreMut {
    for p in places.iter().copied() {
      st.evaluations += 1;
      let all: BTreeSet<String> = info.reachable_values(p, Mutability::Not).iter().map(|q| name(*q)).collect();
      let muts: BTreeSet<String> = info.reachable_values(p, Mutability::Mut).iter().map(|q| name(*q)).collect();
      if all != muts {
        return Err(format!("{}: {all:?} can be reached through {p:?}, but only {muts:?} mutated, although mutability is ignored\n{}", cx.name, body.to_string(tcx).unwrap()));
      }
    }
  }
  if m.pointer_mode == PointerMode::Conservative {
    // All references to the same type may point to the same.
    let mut by_ty: HashMap<Ty<'tcx>, Vec<(Place<'tcx>, BTreeSet<String>)>> = HashMap::new();
    for p in places {
      if let TyKind::Ref(_, t, _) = p.ty(&body.local_decls, tcx).ty.kind() && !t.walk().any(|a| a.as_region().is_some()) {
        let q = tcx.mk_place_deref(p);
        by_ty.entry(*t).or_default().push((q, info.aliases(q).iter().map(|a| name(*a)).collect()));
      }
    }
    for ps in by_ty.values() {
      // (What an argument points to is nothing else in the function.)
      for (p, a) in ps.iter().filter(|(p, _)| !(1..=body.arg_count).contains(&p.local.as_usize())) {
        for (q, b) in ps {
          st.evaluations += 1;
          if let Some(x) = b.iter().find(|x| **x != name(*q) && !a.contains(*x)) {
            return Err(format!("{}: {q:?} may be {x}, but {p:?}, of the same type, may not, although all pointers are taken to be alike\n{}", cx.name, body.to_string(tcx).unwrap()));
          }
        }
      }
    }
  }
  Ok(())
}

fn c08_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let pts = points(cx);
  let mut all: Vec<(EvalMode, Vec<HashSet<LocationOrArg>>)> = vec![];
  for m in modes() {
    let deps = EVAL_MODE.set(m, || {
      let r = flow(cx);
      what_modes_mean(cx, st, m, &r.analysis.place_info)?;
      Ok::<_, String>(pts.iter().map(|(l, p)| deps_vec(&r.analysis.deps_for(r.state_at(*l), *p))).collect())
    })?;
    all.push((m, deps));
  }
  let mut differ = 0;
  let default = { let r = flow(cx); pts.iter().map(|(l, p)| deps_vec(&r.analysis.deps_for(r.state_at(*l), *p))).collect::<Vec<_>>() };
  if default != all[0].1 {
    return Err(format!("{}: without a mode, results differ from those in the default mode", cx.name));
  }
  for (ma, a) in &all {
    for (mb, b) in &all {
      // mb is at least as conservative as ma in every respect
      let le = (ma.mutability_mode == mb.mutability_mode || mb.mutability_mode == MutabilityMode::IgnoreMut)
        && (ma.pointer_mode == mb.pointer_mode || mb.pointer_mode == PointerMode::Conservative)
        && ma.context_mode == mb.context_mode;
      if !le || ma == mb {
        continue;
      }
      for (i, (x, y)) in a.iter().zip(b).enumerate() {
        st.evaluations += 1;
        if let Some(miss) = x.iter().find(|d| !y.contains(d)) {
          return Err(format!("{}: {:?} at {:?} depends on {miss:?} in {ma:?} but not in the more conservative {mb:?}\n{}", cx.name, pts[i].1, pts[i].0, cx.facts.body.to_string(cx.tcx).unwrap()));
        }
        if x.len() < y.len() {
          differ += 1;
        }
      }
    }
  }
  if differ > 0 {
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, differ)));
    st.sample(3, || json!({"function": t, "less_precise_results": differ}));
  }
  Ok(())
}

// ---- C10: repeatability ----

/// Everything that can be asked about the function, by name. Queries in the given order.
pub fn snapshot<'tcx>(cx: &FnCtx<'_, 'tcx>, r: &FlowResults<'_, 'tcx>, order: u64) -> BTreeMap<String, String> {
  let body = &cx.facts.body;
  let info = &r.analysis.place_info;
  let tcx = cx.tcx;
  let nm = |p: Place<'tcx>| format!("{:?}", info.normalize(p));
  let mut out = BTreeMap::new();
  let mut pts = points(cx);
  let mut rng = Rng::new(order);
  if order > 0 {
    for i in (1..pts.len()).rev() {
      pts.swap(i, rng.below(i + 1));
    }
  }
  let pts: Vec<_> = pts;
  for (loc, p) in pts.iter() {
    let mut qs = vec![0, 1, 2, 3, 4, 5];
    if order > 0 {
      for i in (1..qs.len()).rev() {
        qs.swap(i, rng.below(i + 1));
      }
    }
    for q in qs {
      let set = |s: &mut dyn Iterator<Item = Place<'tcx>>| s.map(nm).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(" ");
      let (k, v) = match q {
        0 => (format!("dependencies of {p:?} at {loc:?}"), show_deps(&r.analysis.deps_for(r.state_at(*loc), *p))),
        1 => (format!("values reachable from {p:?}"), set(&mut info.reachable_values(*p, Mutability::Not).iter().copied())),
        2 => (format!("values mutable through {p:?}"), set(&mut info.reachable_values(*p, Mutability::Mut).iter().copied())),
        3 => (format!("aliases of {p:?}"), set(&mut info.aliases(*p).iter().copied())),
        4 => (format!("conflicts of {p:?}"), set(&mut info.conflicts(*p).iter().copied())),
        _ => {
          if hash((format!("{p:?} {loc:?}"), 7)) % pts.len() as u64 > 12 {
            continue;
          }
          (format!("forward dependencies of {p:?} at {loc:?}"), show_deps(&compute_dependencies(r, vec![vec![(*p, LocationOrArg::Location(*loc))]], Direction::Forward)[0]))
        }
      };
      out.insert(k, v);
    }
  }
  for loc in body.all_locations() {
    let st = r.state_at(loc);
    let mut rows: Vec<String> = st.rows().map(|(p, d)| (p, d)).filter(|(_, d)| d.len() > 0).map(|(p, d)| format!("{p:?}: {}", show_deps(d))).collect();
    rows.sort();
    out.insert(format!("state at {loc:?}"), rows.join("; "));
  }
  out
}

pub fn first_difference(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
  for (k, v) in a {
    let Some(w) = b.get(k) else { return Some(format!("{k}: {{{v}}} / nothing")) };
    if v != w {
      return Some(format!("{k}: {{{v}}} / {{{w}}}"));
    }
  }
  None
}

fn c10_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  // Half of the time, in the default mode.
  let k = cx.rng.below(14);
  let mode = modes()[if k < 8 { k } else { 0 }];
  let a = EVAL_MODE.set(mode, || snapshot(cx, &flow(cx), 0));
  // Other analyses in between: other modes, other functions.
  let other = modes()[1 + cx.rng.below(7)];
  EVAL_MODE.set(other, || {
    let _ = flow(cx);
  });
  let all = session::bodies(cx.tcx);
  let (d, b) = all[cx.rng.below(all.len())];
  if let Some(f) = session::facts(cx.tcx, d) {
    EVAL_MODE.set(modes()[cx.rng.below(8)], || {
      let _ = compute_flow(cx.tcx, b, f);
    });
  }
  let orders = [1 + cx.rng.next() % 1000, 1 + cx.rng.next() % 1000];
  let again = EVAL_MODE.set(mode, || {
    let r = flow(cx);
    orders.map(|order| snapshot(cx, &r, order))
  });
  for b in again {
    st.evaluations += a.len() as u64;
    if let Some(d) = first_difference(&a, &b) {
      return Err(format!("{}: repeating the analysis in {mode:?} (after one in {other:?}) and asking in another order gives something else for the {d}\n{}", cx.name, cx.facts.body.to_string(cx.tcx).unwrap()));
    }
  }
  if body_size(&cx.facts.body) > 20 {
    st.nontrivial.insert(hash((cx.unit, &cx.name, a.len())));
    st.sample(2, || json!({"function": find_fn_text(cx.src, cx.unit, &cx.name), "answers": a.len()}));
  }
  Ok(())
}

/// Snapshots of all functions of a source, in a session of their own.
pub fn snapshots(src: &str, mode: EvalMode, reverse: bool, st: &mut Stats) -> Option<BTreeMap<String, BTreeMap<String, String>>> {
  let out = session::run(src, NO_OVERFLOW, |tcx| {
    let mut m = BTreeMap::new();
    let mut rejected = 0;
    let mut all = session::bodies(tcx);
    if reverse {
      all.reverse();
    }
    for (def, body_id) in all {
      let name = tcx.def_path_str(def.to_def_id());
      let Some(facts) = session::facts(tcx, def) else {
        rejected += 1;
        continue;
      };
      let cx = FnCtx { tcx, def, body_id, facts, rng: Rng::new(1), name: name.clone(), unit: 0, src };
      m.insert(name, EVAL_MODE.set(mode, || snapshot(&cx, &flow(&cx), reverse as u64)));
    }
    (m, rejected)
  });
  let (m, rejected) = out.result?;
  st.count("rejected_by_rustc", rejected);
  Some(m)
}

pub fn unit_of(path: &str) -> Option<usize> {
  path.split("::").find_map(|c| c.strip_prefix('u').and_then(|n| n.parse::<usize>().ok()))
}

fn c10(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  let mut fails = over_functions(b, NO_OVERFLOW, st, c10_fn);
  let src = b.source();
  let mode = modes()[(b.seed % 2) as usize];
  let (Some(x), Some(y)) = (snapshots(&src, mode, false, st), snapshots(&src, mode, true, st)) else { return fails };
  for (f, a) in &x {
    let Some(b) = y.get(f) else { continue };
    st.evaluations += a.len() as u64;
    if let Some(d) = first_difference(a, b) {
      fails.push(Failure { unit: unit_of(f).unwrap_or(0), item: f.clone(), detail: format!("another session, with the functions in another order (in {mode:?}), gives something else for the {d}") });
    }
  }
  fails
}

// ---- C11: queries for several targets and directions ----

fn c11_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let r = flow(cx);
  let body = &cx.facts.body;
  let mut pool: Vec<(Place<'tcx>, LocationOrArg)> = vec![];
  for (l, p) in points(cx) {
    pool.push((p, LocationOrArg::Location(l)));
  }
  // What is mutated, or branched on, at each location.
  let mut touched: HashMap<Location, Vec<Place<'tcx>>> = HashMap::new();
  let mut mutated: HashMap<Location, Vec<Place<'tcx>>> = HashMap::new();
  for loc in body.all_locations() {
    let mut v = ModularMutationVisitor::new(&r.analysis.place_info, |l, ms| touched.entry(l).or_default().extend(ms.into_iter().map(|m| m.mutated)));
    match at(body, loc) {
      At::Stmt(s) => v.visit_statement(s, loc),
      At::Term(t) => v.visit_terminator(t, loc),
    }
    if let Some(v) = touched.get(&loc) {
      mutated.insert(loc, v.clone());
    }
    if let At::Term(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) = at(body, loc) {
      if let Some(p) = discr.place() {
        let indices = p.projection.iter().filter_map(|e| match e { PlaceElem::Index(i) => Some(Place::from_local(i, cx.tcx)), _ => None });
        touched.entry(loc).or_default().extend(indices.chain([p]));
      }
    }
  }
  for a in body.args_iter() {
    pool.push((Place::from_local(a, cx.tcx), LocationOrArg::Arg(a)));
  }
  if pool.len() < 3 {
    return Ok(());
  }
  let one = |t: (Place<'tcx>, LocationOrArg), d: Direction| deps_vec(&compute_dependencies(&r, vec![vec![t]], d)[0]);
  for _ in 0..6 {
    // Several groups of several targets each, sometimes empty.
    let n = 1 + cx.rng.below(4);
    let groups: Vec<Vec<(Place<'tcx>, LocationOrArg)>> = (0..n).map(|_| {
      let k = [0, 1, 1, 2, 3, 5][cx.rng.below(6)];
      (0..k).map(|_| pool[cx.rng.below(pool.len())]).collect()
    }).collect();
    for d in [Direction::Forward, Direction::Backward, Direction::Both] {
      let got = compute_dependencies(&r, groups.clone(), d);
      if got.len() != groups.len() {
        return Err(format!("{}: {} groups of targets give {} answers ({d:?})", cx.name, groups.len(), got.len()));
      }
      for (g, s) in groups.iter().zip(&got) {
        st.evaluations += 1;
        let mut want = HashSet::new();
        for t in g {
          match d {
            Direction::Both => {
              want.extend(one(*t, Direction::Forward));
              want.extend(one(*t, Direction::Backward));
            }
            d => want.extend(one(*t, d)),
          }
        }
        let s = deps_vec(s);
        if s != want {
          return Err(format!("{}: {d:?} dependencies of the targets {g:?} among {groups:?} are not the union of those of each: {:?} differ\n{}", cx.name, s.symmetric_difference(&want).collect::<Vec<_>>(), body.to_string(cx.tcx).unwrap()));
        }
        if s.len() > 3 && g.len() > 1 {
          st.nontrivial.insert(hash((cx.unit, &cx.name, s.len(), g.len())));
        }
      }
    }
  }
  for (i, t) in pool.iter().enumerate() {
    if pool.len() > 120 && i % 3 != 0 {
      continue;
    }
    st.evaluations += 1;
    let back = one(*t, Direction::Backward);
    let fwd = one(*t, Direction::Forward);
    match t.1 {
      LocationOrArg::Location(l) => {
        let want = deps_vec(&r.analysis.deps_for(r.state_at(l), t.0));
        if back != want {
          return Err(format!("{}: the backward dependencies of {t:?} are not the dependencies of the place there", cx.name));
        }
        if mutated.get(&l).is_some_and(|v| v.contains(&t.0)) && !fwd.contains(&t.1) {
          return Err(format!("{}: {t:?} is not among its own forward dependencies\n{}", cx.name, body.to_string(cx.tcx).unwrap()));
        }
        // Forward and backward agree: what the target leads to has the target's location among its dependencies.
        for m in &fwd {
          match m {
            LocationOrArg::Location(m) => {
              let ok = touched.get(m).is_some_and(|v| v.iter().any(|p| r.analysis.deps_for(r.state_at(*m), *p).contains(LocationOrArg::Location(l))));
              if !ok {
                return Err(format!("{}: {m:?} is among the forward dependencies of {t:?}, but nothing computed or decided there depends on {l:?}\n{}", cx.name, body.to_string(cx.tcx).unwrap()));
              }
            }
            LocationOrArg::Arg(a) => return Err(format!("{}: the argument {a:?} is among the forward dependencies of {t:?}", cx.name)),
          }
        }
      }
      LocationOrArg::Arg(a) => {
        if back != [t.1].into() {
          return Err(format!("{}: the backward dependencies of the argument {a:?} are {back:?}", cx.name));
        }
        if !fwd.contains(&t.1) {
          return Err(format!("{}: the argument {a:?} is not among its own forward dependencies", cx.name));
        }
        for m in &fwd {
          let ok = match m {
            LocationOrArg::Location(m) => touched.get(m).is_some_and(|v| v.iter().any(|p| r.analysis.deps_for(r.state_at(*m), *p).contains(LocationOrArg::Arg(a)))),
            LocationOrArg::Arg(b) => *b == a,
          };
          if !ok {
            return Err(format!("{}: {m:?} is among the forward dependencies of the argument {a:?}, but nothing there depends on it\n{}", cx.name, body.to_string(cx.tcx).unwrap()));
          }
        }
      }
    }
  }
  Ok(())
}

// ---- C12: the fixpoint engine ----

/// An arbitrary analysis that makes and forgets facts.
struct GenKill {
  seed: u64,
  facts: usize,
}
impl GenKill {
  fn apply(&self, s: &mut DenseBitSet<usize>, loc: Location, term: bool) {
    let mut rng = Rng::new(hash((self.seed, loc.block.as_usize(), loc.statement_index, term)));
    for _ in 0..rng.below(4) {
      s.remove(rng.below(self.facts));
    }
    for _ in 0..rng.below(3) {
      s.insert(rng.below(self.facts));
    }
    // A fact that follows from another one.
    if rng.below(3) == 0 {
      let (a, b) = (rng.below(self.facts), rng.below(self.facts));
      if s.contains(a) {
        s.insert(b);
      }
    }
  }
}
impl<'tcx> Analysis<'tcx> for GenKill {
  type Domain = DenseBitSet<usize>;
  const NAME: &'static str = "GenKill";
  fn bottom_value(&self, _: &Body<'tcx>) -> Self::Domain {
    DenseBitSet::new_empty(self.facts)
  }
  fn initialize_start_block(&self, _: &Body<'tcx>, s: &mut Self::Domain) {
    s.insert((self.seed % self.facts as u64) as usize);
  }
  fn apply_primary_statement_effect(&mut self, s: &mut Self::Domain, _: &Statement<'tcx>, l: Location) {
    self.apply(s, l, false);
  }
  fn apply_primary_terminator_effect<'mir>(&mut self, s: &mut Self::Domain, t: &'mir Terminator<'tcx>, l: Location) -> TerminatorEdges<'mir, 'tcx> {
    self.apply(s, l, true);
    t.edges()
  }
}

/// Makes any analysis acceptable to rustc's engine.
struct Wrap<A>(A);
#[derive(Clone)]
struct Dom<D>(D);
impl<D> PartialEq for Dom<D> {
  fn eq(&self, _: &Self) -> bool {
    unimplemented!()
  }
}
impl<D> Eq for Dom<D> {}
impl<D> std::fmt::Debug for Dom<D> {
  fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    unimplemented!()
  }
}
impl<D, C> rustc_mir_dataflow::fmt::DebugWithContext<C> for Dom<D> {}
impl<D: rustc_mir_dataflow::JoinSemiLattice> rustc_mir_dataflow::JoinSemiLattice for Dom<D> {
  fn join(&mut self, other: &Self) -> bool {
    self.0.join(&other.0)
  }
}
impl<'tcx, A: Analysis<'tcx>> Analysis<'tcx> for Wrap<A> {
  type Domain = Dom<A::Domain>;
  type Direction = A::Direction;
  const NAME: &'static str = "Wrap";
  fn bottom_value(&self, b: &Body<'tcx>) -> Self::Domain {
    Dom(self.0.bottom_value(b))
  }
  fn initialize_start_block(&self, b: &Body<'tcx>, s: &mut Self::Domain) {
    self.0.initialize_start_block(b, &mut s.0)
  }
  fn apply_primary_statement_effect(&mut self, s: &mut Self::Domain, x: &Statement<'tcx>, l: Location) {
    self.0.apply_primary_statement_effect(&mut s.0, x, l)
  }
  fn apply_primary_terminator_effect<'mir>(&mut self, s: &mut Self::Domain, t: &'mir Terminator<'tcx>, l: Location) -> TerminatorEdges<'mir, 'tcx> {
    self.0.apply_primary_terminator_effect(&mut s.0, t, l)
  }
}

fn against<'tcx, A: Analysis<'tcx>>(cx: &FnCtx<'_, 'tcx>, st: &mut Stats, what: &str, ours: A, theirs: A, show: impl Fn(&A::Domain) -> String) -> Result<(), String>
where
  A::Domain: Clone,
{
  let body = &cx.facts.body;
  let info = PlaceInfo::build(cx.tcx, cx.def.to_def_id(), cx.facts);
  let ours = engine::iterate_to_fixpoint(cx.tcx, body, info.location_domain().clone(), ours);
  let mut cursor = Wrap(theirs).iterate_to_fixpoint(cx.tcx, body, None).into_results_cursor(body);
  let live = traversal::reachable_as_bitset(body);
  for loc in body.all_locations().filter(|l| live.contains(l.block)) {
    cursor.seek_after_primary_effect(loc);
    st.evaluations += 1;
    let (a, b) = (show(ours.state_at(loc)), show(&cursor.get().0));
    if a != b {
      return Err(format!("{}: {what} at {loc:?} is\n  {a}\nbut with rustc's engine\n  {b}\n{}", cx.name, body.to_string(cx.tcx).unwrap()));
    }
  }
  Ok(())
}

fn c12_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let body = &cx.facts.body;
  // (rustc's engine does not follow the edges of drops of coroutines.)
  if body.coroutine.is_some() {
    return Ok(());
  }
  let mk = || {
    let info = PlaceInfo::build(cx.tcx, cx.def.to_def_id(), cx.facts);
    FlowAnalysis::new(cx.tcx, cx.def.to_def_id(), body, info)
  };
  let rows = |d: &flowistry::infoflow::FlowDomain<'tcx>| {
    let mut v: Vec<String> = d.rows().filter(|(_, d)| d.len() > 0).map(|(p, d)| format!("{p:?}: {}", show_deps(d))).collect();
    v.sort();
    v.join("; ")
  };
  against(cx, st, "information flow", mk(), mk(), rows)?;
  against(cx, st, "MaybeBorrowedLocals", MaybeBorrowedLocals, MaybeBorrowedLocals, |d| format!("{d:?}"))?;
  for _ in 0..3 {
    let (seed, facts) = (cx.rng.next(), 1 + cx.rng.below(12));
    against(cx, st, "a random analysis", GenKill { seed, facts }, GenKill { seed, facts }, |d| format!("{d:?}"))?;
  }
  if body.basic_blocks.len() > 5 && !cyclic(body).is_empty() {
    st.nontrivial.insert(hash((cx.unit, &cx.name, body_size(body))));
    st.sample(2, || json!({"function": find_fn_text(cx.src, cx.unit, &cx.name)}));
  }
  Ok(())
}

fn c06(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, &[], st, c06_fn)
}
fn c08(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, &[], st, c08_fn)
}
fn c11(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, &[], st, c11_fn)
}
fn c12(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, &[], st, c12_fn)
}

pub fn checks() -> Vec<Check> {
  let mk = |id, rule, run, batches| Check { id, level: "exploration", rule, assumptions: &[], cfg: tune, run, quick: (25, batches), thorough: (25, batches * 20), corpus: true };
  vec![
    mk("C06", "Laws between children, conflicts, aliases, reachable values, argument places and normal forms, for the places of generated functions. Non-trivial: a function with more than three places that have several parts or pointers.", c06, 200),
    mk("C08", "Dependencies of generated functions in all combinations of mutability, pointer and context mode. Non-trivial: a function where a more conservative mode gives more.", c08, 60),
    mk("C10", "All answers about generated functions, repeated after other analyses, in other orders and in another session. Non-trivial: a function of more than 20 instructions.", c10, 16),
    mk("C11", "Random groups of targets in generated functions, in all directions, against single targets. Non-trivial: a group of several targets with more than three dependencies.", c11, 100),
    mk("C12", "States of three kinds of analyses at every location of generated functions against rustc's engine. Non-trivial: a function with a loop and more than five blocks.", c12, 40),
  ]
}
