//! What the static notions of memory (aliases, reachable values, mutations) say against what executions do.
use std::{cell::RefCell, collections::{BTreeSet, HashMap, HashSet}, rc::Rc};

use flowistry::{infoflow::{FlowResults, mutation::{ModularMutationVisitor, Mutation, MutationStatus}}, mir::{placeinfo::PlaceInfo, utils::PlaceSet}};
use rustc_middle::{mir::{visit::Visitor, *}, ty::{Ty, TyCtxt, TyKind}};
use rustc_mir_dataflow::{Analysis, impls::MaybeLiveLocals};
use rustc_utils::{BodyExt, PlaceExt, mir::place::UNKNOWN_REGION};
use serde_json::json;

use super::{flow::*, util::*};
use crate::{interp::*, run::*};

/// Where the memory that the function got from its caller was when it was called.
struct Entry<'tcx> {
  refs: HashMap<Place<'tcx>, Ptr>,
}

/// The memory that `place` denotes, coarsely: stops at indices, and at other variants.
/// References are followed only from arguments, as they were on entry.
fn denotes<'tcx>(it: &Interp<'tcx>, f: &Frame<'tcx>, tcx: TyCtxt<'tcx>, entry: &Entry<'tcx>, place: Place<'tcx>) -> Option<Ptr> {
  let mut p = Ptr::root(f.locals[place.local.as_usize()]);
  for (i, elem) in place.projection.iter().enumerate() {
    match elem {
      ProjectionElem::Deref => {
        let prefix = Place::make(place.local, &place.projection[..i], tcx);
        if prefix.ty(&f.body.local_decls, tcx).ty.is_box() {
          match it.get(&p) {
            Ok(Val::Bx(a)) => p = Ptr::root(*a),
            _ => return None,
          }
        } else {
          p = entry.refs.get(&tcx.erase_regions(prefix))?.clone();
        }
      }
      ProjectionElem::Field(i, _) => match it.get(&p) {
        Ok(Val::Tup(v) | Val::Adt { fields: v, .. } | Val::Clo { fields: v, .. }) if i.as_usize() < v.len() => p = p.child(i.as_usize()),
        _ => return Some(p),
      },
      ProjectionElem::Downcast(_, v) => match it.get(&p) {
        Ok(Val::Adt { variant, .. }) if *variant == v.as_usize() => {}
        _ => return Some(p),
      },
      _ => return Some(p),
    }
  }
  Some(p)
}

/// The memory of the boxes that are part of the value at `p`.
fn own_boxes<'tcx>(it: &Interp<'tcx>, p: &Ptr, out: &mut Vec<usize>) {
  fn walk<'tcx>(it: &Interp<'tcx>, v: &Val<'tcx>, out: &mut Vec<usize>) {
    match v {
      Val::Bx(a) if !out.contains(a) => {
        out.push(*a);
        if let Ok(v) = it.get(&Ptr::root(*a)) {
          walk(it, v, out);
        }
      }
      Val::Tup(fs) | Val::Arr(fs) | Val::Adt { fields: fs, .. } | Val::Clo { fields: fs, .. } => fs.iter().for_each(|v| walk(it, v, out)),
      _ => {}
    }
  }
  if let Ok(v) = it.get(p) {
    walk(it, v, out);
  }
}

/// Whether the memory `q`, together with the boxes in it, and `m` have something in common.
fn touches<'tcx>(it: &Interp<'tcx>, q: &Ptr, m: &Ptr) -> bool {
  q.overlaps(m) || {
    let mut v = vec![];
    own_boxes(it, q, &mut v);
    v.contains(&m.alloc)
  }
}

fn covered<'tcx, 'b>(it: &Interp<'tcx>, f: &Frame<'tcx>, tcx: TyCtxt<'tcx>, entry: &Entry<'tcx>, set: impl Iterator<Item = &'b Place<'tcx>>, m: &Ptr) -> bool where 'tcx: 'b {
  let mut set = set;
  set.any(|a| denotes(it, f, tcx, entry, *a).is_some_and(|q| touches(it, &q, m)))
}

struct World<'tcx> {
  tcx: TyCtxt<'tcx>,
  entry: Entry<'tcx>,
  /// Places without references that hold memory: locals and the inside of boxes; and places behind the references in arguments.
  roots: Vec<Place<'tcx>>,
}
impl<'tcx> World<'tcx> {
  fn new(cx: &FnCtx<'_, 'tcx>) -> Self {
    let body = &cx.facts.body;
    let mut roots = vec![];
    for l in body.local_decls.indices() {
      let mut v = vec![];
      let p = Place::from_local(l, cx.tcx);
      expand(cx.tcx, body, cx.def.to_def_id(), p, 5, true, &mut v);
      roots.extend(v.into_iter().filter(|p| p.projection.is_empty() || p.projection.last() == Some(&PlaceElem::Deref)).filter(|p| p.is_arg(body) || p.refs_in_projection(body, cx.tcx).next().is_none()));
    }
    World { tcx: cx.tcx, entry: Entry { refs: HashMap::new() }, roots }
  }
  /// Called once the arguments are in place.
  fn enter(&mut self, it: &Interp<'tcx>, f: &Frame<'tcx>) {
    let roots = self.roots.clone();
    for r in roots {
      if r.is_arg(f.body) && r.projection.last() == Some(&PlaceElem::Deref) {
        let ptr = Place::make(r.local, &r.projection[..r.projection.len() - 1], self.tcx);
        if ptr.ty(&f.body.local_decls, self.tcx).ty.is_ref() && let Ok(q) = it.resolve(f, r) {
          self.entry.refs.insert(self.tcx.erase_regions(ptr), q);
        }
      }
    }
  }
  fn owned(&self, it: &Interp<'tcx>, f: &Frame<'tcx>, m: &Ptr) -> bool {
    self.roots.iter().any(|r| denotes(it, f, self.tcx, &self.entry, *r).is_some_and(|q| q.alloc == m.alloc))
  }
  fn covered<'b>(&self, it: &Interp<'tcx>, f: &Frame<'tcx>, set: impl Iterator<Item = &'b Place<'tcx>>, m: &Ptr) -> bool where 'tcx: 'b {
    covered(it, f, self.tcx, &self.entry, set, m)
  }
}

#[derive(Default)]
struct Log {
  fail: Option<String>,
  checked: u64,
  kinds: BTreeSet<String>,
}

/// Memory reachable from the value at `p`, with whether only mutable references (and boxes) lead there.
fn reach<'tcx>(it: &Interp<'tcx>, p: &Ptr, ty: Ty<'tcx>, mutable: bool, depth: usize, out: &mut Vec<(Ptr, bool)>) {
  if depth > 8 || out.len() > 60 {
    return;
  }
  let Ok(v) = it.get(p) else { return };
  match (v, ty.kind()) {
    (Val::Ref(q), TyKind::Ref(_, t, m)) => {
      let mutable = mutable && m.is_mut();
      out.push((q.clone(), mutable));
      reach(it, q, *t, mutable, depth + 1, out);
    }
    (Val::Bx(a), _) if ty.is_box() => {
      let q = Ptr::root(*a);
      out.push((q.clone(), mutable));
      reach(it, &q, ty.boxed_ty().unwrap(), mutable, depth + 1, out);
    }
    (Val::Tup(fs), TyKind::Tuple(ts)) => {
      for (i, t) in ts.iter().enumerate().take(fs.len()) {
        reach(it, &p.child(i), t, mutable, depth + 1, out);
      }
    }
    (Val::Arr(fs), TyKind::Array(t, _) | TyKind::Slice(t)) => {
      for i in 0..fs.len() {
        reach(it, &p.child(i), *t, mutable, depth + 1, out);
      }
    }
    (Val::Adt { variant, fields, .. }, TyKind::Adt(adt, args)) => {
      for (i, f) in adt.variant(rustc_abi::VariantIdx::from_usize(*variant)).fields.iter().enumerate().take(fields.len()) {
        let t = it.tcx.erase_regions(f.ty(it.tcx, args));
        reach(it, &p.child(i), t, mutable, depth + 1, out);
      }
    }
    (Val::Clo { fields, .. }, TyKind::Closure(_, args)) => {
      for (i, t) in args.as_closure().upvar_tys().iter().enumerate().take(fields.len()) {
        reach(it, &p.child(i), t, mutable, depth + 1, out);
      }
    }
    _ => {}
  }
}

fn show<'tcx>(s: &PlaceSet<'tcx>) -> String {
  let mut v: Vec<String> = s.iter().map(|p| format!("{p:?}")).collect();
  v.sort();
  v.join(" ")
}

fn c04_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  if excluded(cx) {
    st.count("fn_excluded", 1);
    return Ok(());
  }
  let body = &cx.facts.body;
  let tcx = cx.tcx;
  let info: Rc<PlaceInfo<'tcx, 'tcx>> = Rc::new(PlaceInfo::build(tcx, cx.def.to_def_id(), cx.facts));
  let mut places = vec![];
  for l in body.local_decls.indices() {
    let mut v = vec![];
    expand(tcx, body, cx.def.to_def_id(), Place::from_local(l, tcx), 3, true, &mut v);
    places.extend(v.into_iter().filter(|p| p.refs_in_projection(body, tcx).next().is_some()));
  }
  places.truncate(250);
  let mut cursor = MaybeLiveLocals.iterate_to_fixpoint(tcx, body, None).into_results_cursor(body);
  let mut live: HashMap<Location, Vec<Local>> = HashMap::new();
  for loc in body.all_locations() {
    cursor.seek_before_primary_effect(loc);
    live.insert(loc, body.local_decls.indices().filter(|l| cursor.get().contains(*l)).collect());
  }
  let live = Rc::new(live);
  let places = Rc::new(places);
  let log = Rc::new(RefCell::new(Log::default()));
  for _ in 0..3 {
    let world = Rc::new(RefCell::new((World::new(cx), false, HashMap::<Location, usize>::new())));
    let (i2, l2, p2, v2, w2, g2) = (info.clone(), log.clone(), places.clone(), live.clone(), world.clone(), cx.def);
    let probe: Probe<'tcx> = Box::new(move |it, f, loc, after| {
      let (info, log, places, live) = (&i2, &l2, &p2, &v2);
      let mut w = w2.borrow_mut();
      if !w.1 {
        w.1 = true;
        w.0.enter(it, f);
      }
      let mut log = log.borrow_mut();
      if !after || log.fail.is_some() {
        return;
      }
      let n = w.2.entry(loc).or_default();
      *n += 1;
      if *n > 2 || !matches!(at(f.body, loc), At::Stmt(Statement { kind: StatementKind::Assign(..), .. }) | At::Term(Terminator { kind: TerminatorKind::Call { .. } | TerminatorKind::Return, .. })) {
        return;
      }
      let w = &w.0;
      // Before the next instruction, what is live?
      let here = &live[&loc];
      for p in places.iter() {
        if !here.contains(&p.local) && !p.is_arg(f.body) {
          continue;
        }
        let Ok(m) = it.resolve(f, *p) else { continue };
        if !w.owned(it, f, &m) {
          continue;
        }
        log.checked += 1;
        let al = info.aliases(*p);
        // What stands for itself only: an indirect place that is not one of the caller's.
        if al.len() > 1 || p.is_arg(f.body) {
          log.kinds.insert(format!("{p:?}"));
        }
        if !w.covered(it, f, al.iter(), &m) {
          log.fail = Some(format!("after {loc:?} {p:?} denotes memory that none of its aliases {{{}}} denotes", show(al)));
          return;
        }
      }
      for l in here {
        let p = Place::from_local(*l, it.tcx);
        let ty = f.body.local_decls[*l].ty;
        let ty = it.mono(ty, f.args);
        let mut out = vec![];
        reach(it, &Ptr::root(f.locals[l.as_usize()]), ty, true, 0, &mut out);
        for (m, mutable) in out {
          if !w.owned(it, f, &m) {
            continue;
          }
          log.checked += 1;
          let r = info.reachable_values(p, Mutability::Not);
          if !w.covered(it, f, r.iter(), &m) {
            log.fail = Some(format!("after {loc:?} memory can be reached from {p:?} that is not among its reachable values {{{}}}", show(r)));
            return;
          }
          let r = info.reachable_values(p, Mutability::Mut);
          if mutable && !w.covered(it, f, r.iter(), &m) {
            log.fail = Some(format!("after {loc:?} memory can be mutated through {p:?} that is not among its mutably reachable values {{{}}}", show(r)));
            return;
          }
        }
      }
      let _ = g2;
    });
    let input = cx.rng.next();
    let hooks = Hooks { probe: Some(probe), ..Default::default() };
    match execute(cx, input, hooks) {
      Ok(_) => st.count("runs", 1),
      Err(e) => st.count(&format!("run_{}", super::flow::short(&e)), 1),
    }
    if let Some(f) = &log.borrow().fail {
      return Err(format!("{}: {f}\n{}", cx.name, body.to_string(tcx).unwrap()));
    }
  }
  let log = log.borrow();
  st.evaluations += log.checked;
  if !log.kinds.is_empty() {
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, log.kinds.len())));
    st.sample(3, || json!({"function": t, "indirect_places": log.kinds}));
  }
  Ok(())
}

/// The mutations that the visitor reports at each location.
fn mutations<'tcx>(info: &PlaceInfo<'tcx, 'tcx>, body: &Body<'tcx>) -> HashMap<Location, Vec<Mutation<'tcx>>> {
  let mut out: HashMap<Location, Vec<Mutation<'tcx>>> = HashMap::new();
  for loc in body.all_locations() {
    let mut v = ModularMutationVisitor::new(info, |l, ms| out.entry(l).or_default().extend(ms));
    match at(body, loc) {
      At::Stmt(s) => v.visit_statement(s, loc),
      At::Term(t) => v.visit_terminator(t, loc),
    }
  }
  out
}

type Named = (Ptr, Vec<usize>);

fn c05_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  if excluded(cx) {
    st.count("fn_excluded", 1);
    return Ok(());
  }
  let body = &cx.facts.body;
  let tcx = cx.tcx;
  let info: Rc<PlaceInfo<'tcx, 'tcx>> = Rc::new(PlaceInfo::build(tcx, cx.def.to_def_id(), cx.facts));
  let muts = Rc::new(mutations(&info, body));
  let log = Rc::new(RefCell::new(Log::default()));
  for _ in 0..4 {
    let world = Rc::new(RefCell::new((World::new(cx), false, HashMap::<Location, usize>::new())));
    // Memory named by each mutation before the instruction.
    let before: Rc<RefCell<Vec<Vec<Named>>>> = Default::default();
    let ins: Rc<RefCell<Vec<Named>>> = Default::default();
    let owned: Rc<RefCell<Vec<usize>>> = Default::default();
    let (i2, l2, w2, m2, b2, n2, o2) = (info.clone(), log.clone(), world.clone(), muts.clone(), before.clone(), ins.clone(), owned.clone());
    let probe: Probe<'tcx> = Box::new(move |it, f, loc, after| {
      let mut w = w2.borrow_mut();
      let mut log = l2.borrow_mut();
      if !w.1 {
        w.1 = true;
        w.0.enter(it, f);
      }
      let tcx = it.tcx;
      let call = match at(f.body, loc) {
        At::Stmt(Statement { kind: StatementKind::Assign(a), .. }) if !matches!(a.1, Rvalue::Ref(_, BorrowKind::Fake(_), _)) => false,
        At::Term(Terminator { kind: TerminatorKind::Call { .. }, .. }) => true,
        _ => return,
      };
      let empty = vec![];
      let ms = m2.get(&loc).unwrap_or(&empty);
      let names = |p: Place<'tcx>, w: &World<'tcx>, it: &Interp<'tcx>| -> Vec<Named> {
        i2.aliases(p).iter().filter_map(|a| denotes(it, f, tcx, &w.entry, *a)).map(|q| { let mut v = vec![]; own_boxes(it, &q, &mut v); (q, v) }).collect()
      };
      if !after {
        it.hooks.writes.clear();
        it.hooks.reads.clear();
        *b2.borrow_mut() = ms.iter().map(|m| names(m.mutated, &w.0, it)).collect();
        *n2.borrow_mut() = ms.iter().flat_map(|m| m.inputs.iter()).flat_map(|p| names(*p, &w.0, it)).collect();
        *o2.borrow_mut() = w.0.roots.iter().filter_map(|r| denotes(it, f, tcx, &w.0.entry, *r)).map(|q| q.alloc).collect();
        return;
      }
      let n = w.2.entry(loc).or_default();
      *n += 1;
      if *n > 3 || log.fail.is_some() {
        return;
      }
      let w = &w.0;
      let named = b2.borrow();
      let named_after: Vec<Vec<Named>> = ms.iter().map(|m| names(m.mutated, w, it)).collect();
      for a in &it.hooks.writes {
        if !o2.borrow().contains(&a.ptr.alloc) {
          continue;
        }
        log.checked += 1;
        if !named.iter().chain(&named_after).flatten().any(|(q, bs)| q.overlaps(&a.ptr) || bs.contains(&a.ptr.alloc)) {
          let ms: Vec<String> = ms.iter().map(|m| format!("{:?}", m.mutated)).collect();
          log.fail = Some(format!("{loc:?} writes to {} but the mutations reported there are {{{}}}", name(it, f, w, &a.ptr), ms.join(" ")));
          return;
        }
        if call {
          log.kinds.insert(format!("{loc:?}"));
        }
      }
      for (_, p, m) in &it.hooks.reads {
        if !o2.borrow().contains(&m.alloc) {
          continue;
        }
        log.checked += 1;
        if !n2.borrow().iter().any(|(q, bs)| q.overlaps(m) || bs.contains(&m.alloc)) {
          let unit = call && ms.len() < 2;
          if !unit {
            let ins: Vec<String> = ms.iter().flat_map(|m| &m.inputs).map(|m| format!("{m:?}")).collect();
            log.fail = Some(format!("{loc:?} reads {} but the inputs reported there are {{{}}}", name(it, f, w, m), ins.join(" ")));
            return;
          }
        }
        let _ = p;
      }
      // A definite mutation happens on every execution, and overwrites all of the place.
      for m in ms {
        if matches!(m.status, MutationStatus::Definitely) && let Ok(q) = it.resolve(f, m.mutated) {
          log.checked += 1;
          if !it.hooks.writes.iter().any(|a| a.ptr.alloc == q.alloc && q.path.starts_with(&a.ptr.path)) {
            log.fail = Some(format!("{loc:?} is reported to mutate {:?} for sure, but this execution does not write it", m.mutated));
            return;
          }
        }
      }
    });
    let input = cx.rng.next();
    let hooks = Hooks { probe: Some(probe), record: true, ..Default::default() };
    match execute(cx, input, hooks) {
      Ok(_) => st.count("runs", 1),
      Err(e) => st.count(&format!("run_{}", super::flow::short(&e)), 1),
    }
    if let Some(f) = &log.borrow().fail {
      return Err(format!("{}: {f}\n{}", cx.name, body.to_string(tcx).unwrap()));
    }
  }
  let log = log.borrow();
  st.evaluations += log.checked;
  if !log.kinds.is_empty() {
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, log.kinds.len())));
    st.sample(3, || json!({"function": t, "effectful_calls": log.kinds}));
  }
  Ok(())
}

fn name<'tcx>(it: &Interp<'tcx>, f: &Frame<'tcx>, w: &World<'tcx>, m: &Ptr) -> String {
  let v: Vec<String> = w.roots.iter().filter(|r| denotes(it, f, w.tcx, &w.entry, **r).is_some_and(|q| q.alloc == m.alloc)).map(|r| format!("{r:?}")).collect();
  format!("{}{}", v.join("="), m.path.iter().map(|i| format!(".{i}")).collect::<String>())
}

fn c04(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, NO_OVERFLOW, st, c04_fn)
}
fn c05(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, NO_OVERFLOW, st, c05_fn)
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C04",
    level: "exploration",
    rule: "At every instruction of executions of generated functions, every dereference and everything reachable from live variables is compared with the reported aliases and reachable values. Non-trivial: a function in which some indirect place with aliases was resolved.",
    assumptions: &[],
    cfg: tune,
    run: c04,
    quick: (25, 400),
    thorough: (25, 800),
    corpus: true,
  }, Check {
    id: "C05",
    level: "exploration",
    rule: "Every write and read of executions of generated functions (including those of called functions) is compared with the mutations reported for the instruction. Non-trivial: a function in which a call wrote to memory of the caller.",
    assumptions: &[],
    cfg: tune,
    run: c05,
    quick: (25, 400),
    thorough: (25, 800),
    corpus: true,
  }]
}
