//! Dependencies do not include what is unrelated.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use flowistry::infoflow::{Direction, FlowResults, compute_dependencies};
use rustc_middle::{mir::*, ty::{Ty, TyCtxt, TyKind}};
use rustc_hir::def_id::DefId;
use rustc_span::Span;
use rustc_utils::{BodyExt, PlaceExt, mir::location_or_arg::LocationOrArg};
use serde_json::json;

use super::util::*;
use crate::{r#gen::Cfg, run::*, tape::Rng};

fn tune(rng: &mut Rng) -> Cfg {
  let mut c = Cfg { early_return: false, private: false, ..Default::default() };
  if rng.below(5) < 2 {
    c.pure = true;
    c.refs = false;
    c.closures = false;
    c.generics = false;
    c.slices = false;
    c.boxes = false;
    c.stmts = 9;
    if rng.below(3) == 0 {
      c.calls = false;
      c.fn_ptrs = false;
    }
    return c;
  }
  tune_worlds(rng)
}

pub fn tune_worlds(rng: &mut Rng) -> Cfg {
  let mut c = Cfg { early_return: false, private: false, ..Default::default() };
  c.worlds = true;
  c.precise = true;
  c.boxes = false;
  c.generics = rng.below(2) == 0;
  c.apart = rng.below(3) == 0;
  c.private = rng.below(3) == 0;
  c.stmts = 12;
  c.closures = rng.below(2) == 0;
  c.fns = 3;
  c
}

/// Which of the two programs a source line belongs to.
pub fn owner(tcx: TyCtxt<'_>, span: Span) -> Option<char> {
  let sm = tcx.sess.source_map();
  let pos = sm.lookup_char_pos(span.source_callsite().lo());
  let line = pos.file.get_line(pos.line - 1)?.to_string();
  match (line.contains("/*A*/"), line.contains("/*B*/")) {
    (true, false) => Some('A'),
    (false, true) => Some('B'),
    _ => None,
  }
}

fn worlds<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats, own: &HashMap<LocationOrArg, char>, results: &FlowResults<'_, 'tcx>) -> Result<(), String> {
  let body = &cx.facts.body;
  let who = |l: &LocationOrArg| own.get(l).copied();
  let apart = !own.is_empty() && cx.name.is_empty();
  let _ = apart;
  let mut b_sources = 0;
  let mut a_deps = 0;
  let mut forward = vec![];
  for loc in body.all_locations() {
    let Some(w) = who(&LocationOrArg::Location(loc)) else { continue };
    let places: Vec<Place<'tcx>> = match at(body, loc) {
      At::Stmt(s) => match &s.kind {
        // (Borrows for the guards of a match are of whole variables.)
        StatementKind::Assign(b) if !matches!(b.1, Rvalue::Ref(_, BorrowKind::Fake(_), _)) => vec![b.0],
        _ => continue,
      },
      At::Term(t) => match &t.kind {
        TerminatorKind::Call { destination, args, .. } => args.iter().filter_map(|a| a.node.place()).chain([*destination]).collect(),
        TerminatorKind::SwitchInt { discr, .. } => discr.place().into_iter().collect(),
        _ => continue,
      },
    };
    if w == 'B' {
      b_sources += 1;
      for p in places {
        forward.push((p, LocationOrArg::Location(loc)));
      }
      continue;
    }
    for p in places {
      st.evaluations += 1;
      let deps = results.analysis.deps_for(results.state_at(loc), p);
      a_deps += deps.iter().count();
      if let Some(bad) = deps.iter().find(|d| who(d) == Some('B')) {
        return Err(format!(
          "{}: {p:?} at {loc:?} belongs to code that never reads what line B computes, but depends on {bad:?} (B); dependencies {{{}}}\n{}",
          cx.name, show_deps(&deps), body.to_string(cx.tcx).unwrap()
        ));
      }
    }
  }
  for a in body.args_iter() {
    if who(&LocationOrArg::Arg(a)) == Some('B') {
      forward.push((Place::from_local(a, cx.tcx), LocationOrArg::Arg(a)));
    }
  }
  cx.rng.below(2);
  for (i, t) in forward.iter().enumerate() {
    if forward.len() > 12 && i % (forward.len() / 8) != 0 {
      continue;
    }
    // What an argument of a call leads to includes everything behind it.
    st.evaluations += 1;
    let deps = compute_dependencies(results, vec![vec![*t]], Direction::Forward).pop().unwrap();
    if let Some(bad) = deps.iter().find(|d| who(d) == Some('A')) {
      return Err(format!(
        "{}: the forward dependencies of {:?} at {:?} (B) contain {bad:?} (A), which never reads anything of B; {{{}}}\n{}",
        cx.name, t.0, t.1, show_deps(&deps), body.to_string(cx.tcx).unwrap()
      ));
    }
  }
  if b_sources > 2 && a_deps > 4 {
    st.count("two_programs", 1);
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, 1)));
    st.sample(2, || json!({"two_programs": t}));
  }
  Ok(())
}

// ---- a textbook model for programs without pointers ----

/// Also without private parts of other modules, which only the value as a whole stands for.
fn pointer_free<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, from: DefId, d: usize) -> bool {
  if d > 6 {
    return false;
  }
  match ty.kind() {
    TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Never | TyKind::FnPtr(..) | TyKind::FnDef(..) => true,
    TyKind::Tuple(ts) => ts.iter().all(|t| pointer_free(tcx, t, from, d + 1)),
    TyKind::Array(t, _) => pointer_free(tcx, *t, from, d + 1),
    TyKind::Adt(a, args) => !a.is_box() && a.all_fields().all(|f| f.vis.is_accessible_from(from, tcx) && pointer_free(tcx, f.ty(tcx, args), from, d + 1)),
    _ => false,
  }
}

/// A path within a local. Variants and elements are not distinguished.
type Path = (Local, Vec<u32>);
fn path(p: Place<'_>) -> (Path, bool) {
  let mut v = vec![];
  let mut element = false;
  for e in p.projection {
    match e {
      PlaceElem::Field(f, _) => v.push(f.as_u32()),
      PlaceElem::Downcast(_, i) => v.push(2000 + i.as_u32()),
      PlaceElem::Index(_) | PlaceElem::ConstantIndex { .. } | PlaceElem::Subslice { .. } => {
        v.push(1000);
        element = true;
      }
      _ => {}
    }
  }
  ((p.local, v), element)
}
fn overlap(a: &Path, b: &Path) -> bool {
  a.0 == b.0 && a.1.iter().zip(&b.1).all(|(x, y)| x == y)
}

type Deps = BTreeSet<LocationOrArg2>;
type LocationOrArg2 = (u8, usize, usize);
fn key(l: LocationOrArg) -> LocationOrArg2 {
  match l {
    LocationOrArg::Arg(a) => (0, a.as_usize(), 0),
    LocationOrArg::Location(l) => (1, l.block.as_usize(), l.statement_index),
  }
}
type State = BTreeMap<Path, Deps>;

fn read(s: &State, p: &Path) -> Deps {
  s.iter().filter(|(q, _)| overlap(p, q)).flat_map(|(_, d)| d.iter().copied()).collect()
}

fn operand_places<'tcx>(rv: &Rvalue<'tcx>) -> Vec<Place<'tcx>> {
  use rustc_middle::mir::visit::{PlaceContext, Visitor};
  struct V<'tcx>(Vec<Place<'tcx>>);
  impl<'tcx> Visitor<'tcx> for V<'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, _: PlaceContext, _: Location) {
      self.0.push(*p);
      self.0.extend(index_places(*p));
    }
  }
  let mut v = V(vec![]);
  v.visit_rvalue(rv, Location::START);
  v.0
}
fn index_places<'tcx>(p: Place<'tcx>) -> Vec<Place<'tcx>> {
  p.projection.iter().filter_map(|e| match e {
    PlaceElem::Index(l) => Some(Place::from(l)),
    _ => None,
  }).collect()
}

/// Blocks whose execution is decided by the terminator of a block (transitively), by brute force.
fn controllers(body: &Body<'_>) -> Vec<Vec<BasicBlock>> {
  let n = body.basic_blocks.len();
  let succ: Vec<Vec<usize>> = body.basic_blocks.iter().map(|b| b.terminator().successors().map(|s| s.as_usize()).collect()).collect();
  let rets: Vec<bool> = body.basic_blocks.iter().map(|b| matches!(b.terminator().kind, TerminatorKind::Return)).collect();
  let reaches = |from: usize, without: usize| -> bool {
    if from == without {
      return false;
    }
    let mut seen = vec![false; n];
    let mut w = vec![from];
    while let Some(x) = w.pop() {
      if x == without || std::mem::replace(&mut seen[x], true) {
        continue;
      }
      if rets[x] {
        return true;
      }
      w.extend(&succ[x]);
    }
    false
  };
  let live: Vec<bool> = (0..n).map(|b| reaches(b, usize::MAX)).collect();
  let pdom = |b: usize, x: usize| live[x] && !reaches(x, b);
  let mut direct = vec![vec![false; n]; n];
  for s in 0..n {
    for b in 0..n {
      direct[b][s] = live[b] && succ[s].iter().any(|t| pdom(b, *t)) && !(s != b && pdom(b, s)) && succ[s].iter().filter(|t| live[**t]).count() > 1;
    }
  }
  (0..n).map(|b| {
    let mut seen = vec![false; n];
    let mut w = vec![b];
    while let Some(x) = w.pop() {
      for s in 0..n {
        if direct[x][s] && !std::mem::replace(&mut seen[s], true) {
          w.push(s);
        }
      }
    }
    (0..n).filter(|s| seen[*s]).map(BasicBlock::from_usize).collect()
  }).collect()
}

/// The parts of a type that are tracked separately.
fn leaves<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, prefix: &[u32], out: &mut Vec<Vec<u32>>) {
  let with = |x: &[u32]| -> Vec<u32> { prefix.iter().chain(x).copied().collect() };
  let n = out.len();
  match ty.kind() {
    TyKind::Tuple(ts) => {
      for (i, t) in ts.iter().enumerate() {
        leaves(tcx, t, &with(&[i as u32]), out);
      }
    }
    TyKind::Array(t, _) => leaves(tcx, *t, &with(&[1000]), out),
    TyKind::Adt(a, args) if a.is_struct() => {
      for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
        leaves(tcx, f.ty(tcx, args), &with(&[i as u32]), out);
      }
    }
    TyKind::Adt(a, args) if a.is_enum() => {
      out.push(with(&[3000]));
      for (vi, v) in a.variants().iter_enumerated() {
        for (i, f) in v.fields.iter().enumerate() {
          leaves(tcx, f.ty(tcx, args), &with(&[2000 + vi.as_u32(), i as u32]), out);
        }
      }
    }
    _ => {}
  }
  if out.len() == n {
    out.push(prefix.to_vec());
  }
}

/// Is `k` in a variant of `dst` other than the one it is set to?
fn other_variant(dst: Place<'_>, k: &Path, variant: Option<u32>) -> bool {
  let n = path(dst).0.1.len();
  variant.is_some_and(|v| k.1.get(n).is_some_and(|x| *x >= 2000 && *x < 3000 && *x != 2000 + v))
}

/// `exact`: what any analysis has to report (every part of a variable tracked on its own, writes replace).
/// Otherwise: what it may report at most (a write to a part does not replace what a larger write brought).
fn model<'tcx>(cx: &FnCtx<'_, 'tcx>, exact: bool) -> HashMap<Location, State> {
  let body = &cx.facts.body;
  let parts = |p: Place<'tcx>| -> Vec<Path> {
    let (k, _) = path(p);
    if !exact {
      return vec![k];
    }
    let mut v = vec![];
    leaves(cx.tcx, p.ty(&body.local_decls, cx.tcx).ty, &k.1, &mut v);
    v.into_iter().map(|x| (k.0, x)).collect()
  };
  let ctl = controllers(body);
  let mut branch: HashMap<BasicBlock, Deps> = HashMap::new();
  let mut start = State::new();
  for a in body.args_iter() {
    for k in parts(Place::from(a)) {
      start.insert(k, [key(LocationOrArg::Arg(a))].into());
    }
  }
  let mut entry: Vec<Option<State>> = vec![None; body.basic_blocks.len()];
  entry[0] = Some(start);
  let mut work = vec![0usize];
  let mut out = HashMap::new();
  while let Some(b) = work.pop() {
    let bb = BasicBlock::from_usize(b);
    let mut s = entry[b].clone().unwrap();
    let data = &body.basic_blocks[bb];
    for i in 0..=data.statements.len() {
      let loc = Location { block: bb, statement_index: i };
      let write: Option<(Place<'tcx>, Vec<Place<'tcx>>)> = match at(body, loc) {
        At::Stmt(st) => match &st.kind {
          StatementKind::Assign(x) => Some((x.0, operand_places(&x.1).into_iter().chain(index_places(x.0)).collect())),
          _ => None,
        },
        At::Term(t) => match &t.kind {
          TerminatorKind::Call { func, args, destination, .. } => {
            let mut ins: Vec<Place<'tcx>> = args.iter().filter_map(|a| a.node.place()).chain(func.place()).collect();
            let idx: Vec<_> = ins.iter().flat_map(|p| index_places(*p)).collect();
            ins.extend(idx);
            ins.extend(index_places(*destination));
            Some((*destination, ins))
          }
          _ => None,
        },
      };
      let variant = match at(body, loc) {
        At::Stmt(Statement { kind: StatementKind::Assign(x), .. }) => match &x.1 {
          Rvalue::Aggregate(k, _) => match **k {
            AggregateKind::Adt(d, v, ..) if cx.tcx.adt_def(d).is_enum() => Some(v.as_u32()),
            _ => None,
          },
          _ => None,
        },
        _ => None,
      };
      if let Some((dst, ins)) = write {
        let mut d: Deps = [key(LocationOrArg::Location(loc))].into();
        let mut inputs = Deps::new();
        for p in ins {
          inputs.extend(read(&s, &path(p).0));
        }
        for c in &ctl[b] {
          d.insert(key(LocationOrArg::Location(body.terminator_loc(*c))));
          d.extend(branch.get(c).into_iter().flatten().copied());
          if !exact
            && let TerminatorKind::SwitchInt { discr, .. } = &body.basic_blocks[*c].terminator().kind
            && let Some(p) = discr.place()
          {
            for q in [p].into_iter().chain(index_places(p)) {
              d.extend(read(&s, &path(q).0));
            }
          }
        }
        let base = d.clone();
        d.extend(inputs);
        let (p, element) = path(dst);
        if exact {
          let before = s.clone();
          let whole = d;
          for k in parts(dst) {
            // Copies and constructors move values part by part.
            let mut d = whole.clone();
            if let At::Stmt(Statement { kind: StatementKind::Assign(x), .. }) = at(body, loc) {
              let rest = &k.1[p.1.len()..];
              let part: Option<Vec<Path>> = match &x.1 {
                Rvalue::Use(op) => op.place().map(|q| {
                  let mut q = path(q).0;
                  q.1.extend(rest);
                  vec![q]
                }),
                Rvalue::Aggregate(_, ops) => {
                  let i = rest.iter().find(|i| **i < 1000 || **i >= 3000).copied();
                  match i {
                    Some(i) if (i as usize) < ops.len() => {
                      let skip = rest.iter().position(|x| *x == i).unwrap() + 1;
                      Some(ops.iter().nth(i as usize).unwrap().place().into_iter().map(|q| {
                        let mut q = path(q).0;
                        q.1.extend(&rest[skip..]);
                        q
                      }).collect())
                    }
                    Some(_) => Some(vec![]),
                    None => None,
                  }
                }
                _ => None,
              };
              if let Some(ps) = part {
                d = base.clone();
                for q in ps {
                  d.extend(read(&before, &q));
                }
              }
            }
            if other_variant(dst, &k, variant) {
              s.remove(&k);
            } else if element {
              s.entry(k).or_default().extend(d.iter().copied());
            } else {
              s.insert(k, d.clone());
            }
          }
        } else {
          let before = s.clone();
          if !element {
            s.retain(|q, _| !(q.0 == p.0 && q.1.len() >= p.1.len() && overlap(q, &p)));
          }
          // A variable that was moved into a call has no value any more; it may as well depend on the call.
          if let At::Term(Terminator { kind: TerminatorKind::Call { args, .. }, .. }) = at(body, loc) {
            for a in args.iter().filter_map(|a| a.node.place()) {
              s.entry(path(a).0).or_default().extend(d.iter().copied());
            }
          }
          // Constructors and copies of structs move values part by part.
          let mut writes: Vec<(Path, Deps)> = vec![];
          let before_reads = |q: Place<'tcx>| -> Deps {
            [q].into_iter().chain(index_places(q)).chain(index_places(dst)).flat_map(|q| read(&before, &path(q).0)).collect()
          };
          if let At::Stmt(Statement { kind: StatementKind::Assign(x), .. }) = at(body, loc) {
            match &x.1 {
              Rvalue::Aggregate(kind, ops) if matches!(**kind, AggregateKind::Tuple | AggregateKind::Adt(..)) => {
                for (i, op) in ops.iter().enumerate() {
                  let mut k = p.clone();
                  k.1.extend(variant.map(|v| 2000 + v));
                  k.1.push(i as u32);
                  let mut d = base.clone();
                  d.extend(index_places(dst).iter().flat_map(|q| read(&before, &path(*q).0)));
                  d.extend(op.place().map(before_reads).unwrap_or_default());
                  writes.push((k, d));
                }
              }
              Rvalue::Use(op) => {
                if let Some(q) = op.place()
                  && let TyKind::Adt(a, args) = q.ty(&body.local_decls, cx.tcx).ty.kind()
                  && a.is_struct()
                {
                  for (i, f) in a.non_enum_variant().fields.iter_enumerated() {
                    let part = q.project_deeper(&[PlaceElem::Field(i, f.ty(cx.tcx, args))], cx.tcx);
                    let mut k = p.clone();
                    k.1.push(i.as_u32());
                    let mut d = base.clone();
                    d.extend(before_reads(part));
                    writes.push((k, d));
                  }
                }
              }
              _ => {}
            }
          }
          if writes.is_empty() {
            writes.push((p, d));
          }
          for (p, mut d) in writes {
            d.extend(read(&s, &p));
            s.entry(p).or_default().extend(d);
          }
        }
      }
      if i == data.statements.len()
        && let TerminatorKind::SwitchInt { discr, .. } = &data.terminator().kind
        && let Some(p) = discr.place()
      {
        let mut d = Deps::new();
        for q in [p].into_iter().chain(index_places(p)) {
          d.extend(read(&s, &path(q).0));
        }
        let r = branch.entry(bb).or_default();
        let n = r.len();
        r.extend(d);
        if r.len() != n {
          work.extend((0..ctl.len()).filter(|x| ctl[*x].contains(&bb) && entry[*x].is_some()));
        }
      }
      out.insert(loc, s.clone());
    }
    for t in data.terminator().successors() {
      let t = t.as_usize();
      let changed = match &mut entry[t] {
        None => {
          entry[t] = Some(s.clone());
          true
        }
        Some(e) => {
          let mut ch = false;
          for (p, d) in &s {
            let r = e.entry(p.clone()).or_default();
            let n = r.len();
            r.extend(d.iter().copied());
            ch |= r.len() != n;
          }
          ch
        }
      };
      if changed {
        work.push(t);
      }
    }
  }
  out
}

fn textbook<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats, results: &FlowResults<'_, 'tcx>) -> Result<(), String> {
  let body = &cx.facts.body;
  let upper = model(cx, false);
  let lower = model(cx, true);
  let mut places = vec![];
  for l in body.local_decls.indices() {
    let mut v = vec![];
    expand(cx.tcx, body, cx.def.to_def_id(), Place::from_local(l, cx.tcx), 2, false, &mut v);
    places.extend(v);
  }
  let mut n = 0;
  for loc in body.all_locations() {
    if !matches!(at(body, loc), At::Stmt(Statement { kind: StatementKind::Assign(..), .. }) | At::Term(_)) {
      continue;
    }
    let (Some(u), Some(l)) = (upper.get(&loc), lower.get(&loc)) else { continue };
    for p in &places {
      st.evaluations += 1;
      let k = path(*p).0;
      let up = read(u, &k);
      let low = read(l, &k);
      let deps = results.analysis.deps_for(results.state_at(loc), *p);
      let got: Deps = deps.iter().map(|d| key(*d)).collect();
      n += got.len();
      if let Some(x) = got.iter().find(|x| !up.contains(x)) {
        return Err(format!("{}: {p:?} at {loc:?} depends on {x:?}, which nothing in the function explains; dependencies {{{}}}\n{}", cx.name, show_deps(&deps), body.to_string(cx.tcx).unwrap()));
      }
      if let Some(x) = low.iter().find(|x| !got.contains(x)) {
        return Err(format!("{}: {p:?} at {loc:?} must depend on {x:?}; dependencies {{{}}}\n{}", cx.name, show_deps(&deps), body.to_string(cx.tcx).unwrap()));
      }
    }
  }
  if n > 20 {
    st.count("pointer_free", 1);
    let t = find_fn_text(cx.src, cx.unit, &cx.name);
    st.nontrivial.insert(hash((&t, 2)));
    st.sample(3, || json!({"pointer_free": t}));
  }
  Ok(())
}

fn c03_fn<'tcx>(cx: &mut FnCtx<'_, 'tcx>, st: &mut Stats) -> Result<(), String> {
  let body = &cx.facts.body;
  if body.all_returns().count() != 1 {
    return Ok(());
  }
  let mut own = HashMap::new();
  for loc in body.all_locations() {
    if let Some(w) = owner(cx.tcx, body.source_info(loc).span) {
      own.insert(LocationOrArg::Location(loc), w);
    }
  }
  for a in body.args_iter() {
    if let Some(w) = owner(cx.tcx, body.local_decls[a].source_info.span) {
      own.insert(LocationOrArg::Arg(a), w);
    }
  }
  if own.values().any(|w| *w == 'B') && !cx.tcx.is_closure_like(cx.def.to_def_id()) {
    let results = flow(cx);
    worlds(cx, st, &own, &results)
  } else if body.local_decls.iter().all(|d| pointer_free(cx.tcx, d.ty, cx.def.to_def_id(), 0)) && body.basic_blocks.len() < 50 {
    let results = flow(cx);
    textbook(cx, st, &results)
  } else {
    Ok(())
  }
}
fn c03(b: &Batch, st: &mut Stats) -> Vec<Failure> {
  over_functions(b, NO_OVERFLOW, st, c03_fn)
}

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C03",
    level: "exploration",
    rule: "Functions made of two interleaved programs of which one never reads the other (non-trivial: both assign something), and pointer-free functions compared with a textbook dependence model (non-trivial: more than 20 dependencies compared).",
    assumptions: &[],
    cfg: tune,
    run: c03,
    quick: (25, 240),
    thorough: (25, 600),
    corpus: false,
  }]
}
