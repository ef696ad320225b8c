use std::collections::{HashMap, HashSet};

use flowistry::infoflow::{FlowResults, compute_flow};
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_middle::{mir::*, ty::{Ty, TyCtxt, TyKind}};
use rustc_utils::{BodyExt, PlaceExt, mir::location_or_arg::{LocationOrArg, index::LocationOrArgSet}};

use crate::run::FnCtx;

pub fn show_deps(d: &LocationOrArgSet) -> String {
  let mut v: Vec<String> = d.iter().map(|l| match l {
    LocationOrArg::Location(l) => format!("{l:?}"),
    LocationOrArg::Arg(a) => format!("{a:?}"),
  }).collect();
  v.sort();
  v.join(" ")
}

pub fn deps_vec(d: &LocationOrArgSet) -> HashSet<LocationOrArg> {
  d.iter().copied().collect()
}

/// Places below `place` (fields, payloads, dereferences) up to a depth.
pub fn expand<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, def: rustc_hir::def_id::DefId, place: Place<'tcx>, depth: usize, derefs: bool, out: &mut Vec<Place<'tcx>>) {
  out.push(place);
  if depth == 0 || out.len() > 400 {
    return;
  }
  let ty: Ty<'tcx> = place.ty(&body.local_decls, tcx).ty;
  let mut go = |elems: &[PlaceElem<'tcx>]| {
    expand(tcx, body, def, place.project_deeper(elems, tcx), depth - 1, derefs, out);
  };
  match ty.kind() {
    TyKind::Tuple(ts) => {
      for (i, t) in ts.iter().enumerate() {
        go(&[PlaceElem::Field(FieldIdx::from_usize(i), t)]);
      }
    }
    _ if ty.is_box() => {
      if derefs {
        go(&[PlaceElem::Deref]);
      }
    }
    TyKind::Ref(..) => {
      if derefs {
        go(&[PlaceElem::Deref]);
      }
    }
    TyKind::Adt(adt, args) if adt.is_struct() => {
      for (i, f) in adt.non_enum_variant().fields.iter_enumerated() {
        if f.vis.is_accessible_from(def, tcx) {
          go(&[PlaceElem::Field(i, f.ty(tcx, args))]);
        }
      }
    }
    TyKind::Adt(adt, args) if adt.is_enum() => {
      for (vi, v) in adt.variants().iter_enumerated() {
        for (i, f) in v.fields.iter_enumerated() {
          go(&[PlaceElem::Downcast(Some(v.name), vi), PlaceElem::Field(i, f.ty(tcx, args))]);
        }
      }
    }
    TyKind::Closure(_, args) => {
      for (i, t) in args.as_closure().upvar_tys().iter().enumerate() {
        go(&[PlaceElem::Field(FieldIdx::from_usize(i), t)]);
      }
    }
    _ => {}
  }
}

/// Locations that can reach themselves.
pub fn cyclic(body: &Body<'_>) -> HashSet<BasicBlock> {
  let n = body.basic_blocks.len();
  let mut out = HashSet::new();
  for b in body.basic_blocks.indices() {
    let mut seen = vec![false; n];
    let mut work: Vec<BasicBlock> = body.basic_blocks[b].terminator().successors().collect();
    while let Some(x) = work.pop() {
      if x == b {
        out.insert(b);
        break;
      }
      if !std::mem::replace(&mut seen[x.as_usize()], true) {
        work.extend(body.basic_blocks[x].terminator().successors());
      }
    }
  }
  out
}

pub fn flow<'tcx>(cx: &FnCtx<'_, 'tcx>) -> FlowResults<'tcx, 'tcx> {
  compute_flow(cx.tcx, cx.body_id, cx.facts)
}

pub fn body_size(body: &Body<'_>) -> usize {
  body.basic_blocks.iter().map(|b| b.statements.len() + 1).sum()
}

pub fn find_fn_text<'a>(src: &'a str, unit: usize, name: &str) -> String {
  // Best effort: the text of the function, for samples.
  let m = format!("pub mod u{unit} {{");
  let Some(i) = src.find(&m) else { return String::new() };
  let rest = &src[i..];
  let end = rest.find("\n}\n").map(|e| e + 2).unwrap_or(rest.len());
  let rest = &rest[..end];
  let last = name.split("::").next().unwrap_or(name);
  let Some(k) = rest.find(&format!("fn {last}<")).or_else(|| rest.find(&format!("fn {last}("))) else { return String::new() };
  let f = &rest[k..];
  let e = f.find("\n  }\n").map(|e| e + 4).unwrap_or(f.len());
  f[..e].to_string()
}

#[derive(Debug)]
pub enum At<'a, 'tcx> {
  Stmt(&'a Statement<'tcx>),
  Term(&'a Terminator<'tcx>),
}
pub fn at<'a, 'tcx>(body: &'a Body<'tcx>, l: Location) -> At<'a, 'tcx> {
  let d = &body.basic_blocks[l.block];
  match d.statements.get(l.statement_index) {
    Some(s) => At::Stmt(s),
    None => At::Term(d.terminator()),
  }
}
