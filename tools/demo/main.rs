//! Slices the functions of prog.rs and compares with the marks on its lines:
//! `/*in*/` has to be in the slice, `/*out*/` must not be.
//! Directives (comment lines in front of a function): `//@ fn NAME [forward] [recurse] [ignoremut] [conservative]`.
//! Backward slices start at the return value, forward slices at what the line marked `/*src*/` assigns.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_borrowck; extern crate rustc_data_structures; extern crate rustc_driver; extern crate rustc_errors;
extern crate rustc_hir; extern crate rustc_index; extern crate rustc_interface; extern crate rustc_middle;
extern crate rustc_session; extern crate rustc_span;
mod session;
use flowistry::extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode};
use flowistry::infoflow::{Direction, compute_dependencies, compute_flow};
use rustc_middle::mir::*;
use rustc_utils::{BodyExt, mir::location_or_arg::LocationOrArg};
use std::collections::BTreeSet;

fn main() {
  let src = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
  let lines: Vec<&str> = src.lines().collect();
  let ok = session::run(&src, &[], |tcx| {
    let mut ok = true;
    for (n, l) in lines.iter().enumerate() {
      let Some(d) = l.strip_prefix("//@ fn ") else { continue };
      let words: Vec<&str> = d.split_whitespace().collect();
      let (def, body_id) = *session::bodies(tcx).iter().find(|(d, _)| session::fn_name(tcx, *d) == words[0]).expect("no such function");
      let facts = session::facts(tcx, def).expect("does not compile");
      let body = &facts.body;
      let has = |w: &str| words.contains(&w);
      let mode = EvalMode {
        context_mode: if has("recurse") { ContextMode::Recurse } else { ContextMode::SigOnly },
        mutability_mode: if has("ignoremut") { MutabilityMode::IgnoreMut } else { MutabilityMode::DistinguishMut },
        pointer_mode: if has("conservative") { PointerMode::Conservative } else { PointerMode::Precise },
      };
      fluid_let::fluid_set!(EVAL_MODE, mode);
      let flow = compute_flow(tcx, body_id, facts);
      let sm = tcx.sess.source_map();
      let line = |l: LocationOrArg| {
        let span = match l {
          LocationOrArg::Location(l) => body.source_info(l).span,
          LocationOrArg::Arg(a) => body.local_decls[a].source_info.span,
        };
        sm.lookup_char_pos(span.source_callsite().lo()).line - 1
      };
      let end = (n + 1..lines.len()).find(|i| lines[*i] == "}").unwrap();
      let mut targets = vec![];
      let dir = if has("forward") {
        for loc in body.all_locations() {
          if !lines[line(LocationOrArg::Location(loc))].contains("/*src*/") || line(LocationOrArg::Location(loc)) < n || line(LocationOrArg::Location(loc)) > end {
            continue;
          }
          let p = if let Some(s) = body.basic_blocks[loc.block].statements.get(loc.statement_index) {
            if let StatementKind::Assign(a) = &s.kind { Some(a.0) } else { None }
          } else if let TerminatorKind::Call { destination, .. } = &body.basic_blocks[loc.block].terminator().kind {
            Some(*destination)
          } else { None };
          targets.extend(p.map(|p| (p, LocationOrArg::Location(loc))));
        }
        for a in body.args_iter() {
          if lines[line(LocationOrArg::Arg(a))].contains("/*src*/") {
            targets.push((Place::from(a), LocationOrArg::Arg(a)));
          }
        }
        Direction::Forward
      } else {
        for loc in body.all_returns() {
          targets.push((Place::return_place(), LocationOrArg::Location(loc)));
        }
        Direction::Backward
      };
      let deps = compute_dependencies(&flow, vec![targets], dir).pop().unwrap();
      let got: BTreeSet<usize> = deps.iter().map(|d| line(*d)).collect();
      for i in n..=end {
        if lines[i].contains("/*in*/") && !got.contains(&i) {
          println!("{}: line {} is missing: {}", words[0], i + 1, lines[i]);
          ok = false;
        }
        if lines[i].contains("/*out*/") && got.contains(&i) {
          println!("{}: line {} does not belong: {}", words[0], i + 1, lines[i]);
          ok = false;
        }
      }
      println!("{}: {:?}", words[0], got.iter().map(|i| i + 1).collect::<Vec<_>>());
    }
    ok
  });
  if !ok.diags.is_empty() {
    println!("{:?}", ok.diags);
  }
  std::process::exit(if ok.result == Some(true) { 0 } else { 1 });
}
