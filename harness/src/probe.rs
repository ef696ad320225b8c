use crate::session;
use rustc_utils::BodyExt;
use rustc_utils::PlaceExt;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_middle::mir::*;
pub fn main(){
  let f = std::env::args().nth(1).unwrap();
  let src = std::fs::read_to_string(f).unwrap();
  let t = std::time::Instant::now();
  let o = session::run(&src, &[], |tcx| {
    for (d, b) in session::bodies(tcx) {
      println!("== {}", session::fn_name(tcx, d));
      let Some(f) = session::facts(tcx, d) else { println!("skip"); continue };
      if std::env::var("MIR").is_ok() { println!("{}", f.body.to_string(tcx).unwrap()); }
      let r = flowistry::infoflow::compute_flow(tcx, b, f);
      let show = |d: rustc_utils::mir::location_or_arg::index::LocationOrArgSet| {
        let mut v: Vec<String> = d.iter().map(|l| match l { LocationOrArg::Location(l) => format!("{l:?}"), LocationOrArg::Arg(a) => format!("{a:?}")}).collect();
        v.sort(); v };
      if std::env::var("ROWS").is_ok() {
        for l in f.body.all_locations() {
          println!("{l:?} {:?}", crate::checks::util::at(&f.body, l));
          for local in f.body.local_decls.indices() {
            let p = Place::from_local(local, tcx);
            println!("   {p:?}: {:?}   reach {:?}", show(r.analysis.deps_for(r.state_at(l), p)), r.analysis.place_info.reachable_values(p, Mutability::Not));
            for p in [p, tcx.mk_place_deref(p)] { if p.local == local && (p.projection.len() == 0 || p.local.as_usize() > 0 && f.body.local_decls[local].ty.is_ref()) {
              println!("        {p:?} aliases {:?} row {:?}", r.analysis.place_info.aliases(p), show(r.state_at(l).row_set(&r.analysis.place_info.normalize(p)).clone()));
            }}
          }
        }
      }
      for l in f.body.all_returns() {
        println!("ret {l:?}: {:?}", show(r.analysis.deps_for(r.state_at(l), Place::return_place())));
      }
      if std::env::var("SPANS").is_ok() {
      let spanner = rustc_utils::source_map::spanner::Spanner::new(tcx, b, &f.body);
      for s in spanner.mir_span_tree.iter() {
        let sn = tcx.sess.source_map().span_to_snippet(s.span.span()).unwrap();
        for l in &s.locations {
          if let LocationOrArg::Location(l) = l {
          println!("{sn} place {:?} locs {:?} deps {:?}", s.place, s.locations, show(r.analysis.deps_for(r.state_at(*l), s.place)));
          }
        }
      }
      }
    }
  });
  println!("{:?} {:?} {:?} {:?}", o.diags, o.panicked, o.result, t.elapsed());
}
