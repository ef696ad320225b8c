#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi; extern crate rustc_borrowck; extern crate rustc_data_structures; extern crate rustc_driver; extern crate rustc_errors;
extern crate rustc_hir; extern crate rustc_index; extern crate rustc_interface; extern crate rustc_middle; extern crate rustc_mir_dataflow;
extern crate rustc_session; extern crate rustc_span; extern crate rustc_target; extern crate rustc_const_eval; extern crate rustc_type_ir; extern crate rustc_ast;
mod session;
mod interp;
mod probe;
mod tape;
mod run;
mod checks;
mod r#gen;
mod features;
fn main(){
  if std::env::args().nth(1).as_deref() == Some("gen") {
    let a: Vec<u64> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
    let mut ok = 0; let mut tot = 0; let mut errs = std::collections::BTreeMap::<String, usize>::new();
    for b in 0..a[1] {
      let mut units = vec![];
      for i in 0..30u64 {
        let mut t = tape::Tape::random(a[0] * 1000003 + b * 30 + i, 4000);
        let cfg = r#gen::Cfg { own: std::env::var("FEATURES").is_ok().then_some(features::unit), ..Default::default() };
        units.push(r#gen::unit(&mut t, &cfg));
      }
      let src = run::Batch { units, seed: 0 }.source();
      if a[1] == 1 { std::fs::write("/tmp/w/gen.rs", &src).unwrap(); }
      let t = std::time::Instant::now();
      let o = session::run(&src, &["-Coverflow-checks=off"], |tcx| {
        let mut ok = 0; let mut tot = 0; let mut locs=0;
        for (d, b) in session::bodies(tcx) { tot += 1; if let Some(f) = session::facts(tcx, d) { ok += 1; for bb in f.body.basic_blocks.iter() { locs += bb.statements.len() + 1; } } }
        (ok, tot, locs)
      });
      for d in &o.diags { let m = d.splitn(2, "no-original").next().unwrap().splitn(5, ':').last().unwrap_or("").chars().map(|c| if c.is_ascii_digit() {'#'} else {c}).collect::<String>(); *errs.entry(m).or_default() += 1; }
      if a[1] == 1 { for d in &o.diags { println!("{d}"); } }
      println!("{:?} {:?} {:?}", o.result, o.panicked, t.elapsed());
      if let Some((x, y, _)) = o.result { ok += x; tot += y; }
    }
    println!("{ok}/{tot}");
    let mut e: Vec<_> = errs.into_iter().collect(); e.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (m, n) in e.iter().take(25) { println!("{n} {m}"); }
    return;
  }
  let a: Vec<String> = std::env::args().collect();
  if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
  match a.get(1).map(|s| s.as_str()) {
    Some(cmd @ ("check" | "run")) => {
      let tier = a.iter().position(|x| x == "--tier").map(|i| a[i + 1].clone()).unwrap_or("quick".into());
      let c = checks::all().into_iter().find(|c| c.id == a[2]).expect("unknown check");
      std::process::exit(if cmd == "check" { run::supervise(&c, &tier) } else { run::run_check(&c, &tier) });
    }
    Some("replay") => {
      let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
      let c = checks::all().into_iter().find(|c| Some(c.id) == v["property"].as_str()).expect("unknown check");
      std::process::exit(run::replay(&c, &v));
    }
    _ => probe::main(),
  }
}
