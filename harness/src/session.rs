//! In-process rustc sessions running the code under test on a source string.
use std::{io, panic, path::Path, process::Command, sync::{Arc, LazyLock, Mutex}};

use rustc_errors::{DiagInner, emitter::Emitter, registry::Registry, translation::Translator};
use rustc_hir::{BodyId, def_id::LocalDefId};
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::{FileLoader, SourceMap};
use rustc_utils::mir::borrowck_facts;

struct StringLoader(String);
impl FileLoader for StringLoader {
  fn file_exists(&self, _: &Path) -> bool {
    true
  }
  fn read_file(&self, _: &Path) -> io::Result<String> {
    Ok(self.0.clone())
  }
  fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
    Ok(std::fs::read(path)?.into())
  }
}

pub static SYSROOT: LazyLock<String> = LazyLock::new(|| {
  let out = Command::new("rustc").args(["--print", "sysroot"]).output().unwrap().stdout;
  String::from_utf8(out).unwrap().trim().to_owned()
});

type Diags = Arc<Mutex<Vec<String>>>;

struct Collect {
  translator: Translator,
  sm: Arc<SourceMap>,
  diags: Diags,
}
impl Emitter for Collect {
  fn source_map(&self) -> Option<&SourceMap> {
    None
  }
  fn emit_diagnostic(&mut self, diag: DiagInner, _: &Registry) {
    if !diag.is_error() {
      return;
    }
    let args = rustc_errors::translation::to_fluent_args(diag.args.iter());
    let msg = self.translator.translate_messages(&diag.messages, &args).to_string();
    let loc = diag.span.primary_span().map(|s| self.sm.span_to_diagnostic_string(s)).unwrap_or_default();
    self.diags.lock().unwrap().push(format!("{loc}: {msg}"));
  }
  fn translator(&self) -> &Translator {
    &self.translator
  }
}

struct Cb<F> {
  /// The source, or None to read it from the file.
  input: Option<String>,
  f: Option<F>,
  diags: Diags,
}
impl<F: FnOnce(TyCtxt<'_>)> rustc_driver::Callbacks for Cb<F> {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    config.override_queries = Some(borrowck_facts::override_queries);
    if let Some(i) = &self.input {
      config.file_loader = Some(Box::new(StringLoader(i.clone())));
    }
    let diags = self.diags.clone();
    config.psess_created = Some(Box::new(move |psess| {
      let em = Collect { translator: rustc_driver::default_translator(), sm: psess.clone_source_map(), diags };
      psess.dcx().set_emitter(Box::new(em));
    }));
  }
  fn after_expansion<'tcx>(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> rustc_driver::Compilation {
    (self.f.take().unwrap())(tcx);
    rustc_driver::Compilation::Stop
  }
}

pub struct Outcome<R> {
  /// None when the front end rejected the program or something panicked.
  pub result: Option<R>,
  pub diags: Vec<String>,
  pub panicked: Option<String>,
}

pub fn panic_message(e: &(dyn std::any::Any + Send)) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".into()
  }
}

/// Runs `f` on the crate `src`. `f` runs on rustc's own thread.
pub fn run<R: Send>(src: &str, args: &[&str], f: impl for<'tcx> FnOnce(TyCtxt<'tcx>) -> R + Send) -> Outcome<R> {
  run_on("dummy.rs", Some(src.to_string()), args, f)
}

/// Runs `f` on the crate whose root is the file `path`.
pub fn run_file<R: Send>(path: &Path, args: &[&str], f: impl for<'tcx> FnOnce(TyCtxt<'tcx>) -> R + Send) -> Outcome<R> {
  run_on(path.to_str().unwrap(), None, args, f)
}

fn run_on<R: Send>(path: &str, input: Option<String>, args: &[&str], f: impl for<'tcx> FnOnce(TyCtxt<'tcx>) -> R + Send) -> Outcome<R> {
  borrowck_facts::enable_mir_simplification();
  let diags: Diags = Default::default();
  let mut out: Option<R> = None;
  let mut full: Vec<String> = [
    "rustc", path, "--crate-type", "lib", "--crate-name", "dummy", "--edition=2024", "-Zidentify-regions", "-Zmir-opt-level=0",
    "-Zmaximal-hir-to-mir-coverage", "--allow", "warnings", "--sysroot",
  ].iter().map(|s| s.to_string()).collect();
  full.push(SYSROOT.clone());
  full.extend(args.iter().map(|s| s.to_string()));
  let res = {
    let out = &mut out;
    let mut cb = Cb { input, f: Some(move |tcx: TyCtxt<'_>| *out = Some(f(tcx))), diags: diags.clone() };
    panic::catch_unwind(panic::AssertUnwindSafe(|| {
      let _ = rustc_driver::catch_fatal_errors(|| rustc_driver::run_compiler(&full, &mut cb));
    }))
  };
  let panicked = res.err().map(|e| panic_message(&*e));
  let diags = diags.lock().unwrap().clone();
  Outcome { result: out, diags, panicked }
}

/// All fn-like bodies of the crate (excluding consts), in source order.
pub fn bodies(tcx: TyCtxt<'_>) -> Vec<(LocalDefId, BodyId)> {
  let mut v: Vec<_> = rustc_utils::source_map::find_bodies::find_bodies(tcx)
    .into_iter()
    .map(|(_, b)| (tcx.hir_body_owner_def_id(b), b))
    .filter(|(d, _)| tcx.def_kind(*d).is_fn_like() )
    .collect();
  v.sort_by_key(|(d, _)| tcx.def_span(*d).lo());
  v
}

/// Facts for a body, or None if the body does not type-check / borrow-check.
pub fn facts<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
) -> Option<&'tcx rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx>> {
  let root = tcx.typeck_root_def_id(def.to_def_id()).expect_local();
  if tcx.typeck(root).tainted_by_errors.is_some() {
    return None;
  }
  if tcx.mir_promoted(root).0.is_stolen() { /* already borrow-checked */ }
  let before = tcx.dcx().err_count();
  // rustc checks closures together with the function they are in.
  let _ = tcx.mir_borrowck(root);
  let b = borrowck_facts::get_body_with_borrowck_facts(tcx, def);
  if tcx.dcx().err_count() > before || b.body.tainted_by_errors.is_some() || tcx.mir_borrowck(root).is_err() {
    return None;
  }
  Some(b)
}

pub fn fn_name(tcx: TyCtxt<'_>, def: LocalDefId) -> String {
  tcx.opt_item_name(def.to_def_id()).map(|s| s.to_string()).unwrap_or_else(|| format!("{def:?}"))
}
