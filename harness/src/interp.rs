//! A reference interpreter for (borrowck-phase) MIR. It executes the very bodies that the analysis is given,
//! with hooks on the outermost frame: perturb what a location produces, flip branches, record observations,
//! record memory accesses. It knows nothing about the analysis.
use std::collections::{HashMap, HashSet};

use rustc_abi::VariantIdx;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::def_id::DefId;
use rustc_middle::{
  mir::*,
  ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv},
};

use crate::session;

#[derive(Clone, Debug, PartialEq)]
pub enum Val<'tcx> {
  Uninit,
  Int(i128),
  Tup(Vec<Val<'tcx>>),
  Adt { def: DefId, args: GenericArgsRef<'tcx>, variant: usize, fields: Vec<Val<'tcx>> },
  Clo { def: DefId, args: GenericArgsRef<'tcx>, fields: Vec<Val<'tcx>> },
  Arr(Vec<Val<'tcx>>),
  Ref(Ptr),
  Bx(usize),
  Fun(DefId, GenericArgsRef<'tcx>),
  Str(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ptr {
  pub alloc: usize,
  pub path: Vec<u32>,
}
impl Ptr {
  pub fn root(alloc: usize) -> Self {
    Ptr { alloc, path: vec![] }
  }
  pub fn child(&self, i: usize) -> Self {
    let mut p = self.clone();
    p.path.push(i as u32);
    p
  }
  /// Do the two denote overlapping memory (one is a prefix of the other)?
  pub fn overlaps(&self, o: &Ptr) -> bool {
    self.alloc == o.alloc && self.path.iter().zip(&o.path).all(|(a, b)| a == b)
  }
}

#[derive(Clone, Debug)]
pub enum Err {
  Unsupported(String),
  Panic(String),
  Uninit,
  Fuel,
  Stuck(String),
}
type R<T> = Result<T, Err>;

fn unsup<T>(s: impl Into<String>) -> R<T> {
  Err(Err::Unsupported(s.into()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Site {
  Loc(Location),
  Arg(Local),
}

#[derive(Clone, Debug)]
pub struct Perturb {
  pub site: Site,
  pub kind: u32,
  /// Also perturb memory reachable through the mutable references given to a call.
  pub call_effects: bool,
}

#[derive(Clone, Debug)]
pub struct Access {
  pub loc: Location,
  pub ptr: Ptr,
}

#[derive(Default)]
pub struct Hooks<'tcx> {
  pub perturb: Option<Perturb>,
  /// Places to observe after each of the given locations.
  pub observe: HashMap<Location, Vec<(usize, Place<'tcx>)>>,
  pub obs: HashMap<(Location, usize), u64>,
  pub visited: HashSet<Location>,
  pub perturbed: usize,
  /// Observed values stop at references.
  pub shallow: bool,
  /// Values of branch conditions, and of what is behind the mutable references given to calls (after the call).
  pub log_effects: bool,
  pub discrs: HashMap<Location, i128>,
  pub effects: HashMap<(Location, usize), u64>,
  /// Record writes / reads / resolutions of places.
  pub record: bool,
  /// Before each location (true) the callback-free log of (location, place, resolved pointer) of indirect places.
  pub resolved: Vec<(Location, Place<'tcx>, Ptr)>,
  pub writes: Vec<Access>,
  pub reads: Vec<(Location, Place<'tcx>, Ptr)>,
  pub trace: Vec<Location>,
  pub snapshots: bool,
  /// (location, root name of the memory) ownership snapshot used to name memory: filled by `owners`.
  pub owner_log: HashMap<Ptr, Vec<Place<'tcx>>>,
  pub return_loc: Option<Location>,
  /// Called before (false) and after (true) every instruction of the top frame.
  pub probe: Option<Probe<'tcx>>,
}
pub type Probe<'tcx> = Box<dyn FnMut(&mut Interp<'tcx>, &Frame<'tcx>, Location, bool) + 'tcx>;

pub struct Interp<'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub mem: Vec<Val<'tcx>>,
  pub fuel: usize,
  pub depth: usize,
  pub hooks: Hooks<'tcx>,
  env: TypingEnv<'tcx>,
  facts: HashMap<DefId, Option<&'tcx BodyWithBorrowckFacts<'tcx>>>,
  cur: Option<Location>,
  implicit_drop: bool,
}

pub static DESTRUCTORS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Frame<'tcx> {
  pub def: DefId,
  pub body: &'tcx Body<'tcx>,
  pub facts: Option<&'tcx BodyWithBorrowckFacts<'tcx>>,
  pub args: GenericArgsRef<'tcx>,
  pub locals: Vec<usize>,
}

impl<'tcx> Interp<'tcx> {
  pub fn new(tcx: TyCtxt<'tcx>) -> Self {
    Interp {
      tcx, mem: vec![], fuel: 6000, depth: 0, hooks: Hooks::default(), env: TypingEnv::fully_monomorphized(),
      facts: HashMap::new(), cur: None, implicit_drop: false,
    }
  }

  pub fn alloc(&mut self, v: Val<'tcx>) -> usize {
    self.mem.push(v);
    self.mem.len() - 1
  }

  pub fn mono(&self, ty: Ty<'tcx>, args: GenericArgsRef<'tcx>) -> Ty<'tcx> {
    let ty = self.tcx.erase_regions(ty);
    let ty = EarlyBinder::bind(ty).instantiate(self.tcx, args);
    self.tcx.try_normalize_erasing_regions(self.env, ty).unwrap_or(ty)
  }

  fn ty_of(&self, f: &Frame<'tcx>, p: Place<'tcx>) -> Ty<'tcx> {
    self.mono(p.ty(&f.body.local_decls, self.tcx).ty, f.args)
  }

  // ---- memory -------------------------------------------------------------------------------------------
  pub fn get(&self, p: &Ptr) -> R<&Val<'tcx>> {
    let mut v = self.mem.get(p.alloc).ok_or(Err::Stuck("bad alloc".into()))?;
    for i in &p.path {
      let fields = match v {
        Val::Tup(f) | Val::Arr(f) => f,
        Val::Adt { fields, .. } | Val::Clo { fields, .. } => fields,
        Val::Uninit => return Err(Err::Uninit),
        _ => return Err(Err::Stuck("project".into())),
      };
      v = fields.get(*i as usize).ok_or(Err::Stuck("field".into()))?;
    }
    Ok(v)
  }

  pub fn get_mut(&mut self, p: &Ptr) -> R<&mut Val<'tcx>> {
    let mut v = self.mem.get_mut(p.alloc).ok_or(Err::Stuck("bad alloc".into()))?;
    for i in &p.path {
      let fields = match v {
        Val::Tup(f) | Val::Arr(f) => f,
        Val::Adt { fields, .. } | Val::Clo { fields, .. } => fields,
        Val::Uninit => return Err(Err::Uninit),
        _ => return Err(Err::Stuck("project".into())),
      };
      v = fields.get_mut(*i as usize).ok_or(Err::Stuck("field".into()))?;
    }
    Ok(v)
  }

  fn write(&mut self, p: &Ptr, v: Val<'tcx>) -> R<()> {
    if self.hooks.record && self.depth_is_hooked_or_callee() && let Some(loc) = self.cur {
      self.hooks.writes.push(Access { loc, ptr: p.clone() });
    }
    *self.get_mut(p)? = v;
    Ok(())
  }
  fn depth_is_hooked_or_callee(&self) -> bool {
    true
  }

  /// Resolves a place to the memory it denotes.
  pub fn resolve(&self, f: &Frame<'tcx>, place: Place<'tcx>) -> R<Ptr> {
    let mut p = Ptr::root(f.locals[place.local.as_usize()]);
    for elem in place.projection {
      p = match elem {
        ProjectionElem::Deref => match self.get(&p)? {
          Val::Ref(q) => q.clone(),
          Val::Bx(a) => Ptr::root(*a),
          Val::Uninit => return Err(Err::Uninit),
          _ => return unsup("deref"),
        },
        ProjectionElem::Field(i, _) => {
          self.get(&p.child(i.as_usize()))?;
          p.child(i.as_usize())
        }
        ProjectionElem::Downcast(_, v) => match self.get(&p)? {
          Val::Adt { variant, .. } if *variant == v.as_usize() => p,
          Val::Uninit => return Err(Err::Uninit),
          _ => return Err(Err::Stuck("variant".into())),
        },
        ProjectionElem::Index(l) => {
          let Val::Int(i) = self.get(&Ptr::root(f.locals[l.as_usize()]))? else { return Err(Err::Uninit) };
          let i = *i as usize;
          match self.get(&p)? {
            Val::Arr(a) if i < a.len() => p.child(i),
            Val::Arr(_) => return Err(Err::Panic("oob".into())),
            Val::Uninit => return Err(Err::Uninit),
            _ => return unsup("index"),
          }
        }
        ProjectionElem::ConstantIndex { offset, from_end, .. } => match self.get(&p)? {
          Val::Arr(a) => {
            let i = if from_end { a.len() as u64 - offset } else { offset } as usize;
            if i >= a.len() {
              return Err(Err::Stuck("const index".into()));
            }
            p.child(i)
          }
          Val::Uninit => return Err(Err::Uninit),
          _ => return unsup("const index"),
        },
        _ => return unsup(format!("projection {elem:?}")),
      };
    }
    Ok(p)
  }

  fn read(&mut self, f: &Frame<'tcx>, place: Place<'tcx>) -> R<Val<'tcx>> {
    let p = self.resolve(f, place)?;
    if self.hooks.record && let Some(loc) = self.cur {
      self.hooks.reads.push((loc, place, p.clone()));
    }
    let v = self.get(&p)?.clone();
    if matches!(v, Val::Uninit) {
      return Err(Err::Uninit);
    }
    Ok(v)
  }

  /// Deep, pointer-identity-free hash of a value. None if some part of it is uninitialized.
  pub fn deep(&self, v: &Val<'tcx>, out: &mut Vec<i128>, budget: &mut usize) -> Option<()> {
    *budget = budget.checked_sub(1)?;
    match v {
      Val::Uninit => return None,
      Val::Int(i) => out.extend([1, *i]),
      Val::Tup(fs) | Val::Arr(fs) | Val::Clo { fields: fs, .. } => {
        out.extend([2, fs.len() as i128]);
        for x in fs {
          self.deep(x, out, budget)?;
        }
      }
      Val::Adt { variant, fields, .. } => {
        out.extend([3, *variant as i128]);
        for x in fields {
          self.deep(x, out, budget)?;
        }
      }
      Val::Ref(_) if self.hooks.shallow => out.push(4),
      Val::Ref(p) => {
        out.push(4);
        let x = self.get(p).ok()?;
        self.deep(x, out, budget)?;
      }
      Val::Bx(a) => {
        out.push(5);
        self.deep(&self.mem[*a], out, budget)?;
      }
      Val::Fun(d, _) => out.extend([6, ((d.krate.as_u32() as i128) << 32) | d.index.as_u32() as i128]),
      Val::Str(s) => {
        out.extend([7, s.len() as i128]);
        out.extend(s.bytes().map(|b| b as i128));
      }
    }
    Some(())
  }

  pub fn deep_hash(&self, v: &Val<'tcx>) -> Option<u64> {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut out = vec![];
    self.deep(v, &mut out, &mut 2000)?;
    let mut h = DefaultHasher::new();
    out.hash(&mut h);
    Some(h.finish())
  }

  // ---- fabricating and perturbing values ----------------------------------------------------------------
  /// A value of type `ty` built from `next`. References get fresh memory.
  pub fn fabricate(&mut self, ty: Ty<'tcx>, next: &mut dyn FnMut() -> u32, depth: usize) -> R<Val<'tcx>> {
    if depth > 8 {
      return unsup("deep type");
    }
    Ok(match ty.kind() {
      TyKind::Bool => Val::Int((next() & 1) as i128),
      TyKind::Int(_) | TyKind::Uint(_) => Val::Int((next() % 5) as i128),
      TyKind::Char => Val::Int(97 + (next() % 4) as i128),
      TyKind::Tuple(ts) => {
        let mut v = vec![];
        for t in ts.iter() {
          v.push(self.fabricate(t, next, depth + 1)?);
        }
        Val::Tup(v)
      }
      TyKind::Array(t, n) => {
        let n = n.try_to_target_usize(self.tcx).ok_or(Err::Unsupported("len".into()))?;
        let mut v = vec![];
        for _ in 0..n {
          v.push(self.fabricate(*t, next, depth + 1)?);
        }
        Val::Arr(v)
      }
      TyKind::Ref(_, t, _) => {
        let v = match t.kind() {
          TyKind::Slice(e) => {
            let mut v = vec![];
            for _ in 0..3 {
              v.push(self.fabricate(*e, next, depth + 1)?);
            }
            Val::Arr(v)
          }
          TyKind::Str => return Ok(Val::Str(["", "abc", "42", "é-1"][next() as usize % 4].into())),
          _ => self.fabricate(*t, next, depth + 1)?,
        };
        Val::Ref(Ptr::root(self.alloc(v)))
      }
      TyKind::Dynamic(preds, ..) => {
        // Any type of this crate that implements the trait.
        let Some(tr) = preds.principal_def_id() else { return unsup("dyn") };
        let mut cands: Vec<DefId> = self.tcx.trait_impls_of(tr).non_blanket_impls().values().flatten().copied()
          .filter(|d| d.is_local() && self.tcx.generics_of(*d).count() == 0).collect();
        cands.sort_by_key(|d| d.index.as_u32());
        if cands.is_empty() {
          return unsup("dyn");
        }
        let t = self.tcx.type_of(cands[next() as usize % cands.len()]).instantiate_identity();
        if self.val_ty_of(t).is_none() {
          return unsup("dyn");
        }
        self.fabricate(t, next, depth + 1)?
      }
      TyKind::Adt(def, args) if self.is_vec(def.did()) => {
        let mut v = vec![];
        for _ in 0..next() % 4 {
          v.push(self.fabricate(args.type_at(0), next, depth + 1)?);
        }
        Val::Adt { def: def.did(), args: self.tcx.erase_regions(*args), variant: 0, fields: vec![Val::Arr(v)] }
      }
      _ if ty.is_box() => {
        let v = self.fabricate(ty.boxed_ty().unwrap(), next, depth + 1)?;
        Val::Bx(self.alloc(v))
      }
      TyKind::Adt(def, args) if !def.is_union() && (def.did().is_local() || Some(def.did()) == self.tcx.lang_items().option_type()) => {
        if def.variants().is_empty() {
          return unsup("void");
        }
        let variant = next() as usize % def.variants().len();
        let mut fields = vec![];
        for f in &def.variant(VariantIdx::from_usize(variant)).fields {
          let t = self.mono(f.ty(self.tcx, args), args);
          fields.push(self.fabricate(t, next, depth + 1)?);
        }
        Val::Adt { def: def.did(), args: self.tcx.erase_regions(*args), variant, fields }
      }
      TyKind::Closure(def, args) => {
        let mut fields = vec![];
        for t in args.as_closure().upvar_tys() {
          fields.push(self.fabricate(self.tcx.erase_regions(t), next, depth + 1)?);
        }
        Val::Clo { def: *def, args: self.tcx.erase_regions(*args), fields }
      }
      TyKind::FnPtr(..) => {
        // Any local non-generic function of that signature.
        let want = self.tcx.erase_regions(ty).fn_sig(self.tcx);
        let want = self.tcx.instantiate_bound_regions_with_erased(want);
        let cands: Vec<DefId> = session::bodies(self.tcx).into_iter().map(|(d, _)| d.to_def_id()).filter(|d| {
          if !matches!(self.tcx.def_kind(*d), rustc_hir::def::DefKind::Fn) || self.tcx.generics_of(*d).count() > 0 {
            return false;
          }
          let s = self.tcx.erase_regions(self.tcx.instantiate_bound_regions_with_erased(self.tcx.fn_sig(*d).instantiate_identity()));
          s.inputs() == want.inputs() && s.output() == want.output()
        }).collect();
        if cands.is_empty() {
          return unsup("fn ptr");
        }
        Val::Fun(cands[next() as usize % cands.len()], ty::List::empty())
      }
      _ => return unsup(format!("fabricate {ty:?}")),
    })
  }

  fn is_vec(&self, def: DefId) -> bool {
    self.tcx.is_diagnostic_item(rustc_span::sym::Vec, def)
  }

  /// Types whose values show their type.
  fn val_ty_of(&self, t: Ty<'tcx>) -> Option<()> {
    match t.kind() {
      TyKind::Adt(..) | TyKind::Closure(..) => Some(()),
      TyKind::Int(ty::IntTy::I32) => Some(()),
      _ => None,
    }
  }

  /// The type of a value behind a trait object.
  fn val_ty(&self, v: &Val<'tcx>) -> R<Ty<'tcx>> {
    Ok(match v {
      Val::Int(_) => self.tcx.types.i32,
      Val::Adt { def, args, .. } => Ty::new_adt(self.tcx, self.tcx.adt_def(*def), args),
      Val::Clo { def, args, .. } => Ty::new_closure(self.tcx, *def, args),
      _ => return unsup("dyn value"),
    })
  }

  fn ty_has_ref(&self, ty: Ty<'tcx>) -> bool {
    ty.walk().any(|a| a.as_type().is_some_and(|t| t.is_ref() || t.is_raw_ptr() || t.is_box() || t.is_closure() || t.is_fn()))
      || ty.walk().any(|a| a.as_type().is_some_and(|t| match t.kind() {
        TyKind::Adt(d, args) => d.all_fields().any(|f| {
          let t2 = f.ty(self.tcx, args);
          t2 != t && (t2.is_ref() || t2.is_box() || (matches!(t2.kind(), TyKind::Adt(..) | TyKind::Tuple(..)) && self.ty_has_ref(t2)))
        }),
        _ => false,
      }))
  }

  /// Changes the scalar leaves of the value at `p` (of type `ty`); follows boxes, and references iff `through_refs`.
  /// `only_mut`: follow only mutable references.
  pub fn perturb_at(&mut self, p: &Ptr, ty: Ty<'tcx>, kind: u32, through: Through, depth: usize, seen: &mut HashSet<Ptr>) -> R<bool> {
    if depth > 8 || !seen.insert(p.clone()) {
      return Ok(false);
    }
    let v = match self.get(p) {
      Ok(v) => v.clone(),
      Err(_) => return Ok(false),
    };
    let mut changed = false;
    match (v, ty.kind()) {
      (Val::Int(i), TyKind::Bool) => {
        *self.get_mut(p)? = Val::Int(1 - (i & 1));
        changed = true;
      }
      (Val::Int(i), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char) => {
        let n = match kind % 4 {
          0 => i + 1,
          1 => i ^ 1,
          2 => {
            if i == 0 { 2 } else { 0 }
          }
          _ => i + 7 + (kind as i128 / 4),
        };
        let n = self.wrap(ty, n);
        *self.get_mut(p)? = Val::Int(n);
        changed = n != i;
      }
      (Val::Tup(fs), TyKind::Tuple(ts)) => {
        for (i, t) in ts.iter().enumerate().take(fs.len()) {
          changed |= self.perturb_at(&p.child(i), t, kind, through, depth + 1, seen)?;
        }
      }
      (Val::Arr(fs), TyKind::Array(t, _) | TyKind::Slice(t)) => {
        for i in 0..fs.len() {
          changed |= self.perturb_at(&p.child(i), *t, kind, through, depth + 1, seen)?;
        }
      }
      (v @ (Val::Int(_) | Val::Adt { .. } | Val::Clo { .. }), TyKind::Dynamic(..)) => {
        let t = self.val_ty(&v)?;
        seen.remove(p);
        changed |= self.perturb_at(p, t, kind, through, depth + 1, seen)?;
      }
      (Val::Str(t), TyKind::Ref(..)) if through != Through::Mut => {
        *self.get_mut(p)? = Val::Str(["12", "", "x", "-3"].into_iter().cycle().skip(kind as usize % 4).find(|x| *x != t).unwrap().into());
        changed = true;
      }
      (Val::Adt { def, .. }, TyKind::Adt(_, targs)) if self.is_vec(def) => {
        let n = match self.get(&p.child(0))? {
          Val::Arr(a) => a.len(),
          _ => return unsup("vec"),
        };
        for i in 0..n {
          changed |= self.perturb_at(&p.child(0).child(i), targs.type_at(0), kind, through, depth + 1, seen)?;
        }
      }
      (Val::Adt { variant, fields, def, args }, TyKind::Adt(adt, targs)) => {
        if adt.is_enum() && kind % 2 == 1 && !self.ty_has_ref(ty) && adt.variants().len() > 1 {
          let nv = (variant + 1 + (kind as usize / 2) % (adt.variants().len() - 1)) % adt.variants().len();
          let mut fs = vec![];
          for f in &adt.variant(VariantIdx::from_usize(nv)).fields {
            let t = self.mono(f.ty(self.tcx, targs), targs);
            fs.push(self.fabricate(t, &mut || kind, 0)?);
          }
          *self.get_mut(p)? = Val::Adt { def, args, variant: nv, fields: fs };
          changed = true;
        } else {
          for (i, f) in adt.variant(VariantIdx::from_usize(variant)).fields.iter().enumerate().take(fields.len()) {
            let t = self.mono(f.ty(self.tcx, targs), targs);
            changed |= self.perturb_at(&p.child(i), t, kind, through, depth + 1, seen)?;
          }
        }
      }
      (Val::Clo { fields, .. }, TyKind::Closure(_, args)) => {
        for (i, t) in args.as_closure().upvar_tys().iter().enumerate().take(fields.len()) {
          changed |= self.perturb_at(&p.child(i), t, kind, through, depth + 1, seen)?;
        }
      }
      (Val::Bx(a), _) if ty.is_box() => {
        changed |= self.perturb_at(&Ptr::root(a), ty.boxed_ty().unwrap(), kind, through, depth + 1, seen)?;
      }
      (Val::Ref(q), TyKind::Ref(_, t, m)) => {
        let follow = match through {
          Through::None => false,
          Through::All => true,
          Through::Mut => m.is_mut(),
        };
        if follow {
          changed |= self.perturb_at(&q, *t, kind, through, depth + 1, seen)?;
        } else if through == Through::None && !matches!(t.kind(), TyKind::Dynamic(..) | TyKind::Str) {
          // A different pointer: redirect it to fresh memory holding a perturbed copy.
          if let Ok(copy) = self.get(&q) {
            let copy = copy.clone();
            let copy = self.own_copy(copy);
            let a = Ptr::root(self.alloc(copy));
            self.perturb_at(&a, *t, kind, through, depth + 1, seen)?;
            *self.get_mut(p)? = Val::Ref(a);
            changed = true;
          }
        }
      }
      _ => {}
    }
    Ok(changed)
  }

  /// Moves the contents of boxes to new memory, so that stale references do not see them.
  fn rehouse(&mut self, v: Val<'tcx>) -> Val<'tcx> {
    let all = |s: &mut Self, fs: Vec<Val<'tcx>>| fs.into_iter().map(|f| s.rehouse(f)).collect::<Vec<_>>();
    match v {
      Val::Bx(a) => {
        let inner = std::mem::replace(&mut self.mem[a], Val::Uninit);
        let inner = self.rehouse(inner);
        Val::Bx(self.alloc(inner))
      }
      Val::Tup(fs) => Val::Tup(all(self, fs)),
      Val::Arr(fs) => Val::Arr(all(self, fs)),
      Val::Adt { def, args, variant, fields } => Val::Adt { def, args, variant, fields: all(self, fields) },
      Val::Clo { def, args, fields } => Val::Clo { def, args, fields: all(self, fields) },
      v => v,
    }
  }

  /// A copy with its own boxes.
  fn own_copy(&mut self, v: Val<'tcx>) -> Val<'tcx> {
    let all = |s: &mut Self, fs: Vec<Val<'tcx>>| fs.into_iter().map(|f| s.own_copy(f)).collect::<Vec<_>>();
    match v {
      Val::Bx(a) => {
        let inner = self.mem[a].clone();
        let inner = self.own_copy(inner);
        Val::Bx(self.alloc(inner))
      }
      Val::Tup(fs) => Val::Tup(all(self, fs)),
      Val::Arr(fs) => Val::Arr(all(self, fs)),
      Val::Adt { def, args, variant, fields } => Val::Adt { def, args, variant, fields: all(self, fields) },
      Val::Clo { def, args, fields } => Val::Clo { def, args, fields: all(self, fields) },
      v => v,
    }
  }

  fn wrap(&self, ty: Ty<'tcx>, v: i128) -> i128 {
    match ty.kind() {
      TyKind::Bool => v & 1,
      TyKind::Char => v.rem_euclid(0xD800),
      TyKind::Int(k) => {
        let bits = k.bit_width().unwrap_or(64) as u32;
        if bits == 128 { v } else { let s = 128 - bits; (v << s) >> s }
      }
      TyKind::Uint(k) => {
        let bits = k.bit_width().unwrap_or(64) as u32;
        if bits == 128 { v } else { v & ((1i128 << bits) - 1) }
      }
      _ => v,
    }
  }

  // ---- evaluation ---------------------------------------------------------------------------------------
  fn constant(&mut self, f: &Frame<'tcx>, c: &ConstOperand<'tcx>) -> R<Val<'tcx>> {
    let ty = self.mono(c.const_.ty(), f.args);
    match ty.kind() {
      TyKind::FnDef(d, args) => return Ok(Val::Fun(*d, args)),
      TyKind::Tuple(ts) if ts.is_empty() => return Ok(Val::Tup(vec![])),
      TyKind::Closure(d, args) => return Ok(Val::Clo { def: *d, args, fields: vec![] }),
      TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => {
        let cst = EarlyBinder::bind(self.tcx.erase_regions(c.const_)).instantiate(self.tcx, f.args);
        if let Const::Unevaluated(u, _) = cst && u.promoted.is_some() {
          return self.promoted(f, u.promoted.unwrap());
        }
        let bits = cst.try_eval_bits(self.tcx, self.env).ok_or(Err::Unsupported("const".into()))?;
        return Ok(Val::Int(self.wrap(ty, bits as i128)));
      }
      _ => {}
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(p) = u.promoted {
        return self.promoted(f, p);
      }
      if u.def.is_local() && let Some(b) = self.load(u.def) {
        return self.run_body(u.def, b, ty::List::empty(), vec![]);
      }
    }
    if let TyKind::Ref(_, t, _) = ty.kind() && t.is_str() {
      return Ok(Val::Str(format!("{:?}", c.const_)));
    }
    if let TyKind::Adt(def, args) = ty.kind() && def.is_struct() && def.all_fields().next().is_none() {
      return Ok(Val::Adt { def: def.did(), args, variant: 0, fields: vec![] });
    }
    unsup(format!("const {:?}", c.const_))
  }

  fn promoted(&mut self, f: &Frame<'tcx>, p: Promoted) -> R<Val<'tcx>> {
    let facts = f.facts.ok_or(Err::Unsupported("promoted in promoted".into()))?;
    let body = &facts.promoted[p];
    // Borrowck's promoteds share no state with us; execute them like a constant function.
    let body: &'tcx Body<'tcx> = body;
    let saved = self.cur.take();
    let d = self.depth;
    self.depth += 10;
    let mut fr = Frame { def: f.def, body, facts: None, args: f.args, locals: vec![] };
    for _ in 0..body.local_decls.len() {
      let a = self.alloc(Val::Uninit);
      fr.locals.push(a);
    }
    let r = self.exec(&mut fr);
    self.depth = d;
    self.cur = saved;
    r?;
    Ok(self.mem[fr.locals[0]].clone())
  }

  fn operand(&mut self, f: &Frame<'tcx>, op: &Operand<'tcx>) -> R<Val<'tcx>> {
    match op {
      Operand::Copy(p) => self.read(f, *p),
      Operand::Move(p) => {
        let v = self.read(f, *p)?;
        let ty = self.ty_of(f, *p);
        if !self.tcx.type_is_copy_modulo_regions(self.env, ty) {
          let ptr = self.resolve(f, *p)?;
          *self.get_mut(&ptr)? = Val::Uninit;
          return Ok(self.rehouse(v));
        }
        Ok(v)
      }
      Operand::Constant(c) => self.constant(f, c),
    }
  }

  fn int(&mut self, f: &Frame<'tcx>, op: &Operand<'tcx>) -> R<i128> {
    match self.operand(f, op)? {
      Val::Int(i) => Ok(i),
      _ => unsup("int"),
    }
  }

  fn rvalue(&mut self, f: &Frame<'tcx>, rv: &Rvalue<'tcx>) -> R<Val<'tcx>> {
    Ok(match rv {
      Rvalue::Use(op) => self.operand(f, op)?,
      Rvalue::CopyForDeref(p) => self.read(f, *p)?,
      Rvalue::Repeat(op, n) => {
        let v = self.operand(f, op)?;
        let n = EarlyBinder::bind(self.tcx.erase_regions(*n)).instantiate(self.tcx, f.args);
        let n = n.try_to_target_usize(self.tcx).ok_or(Err::Unsupported("repeat".into()))?;
        Val::Arr(vec![v; n as usize])
      }
      Rvalue::Ref(_, kind, p) => {
        if matches!(kind, BorrowKind::Fake(_)) {
          // Fake borrows only exist for the borrow checker.
          let p = self.resolve(f, *p)?;
          return Ok(Val::Ref(p));
        }
        let ptr = self.resolve(f, *p)?;
        Val::Ref(ptr)
      }
      Rvalue::Len(p) => {
        let ptr = self.resolve(f, *p)?;
        match self.get(&ptr)? {
          Val::Arr(a) => Val::Int(a.len() as i128),
          _ => return unsup("len"),
        }
      }
      Rvalue::Cast(kind, op, ty) => {
        let to = self.mono(*ty, f.args);
        let v = self.operand(f, op)?;
        match kind {
          CastKind::IntToInt => match v {
            Val::Int(i) => Val::Int(self.wrap(to, i)),
            Val::Adt { def, variant, .. } => {
              let d = self.tcx.adt_def(def).discriminant_for_variant(self.tcx, VariantIdx::from_usize(variant));
              Val::Int(self.wrap(to, d.val as i128))
            }
            _ => return unsup("cast"),
          },
          CastKind::PointerCoercion(k, _) => match k {
            ty::adjustment::PointerCoercion::ReifyFnPointer
            | ty::adjustment::PointerCoercion::ClosureFnPointer(_)
            | ty::adjustment::PointerCoercion::UnsafeFnPointer => match v {
              Val::Clo { def, args, .. } => Val::Fun(def, args),
              v => v,
            },
            ty::adjustment::PointerCoercion::Unsize => v,
            _ => return unsup("coercion"),
          },
          _ => return unsup("cast kind"),
        }
      }
      Rvalue::BinaryOp(op, ab) => {
        let (a, b) = (&ab.0, &ab.1);
        let ty = self.mono(a.ty(&f.body.local_decls, self.tcx), f.args);
        let x = self.operand(f, a)?;
        let y = self.operand(f, b)?;
        if let (Val::Tup(_), Val::Tup(_)) = (&x, &y) {
          // unit comparison
          return Ok(Val::Int(matches!(op, BinOp::Eq | BinOp::Le | BinOp::Ge) as i128));
        }
        let (Val::Int(x), Val::Int(y)) = (x, y) else { return unsup("binop") };
        let bits = match ty.kind() {
          TyKind::Int(k) => k.bit_width().unwrap_or(64) as i128,
          TyKind::Uint(k) => k.bit_width().unwrap_or(64) as i128,
          _ => 64,
        };
        let full = match op {
          BinOp::Add | BinOp::AddWithOverflow | BinOp::AddUnchecked => x.wrapping_add(y),
          BinOp::Sub | BinOp::SubWithOverflow | BinOp::SubUnchecked => x.wrapping_sub(y),
          BinOp::Mul | BinOp::MulWithOverflow | BinOp::MulUnchecked => x.wrapping_mul(y),
          BinOp::Div => if y == 0 { return Err(Err::Panic("div".into())) } else { x.wrapping_div(y) },
          BinOp::Rem => if y == 0 { return Err(Err::Panic("rem".into())) } else { x.wrapping_rem(y) },
          BinOp::BitXor => x ^ y,
          BinOp::BitAnd => x & y,
          BinOp::BitOr => x | y,
          BinOp::Shl | BinOp::ShlUnchecked => x.wrapping_shl(y.rem_euclid(bits) as u32),
          BinOp::Shr | BinOp::ShrUnchecked => x >> (y.rem_euclid(bits) as u32),
          BinOp::Eq => return Ok(Val::Int((x == y) as i128)),
          BinOp::Ne => return Ok(Val::Int((x != y) as i128)),
          BinOp::Lt => return Ok(Val::Int((x < y) as i128)),
          BinOp::Le => return Ok(Val::Int((x <= y) as i128)),
          BinOp::Gt => return Ok(Val::Int((x > y) as i128)),
          BinOp::Ge => return Ok(Val::Int((x >= y) as i128)),
          _ => return unsup("binop kind"),
        };
        let w = self.wrap(ty, full);
        match op {
          BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => Val::Tup(vec![Val::Int(w), Val::Int((w != full) as i128)]),
          _ => Val::Int(w),
        }
      }
      Rvalue::UnaryOp(op, a) => {
        let ty = self.mono(a.ty(&f.body.local_decls, self.tcx), f.args);
        let v = self.operand(f, a)?;
        match (op, v) {
          (UnOp::Not, Val::Int(i)) => Val::Int(if ty.is_bool() { 1 - (i & 1) } else { self.wrap(ty, !i) }),
          (UnOp::Neg, Val::Int(i)) => Val::Int(self.wrap(ty, -i)),
          (UnOp::PtrMetadata, Val::Ref(p)) => match self.get(&p)? {
            Val::Arr(a) => Val::Int(a.len() as i128),
            _ => return unsup("metadata"),
          },
          _ => return unsup("unop"),
        }
      }
      Rvalue::NullaryOp(NullOp::UbChecks, _) => Val::Int(0),
      Rvalue::Discriminant(p) => match self.read(f, *p)? {
        Val::Adt { def, variant, .. } => {
          let adt = self.tcx.adt_def(def);
          if !adt.is_enum() {
            return unsup("discr");
          }
          Val::Int(adt.discriminant_for_variant(self.tcx, VariantIdx::from_usize(variant)).val as i128)
        }
        _ => return unsup("discr"),
      },
      Rvalue::Aggregate(kind, ops) => {
        let mut vs = vec![];
        for op in ops {
          vs.push(self.operand(f, op)?);
        }
        match &**kind {
          AggregateKind::Tuple => Val::Tup(vs),
          AggregateKind::Array(_) => Val::Arr(vs),
          AggregateKind::Adt(def, variant, args, _, active) => {
            if active.is_some() {
              return unsup("union");
            }
            let args = EarlyBinder::bind(self.tcx.erase_regions(*args)).instantiate(self.tcx, f.args);
            Val::Adt { def: *def, args, variant: variant.as_usize(), fields: vs }
          }
          AggregateKind::Closure(def, args) => {
            let args = EarlyBinder::bind(self.tcx.erase_regions(*args)).instantiate(self.tcx, f.args);
            Val::Clo { def: *def, args, fields: vs }
          }
          k => return unsup(format!("aggregate {k:?}")),
        }
      }
      rv => return unsup(format!("rvalue {rv:?}")),
    })
  }

  fn load(&mut self, def: DefId) -> Option<&'tcx BodyWithBorrowckFacts<'tcx>> {
    if let Some(b) = self.facts.get(&def) {
      return *b;
    }
    let b = def.as_local().filter(|d| self.tcx.hir_maybe_body_owned_by(*d).is_some()).and_then(|d| session::facts(self.tcx, d));
    self.facts.insert(def, b);
    b
  }

  fn run_body(&mut self, def: DefId, facts: &'tcx BodyWithBorrowckFacts<'tcx>, args: GenericArgsRef<'tcx>, vals: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    if self.depth > 24 {
      return Err(Err::Fuel);
    }
    let body = &facts.body;
    let mut fr = Frame { def, body, facts: Some(facts), args, locals: vec![] };
    for i in 0..body.local_decls.len() {
      let v = if i >= 1 && i <= body.arg_count { vals.get(i - 1).cloned().ok_or(Err::Unsupported("arity".into()))? } else { Val::Uninit };
      let a = self.alloc(v);
      fr.locals.push(a);
    }
    let saved = self.cur;
    self.depth += 1;
    let r = self.exec(&mut fr);
    self.depth -= 1;
    self.cur = saved;
    r?;
    let ret = self.mem[fr.locals[0]].clone();
    if matches!(ret, Val::Uninit) && self.mono(body.local_decls[RETURN_PLACE].ty, args).is_unit() {
      return Ok(Val::Tup(vec![]));
    }
    Ok(ret)
  }

  /// Runs the outermost frame with the hooks active.
  pub fn run_top(&mut self, def: DefId, facts: &'tcx BodyWithBorrowckFacts<'tcx>, args: GenericArgsRef<'tcx>, vals: Vec<Val<'tcx>>) -> R<Frame<'tcx>> {
    let body = &facts.body;
    let mut fr = Frame { def, body, facts: Some(facts), args, locals: vec![] };
    for i in 0..body.local_decls.len() {
      let v = if i >= 1 && i <= body.arg_count { vals[i - 1].clone() } else { Val::Uninit };
      let a = self.alloc(v);
      fr.locals.push(a);
    }
    if let Some(Perturb { site: Site::Arg(l), kind, .. }) = self.hooks.perturb.clone() {
      let ty = self.mono(body.local_decls[l].ty, args);
      let p = Ptr::root(fr.locals[l.as_usize()]);
      if self.perturb_at(&p, ty, kind, Through::All, 0, &mut HashSet::new())? {
        self.hooks.perturbed += 1;
      }
    }
    self.facts.insert(def, Some(facts));
    self.depth = 1;
    let r = self.exec(&mut fr);
    r?;
    Ok(fr)
  }

  fn call_probe(&mut self, f: &Frame<'tcx>, loc: Location, after: bool) {
    if let Some(mut p) = self.hooks.probe.take() {
      p(self, f, loc, after);
      self.hooks.probe = Some(p);
    }
  }

  fn after(&mut self, f: &Frame<'tcx>, loc: Location) {
    self.call_probe(f, loc, true);
    if let Some(plan) = self.hooks.observe.get(&loc) {
      let mut res = vec![];
      for (i, p) in plan {
        if let Ok(ptr) = self.resolve(f, *p) && let Ok(v) = self.get(&ptr) && let Some(h) = self.deep_hash(v) {
          res.push(((loc, *i), h));
        }
      }
      self.hooks.obs.extend(res);
    }
  }

  fn call_value(&mut self, callee: Val<'tcx>, vals: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    match callee {
      Val::Fun(def, args) => self.call(def, args, vals),
      Val::Clo { def, args, .. } => {
        let facts = self.load(def).ok_or(Err::Unsupported("closure".into()))?;
        self.run_body(def, facts, args, vals)
      }
      _ => unsup("callee"),
    }
  }

  fn call(&mut self, def: DefId, args: GenericArgsRef<'tcx>, mut vals: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    let tcx = self.tcx;
    if tcx.is_closure_like(def) {
      // A closure coerced to a function pointer.
      let facts = self.load(def).ok_or(Err::Unsupported("closure".into()))?;
      let mut v = vec![Val::Clo { def, args, fields: vec![] }];
      let a = self.alloc(v[0].clone());
      let by_ref = facts.body.local_decls[Local::from_usize(1)].ty.is_ref();
      if by_ref {
        v[0] = Val::Ref(Ptr::root(a));
      }
      v.extend(vals);
      return self.run_body(def, facts, args, v);
    }
    // Fn* traits
    if let Some(tr) = tcx.trait_of_assoc(def) && tcx.fn_trait_kind_from_def_id(tr).is_some() {
      let Some(Val::Tup(rest)) = vals.pop() else { return unsup("fn args") };
      let f = vals.pop().ok_or(Err::Unsupported("fn self".into()))?;
      let mut target = f.clone();
      let mut target_ref = None;
      while let Val::Ref(p) = &target {
        target_ref = Some(p.clone());
        target = self.get(&target_ref.clone().unwrap())?.clone();
      }
      while let Val::Bx(a) = &target {
        target_ref = Some(Ptr::root(*a));
        target = self.mem[*a].clone();
      }
      match target {
        Val::Fun(d, a) => return self.call(d, a, rest),
        Val::Clo { def, args, .. } => {
          let facts = self.load(def).ok_or(Err::Unsupported("closure".into()))?;
          let by_ref = facts.body.local_decls[Local::from_usize(1)].ty.is_ref();
          let slf = if by_ref {
            let p = match target_ref {
              Some(p) => p,
              None => Ptr::root(self.alloc(target)),
            };
            Val::Ref(p)
          } else {
            target
          };
          let mut v = vec![slf];
          v.extend(rest);
          return self.run_body(def, facts, args, v);
        }
        _ => return unsup("fn value"),
      }
    }
    let mut args = tcx.erase_regions(args);
    // A method of a trait object.
    if tcx.trait_of_assoc(def).is_some() && args.types().next().is_some_and(|t| t.is_trait()) && let Some(first) = vals.first() {
      let mut v = first.clone();
      loop {
        v = match v {
          Val::Ref(p) => self.get(&p)?.clone(),
          Val::Bx(a) => self.mem[a].clone(),
          _ => break,
        };
      }
      let t = self.val_ty(&v)?;
      args = tcx.mk_args_from_iter(std::iter::once(t.into()).chain(args.iter().skip(1)));
    }
    let (def, args) = match Instance::try_resolve(tcx, self.env, def, args) {
      Ok(Some(i)) => match i.def {
        ty::InstanceKind::Item(d) => (d, i.args),
        _ => return unsup("instance"),
      },
      _ => return unsup("resolve"),
    };
    if def.is_local() {
      let facts = self.load(def).ok_or(Err::Unsupported("body".into()))?;
      return self.run_body(def, facts, args, vals);
    }
    // A few library functions.
    let name = tcx.def_path_str(def);
    let last = name.rsplit("::").next().unwrap_or("");
    let base = name.as_str();
    if let Some(v) = self.library(def, args, base, last, &vals)? {
      return Ok(v);
    }
    match last {
      "new" if base.contains("Box") && vals.len() == 1 => {
        let v = vals.pop().unwrap();
        Ok(Val::Bx(self.alloc(v)))
      }
      "swap" if base.contains("mem") => {
        let (Val::Ref(a), Val::Ref(b)) = (vals[0].clone(), vals[1].clone()) else { return unsup("swap") };
        let (x, y) = (self.get(&a)?.clone(), self.get(&b)?.clone());
        self.write(&a, y)?;
        self.write(&b, x)?;
        Ok(Val::Tup(vec![]))
      }
      "replace" if base.contains("mem") => {
        let Val::Ref(a) = vals[0].clone() else { return unsup("replace") };
        let x = self.get(&a)?.clone();
        self.write(&a, vals[1].clone())?;
        Ok(x)
      }
      "into_iter" if matches!(&vals[0], Val::Adt { .. }) && !matches!(&vals[0], Val::Adt { def, .. } if self.is_vec(*def)) => Ok(vals.pop().unwrap()),
      "drop" if base.contains("mem") => {
        let v = vals.pop().unwrap();
        let a = self.alloc(v);
        self.drop_at(&Ptr::root(a), 0)?;
        Ok(Val::Tup(vec![]))
      }
      "next" if self.is_range(&vals[0]) => {
        let Val::Ref(a) = vals[0].clone() else { return unsup("next") };
        let (s, e) = match self.get(&a)? {
          Val::Adt { fields, .. } => match fields.as_slice() {
            [Val::Int(s), Val::Int(e)] => (*s, *e),
            _ => return unsup("next"),
          },
          _ => return unsup("next"),
        };
        let opt = tcx.lang_items().option_type().unwrap();
        let int = tcx.mk_args(&[tcx.types.i32.into()]);
        if s < e {
          self.write(&a.child(0), Val::Int(s + 1))?;
          Ok(Val::Adt { def: opt, args: int, variant: 1, fields: vec![Val::Int(s)] })
        } else {
          Ok(Val::Adt { def: opt, args: int, variant: 0, fields: vec![] })
        }
      }
      "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
        let (Val::Int(a), Val::Int(b)) = (&vals[0], &vals[1]) else { return unsup("wrapping") };
        let r = match last {
          "wrapping_add" => a + b,
          "wrapping_sub" => a - b,
          _ => a.wrapping_mul(*b),
        };
        Ok(Val::Int(self.wrap(tcx.types.i32, r)))
      }
      "clone" if args.len() == 1 && args.type_at(0).is_scalar() => {
        let Val::Ref(a) = vals[0].clone() else { return unsup("clone") };
        match self.get(&a)? {
          Val::Int(i) => Ok(Val::Int(*i)),
          v @ (Val::Ref(_) | Val::Tup(_)) if tcx.type_is_copy_modulo_regions(self.env, args.type_at(0)) => Ok(v.clone()),
          _ => unsup("clone"),
        }
      }
      _ if tcx.is_mir_available(def) && !tcx.is_coroutine(def) => {
        let r = self.foreign(def, args, vals);
        match r {
          Err(Err::Unsupported(e)) if !e.starts_with("call") => unsup(format!("call {name}: {e}")),
          r => r,
        }
      }
      _ => unsup(format!("call {name}")),
    }
  }

  fn is_range(&self, v: &Val<'tcx>) -> bool {
    let Val::Ref(p) = v else { return false };
    matches!(self.get(p), Ok(Val::Adt { fields, .. }) if matches!(fields.as_slice(), [Val::Int(_), Val::Int(_)]))
  }

  /// Runs a function of another crate.
  fn foreign(&mut self, def: DefId, args: GenericArgsRef<'tcx>, vals: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    if self.depth > 24 {
      return Err(Err::Fuel);
    }
    let body: &'tcx Body<'tcx> = self.tcx.instance_mir(ty::InstanceKind::Item(def));
    let mut fr = Frame { def, body, facts: None, args, locals: vec![] };
    for i in 0..body.local_decls.len() {
      let v = if i >= 1 && i <= body.arg_count { vals.get(i - 1).cloned().ok_or(Err::Unsupported("arity".into()))? } else { Val::Uninit };
      let a = self.alloc(v);
      fr.locals.push(a);
    }
    let saved = self.cur;
    self.depth += 1;
    let r = self.exec(&mut fr);
    self.depth -= 1;
    self.cur = saved;
    r?;
    let ret = self.mem[fr.locals[0]].clone();
    if matches!(ret, Val::Uninit) && self.mono(body.local_decls[RETURN_PLACE].ty, args).is_unit() {
      return Ok(Val::Tup(vec![]));
    }
    Ok(ret)
  }

  fn option(&self, t: Ty<'tcx>, v: Option<Val<'tcx>>) -> Val<'tcx> {
    let def = self.tcx.lang_items().option_type().unwrap();
    let args = self.tcx.mk_args(&[t.into()]);
    match v {
      Some(v) => Val::Adt { def, args, variant: 1, fields: vec![v] },
      None => Val::Adt { def, args, variant: 0, fields: vec![] },
    }
  }

  /// Functions of the library that are built on raw pointers: those of slices and vectors, which are `Val::Arr`
  /// and a structure with one.
  fn library(&mut self, def: DefId, args: GenericArgsRef<'tcx>, name: &str, last: &str, vals: &[Val<'tcx>]) -> R<Option<Val<'tcx>>> {
    let tcx = self.tcx;
    // What the first argument refers to, if it is a slice or a vector.
    let arr = match vals.first() {
      Some(Val::Ref(p)) => match self.get(p) {
        Ok(Val::Arr(_)) => Some((p.clone(), false)),
        Ok(Val::Adt { def, .. }) if self.is_vec(*def) => Some((p.child(0), true)),
        _ => None,
      },
      _ => None,
    };
    let out = |s: &Self| s.mono(tcx.erase_regions(tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(def).instantiate(tcx, args)).output()), args);
    if let Some((p, vec)) = arr {
      let Ok(Val::Arr(a)) = self.get(&p).cloned() else { return Ok(None) };
      let slice = name.contains("slice::") || vec;
      return Ok(Some(match (last, vals.get(1)) {
        ("deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut", None) if vec => Val::Ref(p),
        ("len", None) => Val::Int(a.len() as i128),
        ("is_empty", None) => Val::Int(a.is_empty() as i128),
        ("iter" | "iter_mut", None) if slice => match out(self).kind() {
          TyKind::Adt(d, g) => Val::Adt { def: d.did(), args: tcx.erase_regions(*g), variant: 0, fields: vec![Val::Ref(p), Val::Int(0), Val::Int(a.len() as i128)] },
          _ => return Ok(None),
        },
        ("index" | "index_mut", Some(Val::Int(i))) => {
          if *i as usize >= a.len() {
            return Err(Err::Panic("oob".into()));
          }
          Val::Ref(p.child(*i as usize))
        }
        ("get" | "get_mut", Some(Val::Int(i))) => {
          let TyKind::Adt(_, g) = out(self).kind().clone() else { return Ok(None) };
          self.option(g.type_at(0), ((*i as usize) < a.len()).then(|| Val::Ref(p.child(*i as usize))))
        }
        ("swap", Some(Val::Int(i))) if slice => {
          let Some(Val::Int(j)) = vals.get(2) else { return Ok(None) };
          let (i, j) = (*i as usize, *j as usize);
          if i >= a.len() || j >= a.len() {
            return Err(Err::Panic("oob".into()));
          }
          self.write(&p.child(i), a[j].clone())?;
          self.write(&p.child(j), a[i].clone())?;
          Val::Tup(vec![])
        }
        ("contains", Some(Val::Ref(x))) => {
          let x = self.get(x)?.clone();
          match (x, a.iter().all(|v| matches!(v, Val::Int(_)))) {
            (Val::Int(x), true) => Val::Int(a.iter().any(|v| matches!(v, Val::Int(y) if *y == x)) as i128),
            _ => return unsup("call contains"),
          }
        }
        ("push", Some(v)) if vec => {
          let mut a = a;
          a.push(v.clone());
          self.write(&p, Val::Arr(a))?;
          Val::Tup(vec![])
        }
        ("pop", None) if vec => {
          let TyKind::Adt(_, g) = out(self).kind().clone() else { return Ok(None) };
          let mut a = a;
          let v = a.pop();
          self.write(&p, Val::Arr(a))?;
          self.option(g.type_at(0), v)
        }
        ("insert", Some(Val::Int(i))) if vec => {
          let mut a = a;
          if *i as usize > a.len() {
            return Err(Err::Panic("oob".into()));
          }
          a.insert(*i as usize, vals[2].clone());
          self.write(&p, Val::Arr(a))?;
          Val::Tup(vec![])
        }
        ("clear", None) if vec => {
          self.write(&p, Val::Arr(vec![]))?;
          Val::Tup(vec![])
        }
        ("clone" | "to_vec" | "to_owned", None) if a.iter().all(|v| matches!(v, Val::Int(_))) => match out(self).kind() {
          TyKind::Adt(d, g) => Val::Adt { def: d.did(), args: tcx.erase_regions(*g), variant: 0, fields: vec![Val::Arr(a)] },
          _ => Val::Arr(a),
        },
        _ if vec || name.contains("slice::") && !["first", "last", "first_mut", "last_mut", "split_first", "split_last"].contains(&last) => return unsup(format!("call {name}")),
        _ => return Ok(None),
      }));
    }
    // Iterators over slices.
    if let Some(Val::Ref(p)) = vals.first() && let Ok(Val::Adt { def: d, fields, .. }) = self.get(p).cloned() && tcx.def_path_str(d).contains("slice::Iter") {
      let [Val::Ref(q), Val::Int(i), Val::Int(n)] = fields.as_slice() else { return unsup("call iter") };
      let TyKind::Adt(_, g) = out(self).kind().clone() else { return unsup(format!("call {name}")) };
      return Ok(Some(match last {
        "next" if i < n => {
          self.write(&p.child(1), Val::Int(i + 1))?;
          self.option(g.type_at(0), Some(Val::Ref(q.child(*i as usize))))
        }
        "next_back" if i < n => {
          self.write(&p.child(2), Val::Int(n - 1))?;
          self.option(g.type_at(0), Some(Val::Ref(q.child(*n as usize - 1))))
        }
        "next" | "next_back" => self.option(g.type_at(0), None),
        _ => return unsup(format!("call {name}")),
      }));
    }
    Ok(match (last, vals) {
      // The slice of a string constant or argument.
      ("is_empty", [Val::Str(s)]) => Some(Val::Int(s.is_empty() as i128)),
      ("len", [Val::Str(s)]) => Some(Val::Int(s.len() as i128)),
      ("new", []) if name.contains("Vec") => match out(self).kind() {
        TyKind::Adt(d, g) => Some(Val::Adt { def: d.did(), args: tcx.erase_regions(*g), variant: 0, fields: vec![Val::Arr(vec![])] }),
        _ => None,
      },
      ("into_vec", [Val::Bx(b)]) => match (out(self).kind(), self.mem[*b].clone()) {
        (TyKind::Adt(d, g), a @ Val::Arr(_)) => Some(Val::Adt { def: d.did(), args: tcx.erase_regions(*g), variant: 0, fields: vec![a] }),
        _ => None,
      },
      ("box_new", [v]) => {
        let v = v.clone();
        Some(Val::Bx(self.alloc(v)))
      }
      ("take", [Val::Ref(p)]) if name.contains("mem::") => match self.get(p)?.clone() {
        Val::Int(i) => {
          self.write(p, Val::Int(0))?;
          Some(Val::Int(i))
        }
        _ => None,
      },
      _ => None,
    })
  }

  /// Runs the destructors of the value at `p`.
  fn drop_at(&mut self, p: &Ptr, depth: usize) -> R<()> {
    let v = match self.get(p) {
      Ok(v) => v.clone(),
      Err(_) => return Ok(()),
    };
    match v {
      Val::Adt { def, args, variant: _, fields } => {
        if def.is_local() && let Some(d) = self.tcx.adt_destructor(def) && let Some(imp) = self.tcx.impl_of_assoc(d.did) {
          let _ = imp;
          // What destructors do at the end of a scope is a known finding.
          if self.implicit_drop && !DESTRUCTORS.load(std::sync::atomic::Ordering::Relaxed) {
            return Err(Err::Unsupported("destructor".into()));
          }
          let slf = Val::Ref(p.clone());
          self.call_item(d.did, args, vec![slf])?;
        }
        for i in 0..fields.len() {
          self.drop_at(&p.child(i), depth + 1)?;
        }
      }
      Val::Tup(fs) | Val::Arr(fs) | Val::Clo { fields: fs, .. } => {
        for i in 0..fs.len() {
          self.drop_at(&p.child(i), depth + 1)?;
        }
      }
      Val::Bx(a) => {
        self.drop_at(&Ptr::root(a), depth + 1)?;
        self.mem[a] = Val::Uninit;
      }
      _ => {}
    }
    Ok(())
  }

  fn call_item(&mut self, def: DefId, args: GenericArgsRef<'tcx>, vals: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    let facts = self.load(def).ok_or(Err::Unsupported("drop body".into()))?;
    self.run_body(def, facts, args, vals)
  }

  fn exec(&mut self, f: &mut Frame<'tcx>) -> R<()> {
    let body = f.body;
    let top = self.depth == 1;
    let mut bb = START_BLOCK;
    loop {
      let data = &body.basic_blocks[bb];
      for (i, stmt) in data.statements.iter().enumerate() {
        let loc = Location { block: bb, statement_index: i };
        self.fuel = self.fuel.checked_sub(1).ok_or(Err::Fuel)?;
        if top {
          self.cur = Some(loc);
          self.hooks.visited.insert(loc);
          if self.hooks.record {
            self.hooks.trace.push(loc);
          }
          self.call_probe(f, loc, false);
        }
        match &stmt.kind {
          StatementKind::Assign(b) => {
            let (place, rv) = &**b;
            if matches!(rv, Rvalue::Ref(_, BorrowKind::Fake(_), _)) {
              continue;
            }
            if top && self.hooks.record {
              self.log_rvalue_places(f, rv, loc);
            }
            let v = self.rvalue(f, rv)?;
            let ptr = self.resolve(f, *place)?;
            if top && self.hooks.record && place.is_indirect() {
              self.hooks.resolved.push((loc, *place, ptr.clone()));
            }
            self.write(&ptr, v)?;
            if top && let Some(p) = self.hooks.perturb.clone() && p.site == Site::Loc(loc) {
              let ty = self.ty_of(f, *place);
              if self.perturb_at(&ptr, ty, p.kind, Through::None, 0, &mut HashSet::new())? {
                self.hooks.perturbed += 1;
              }
            }
          }
          StatementKind::Intrinsic(b) if matches!(**b, NonDivergingIntrinsic::Assume(_)) => {}
          StatementKind::Deinit(..) | StatementKind::SetDiscriminant { .. } | StatementKind::Intrinsic(..) => return unsup("stmt"),
          _ => {}
        }
        if top {
          self.after(f, loc);
        }
      }
      let loc = Location { block: bb, statement_index: data.statements.len() };
      self.fuel = self.fuel.checked_sub(1).ok_or(Err::Fuel)?;
      if top {
        self.cur = Some(loc);
        self.hooks.visited.insert(loc);
        if self.hooks.record {
          self.hooks.trace.push(loc);
        }
        self.call_probe(f, loc, false);
      }
      let mut next = match &data.terminator().kind {
        TerminatorKind::Goto { target } => *target,
        TerminatorKind::FalseEdge { real_target, .. } => *real_target,
        TerminatorKind::FalseUnwind { real_target, .. } => *real_target,
        TerminatorKind::SwitchInt { discr, targets } => {
          let ty = self.mono(discr.ty(&body.local_decls, self.tcx), f.args);
          let v = self.int(f, discr)?;
          let bits = match ty.kind() {
            TyKind::Int(k) => {
              let n = k.bit_width().unwrap_or(64) as u32;
              if n == 128 { v as u128 } else { (v as u128) & ((1u128 << n) - 1) }
            }
            _ => v as u128,
          };
          if top && self.hooks.log_effects {
            self.hooks.discrs.insert(loc, v);
          }
          let taken = targets.target_for_value(bits);
          if top && let Some(p) = self.hooks.perturb.clone() && p.site == Site::Loc(loc) {
            let others: Vec<BasicBlock> = targets.all_targets().iter().copied().filter(|t| {
              *t != taken && !matches!(body.basic_blocks[*t].terminator().kind, TerminatorKind::Unreachable)
            }).collect();
            if others.is_empty() {
              taken
            } else {
              self.hooks.perturbed += 1;
              others[p.kind as usize % others.len()]
            }
          } else {
            taken
          }
        }
        TerminatorKind::Return => {
          if top {
            self.hooks.return_loc = Some(loc);
            self.after(f, loc);
          }
          return Ok(());
        }
        TerminatorKind::Unreachable => return Err(Err::Stuck("unreachable".into())),
        TerminatorKind::Drop { place, target, .. } => {
          if let Ok(p) = self.resolve(f, *place) {
            self.implicit_drop = true;
            let r = self.drop_at(&p, 0);
            self.implicit_drop = false;
            r?;
            if let Ok(v) = self.get_mut(&p) {
              *v = Val::Uninit;
            }
          }
          *target
        }
        TerminatorKind::Assert { cond, expected, target, .. } => {
          if self.int(f, cond)? != *expected as i128 {
            return Err(Err::Panic("assert".into()));
          }
          *target
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let callee = self.operand(f, func)?;
          let callee = match callee {
            Val::Fun(d, a) => {
              let a = EarlyBinder::bind(self.tcx.erase_regions(a)).instantiate(self.tcx, f.args);
              Val::Fun(d, a)
            }
            v => v,
          };
          let mut vals = vec![];
          for a in args {
            vals.push(self.operand(f, &a.node)?);
          }
          let given = vals.clone();
          let arg_tys: Vec<Ty<'tcx>> = args.iter().map(|a| self.mono(a.node.ty(&body.local_decls, self.tcx), f.args)).collect();
          let ret = self.call_value(callee, vals)?;
          let Some(target) = target else { return Err(Err::Panic("diverging call".into())) };
          let ptr = self.resolve(f, *destination)?;
          if top && self.hooks.record && destination.is_indirect() {
            self.hooks.resolved.push((loc, *destination, ptr.clone()));
          }
          self.write(&ptr, ret)?;
          if top && let Some(p) = self.hooks.perturb.clone() && p.site == Site::Loc(loc) {
            let ty = self.ty_of(f, *destination);
            let mut did = self.perturb_at(&ptr, ty, p.kind, Through::None, 0, &mut HashSet::new())?;
            if p.call_effects {
              let mut seen = HashSet::new();
              for (v, t) in given.iter().cloned().zip(arg_tys.iter().copied()) {
                if let (Val::Ref(q), TyKind::Ref(_, inner, m)) = (&v, t.kind()) {
                  if m.is_mut() {
                    did |= self.perturb_at(q, *inner, p.kind, Through::Mut, 0, &mut seen)?;
                  }
                } else {
                  let a = self.alloc(v);
                  did |= self.perturb_through_only(&Ptr::root(a), t, p.kind, &mut seen, 0)?;
                }
              }
            }
            if did {
              self.hooks.perturbed += 1;
            }
          }
          if top && self.hooks.log_effects {
            for (i, (v, t)) in given.iter().zip(&arg_tys).enumerate() {
              if let (Val::Ref(q), TyKind::Ref(_, _, m)) = (v, t.kind()) && m.is_mut() && let Ok(x) = self.get(q) && let Some(h) = self.deep_hash(x) {
                self.hooks.effects.insert((loc, i), h);
              }
            }
          }
          *target
        }
        t => return unsup(format!("terminator {t:?}")),
      };
      if top {
        self.after(f, loc);
      }
      std::mem::swap(&mut bb, &mut next);
    }
  }

  /// Perturbs only what is behind the mutable references inside a by-value argument.
  fn perturb_through_only(&mut self, p: &Ptr, ty: Ty<'tcx>, kind: u32, seen: &mut HashSet<Ptr>, depth: usize) -> R<bool> {
    if depth > 6 {
      return Ok(false);
    }
    let v = match self.get(p) {
      Ok(v) => v.clone(),
      Err(_) => return Ok(false),
    };
    let mut c = false;
    match (v, ty.kind()) {
      (Val::Ref(q), TyKind::Ref(_, t, m)) if m.is_mut() => c |= self.perturb_at(&q, *t, kind, Through::Mut, 0, seen)?,
      (Val::Tup(fs), TyKind::Tuple(ts)) => {
        for (i, t) in ts.iter().enumerate().take(fs.len()) {
          c |= self.perturb_through_only(&p.child(i), t, kind, seen, depth + 1)?;
        }
      }
      (Val::Adt { variant, fields, .. }, TyKind::Adt(adt, targs)) => {
        for (i, fd) in adt.variant(VariantIdx::from_usize(variant)).fields.iter().enumerate().take(fields.len()) {
          let t = self.mono(fd.ty(self.tcx, targs), targs);
          c |= self.perturb_through_only(&p.child(i), t, kind, seen, depth + 1)?;
        }
      }
      (Val::Bx(a), _) if ty.is_box() => c |= self.perturb_through_only(&Ptr::root(a), ty.boxed_ty().unwrap(), kind, seen, depth + 1)?,
      _ => {}
    }
    Ok(c)
  }

  fn log_rvalue_places(&mut self, f: &Frame<'tcx>, rv: &Rvalue<'tcx>, loc: Location) {
    if let Rvalue::Ref(_, _, p) = rv && p.is_indirect() && let Ok(ptr) = self.resolve(f, *p) {
      self.hooks.resolved.push((loc, *p, ptr));
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Through {
  None,
  Mut,
  All,
}
