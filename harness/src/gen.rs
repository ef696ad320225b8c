//! Structured generator of Rust code: a unit is a module body with types, helper functions and functions under test.
use std::fmt::Write;

use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
  Int,
  Bool,
  Unit,
  Tup(Vec<Ty>),
  Struct(usize),
  Enum(usize),
  Opt(Box<Ty>),
  Arr(Box<Ty>, usize),
  Bx(Box<Ty>),
  /// Region 0 is inferred.
  Ref(u8, bool, Box<Ty>),
  /// A struct holding references: index, region
  LStruct(usize, u8),
  FnP,
  Clo(bool),
}
use Ty::*;

impl Ty {
  fn erase(&self) -> Ty {
    match self {
      Ref(_, m, t) => Ref(0, *m, Box::new(t.erase())),
      LStruct(i, _) => LStruct(*i, 0),
      Tup(ts) => Tup(ts.iter().map(|t| t.erase()).collect()),
      Opt(t) => Opt(Box::new(t.erase())),
      Bx(t) => Bx(Box::new(t.erase())),
      Arr(t, n) => Arr(Box::new(t.erase()), *n),
      t => t.clone(),
    }
  }
  fn has_ref(&self) -> bool {
    match self {
      Ref(..) | LStruct(..) | Clo(_) => true,
      Tup(ts) => ts.iter().any(|t| t.has_ref()),
      Opt(t) | Bx(t) | Arr(t, _) => t.has_ref(),
      _ => false,
    }
  }
  fn regions(&self, out: &mut Vec<u8>) {
    match self {
      Ref(r, _, t) => {
        out.push(*r);
        t.regions(out);
      }
      LStruct(_, r) => out.push(*r),
      Tup(ts) => ts.iter().for_each(|t| t.regions(out)),
      Opt(t) | Bx(t) | Arr(t, _) => t.regions(out),
      _ => {}
    }
  }
}

#[derive(Clone)]
struct StructD {
  name: String,
  fields: Vec<(Ty, bool)>, // type, public
  copy: bool,
  tuple: bool,
  private: bool,
}
#[derive(Clone)]
struct EnumD {
  name: String,
  variants: Vec<(String, Vec<Ty>, bool)>, // name, payload, named fields
  copy: bool,
}
#[derive(Clone)]
struct LStructD {
  name: String,
  fields: Vec<(Ty, u8)>, // region: 0 = the struct's own
}
#[derive(Clone)]
struct Sig {
  name: String,
  params: Vec<Ty>,
  ret: Ty,
}
#[derive(Clone)]
struct Var {
  name: String,
  ty: Ty,
  mutable: bool,
  loans: Vec<(usize, bool)>,
  dead: bool,
  region: u8, // nonzero: parameter
  world: u8,
  /// The name stands for something behind a reference.
  behind: bool,
}

#[derive(Clone, Debug)]
struct PlaceC {
  text: String,
  ty: Ty,
  writable: bool,
  root: usize,
  behind_ref: bool,
  whole: bool,
}

/// What the generated programs may contain.
#[derive(Clone)]
pub struct Cfg {
  pub stmts: usize,
  pub depth: usize,
  pub refs: bool,
  pub closures: bool,
  pub loops: bool,
  pub early_return: bool,
  pub structs: bool,
  pub private: bool,
  pub calls: bool,
  pub fn_ptrs: bool,
  pub slices: bool,
  pub drops: bool,
  pub generics: bool,
  /// Functions under test per unit.
  pub fns: usize,
  /// No references at all: everything is passed and matched by value.
  pub pure: bool,
  pub boxes: bool,
  /// No aliasing beyond what single lifetimes imply: every parameter and field has a lifetime of its own.
  pub precise: bool,
  /// Two programs in one function: lines marked B may read what lines marked A compute (unless `apart`), never the reverse.
  pub worlds: bool,
  pub apart: bool,
  /// Marks the unit as one to compare with wrappers of its functions.
  pub wrap: bool,
  /// A generator of another kind of unit.
  pub own: Option<fn(&mut Tape) -> String>,
}
impl Default for Cfg {
  fn default() -> Self {
    Cfg {
      stmts: 7, depth: 3, refs: true, closures: true, loops: true, early_return: true, structs: true, private: true, calls: true,
      fn_ptrs: true, slices: true, drops: false, generics: true, fns: 2, pure: false, boxes: true,
      precise: false, worlds: false, apart: false, wrap: false, own: None,
    }
  }
}

pub struct Gen<'t> {
  t: &'t mut Tape,
  cfg: Cfg,
  structs: Vec<StructD>,
  enums: Vec<EnumD>,
  lstructs: Vec<LStructD>,
  sigs: Vec<Sig>,
  vars: Vec<Var>,
  locked: Vec<(usize, bool)>,
  touch: Option<Vec<(usize, bool)>>,
  counter: usize,
  loop_base: Option<usize>,
  loop_depth: usize,
  ret: Ty,
  in_closure: bool,
  budget: usize,
  traits: bool,
  world: u8,
  mixing: bool,
  regions: u8,
}

fn indent(s: &str) -> String {
  s.lines().map(|l| format!("  {l}\n")).collect()
}

pub const INTP: &str = "i32";

impl<'t> Gen<'t> {
  pub fn new(t: &'t mut Tape, cfg: Cfg) -> Self {
    Gen {
      t, cfg, structs: vec![], enums: vec![], lstructs: vec![], sigs: vec![], vars: vec![], locked: vec![], touch: None, counter: 0,
      loop_base: None, loop_depth: 0, ret: Unit, in_closure: false, budget: 60, traits: false, world: 0, mixing: false, regions: 0,
    }
  }

  // ---- types ----
  fn copy(&self, t: &Ty) -> bool {
    match t {
      Int | Bool | Unit | FnP => true,
      Tup(ts) => ts.iter().all(|t| self.copy(t)),
      Struct(i) => self.structs[*i].copy,
      Enum(i) => self.enums[*i].copy,
      Opt(t) | Arr(t, _) => self.copy(t),
      Bx(_) | LStruct(..) | Clo(_) => false,
      Ref(_, m, _) => !m,
    }
  }

  fn show(&self, t: &Ty) -> String {
    match t {
      Int => "i32".into(),
      Bool => "bool".into(),
      Unit => "()".into(),
      Tup(ts) => format!("({})", ts.iter().map(|t| self.show(t) + ",").collect::<Vec<_>>().join(" ")),
      Struct(i) => self.structs[*i].name.clone(),
      Enum(i) => self.enums[*i].name.clone(),
      Opt(t) => format!("Option<{}>", self.show(t)),
      Arr(t, n) => format!("[{}; {n}]", self.show(t)),
      Bx(t) => format!("Box<{}>", self.show(t)),
      Ref(0, m, t) => format!("&{}{}", if *m { "mut " } else { "" }, self.show(t)),
      Ref(r, m, t) => format!("&'{} {}{}", region(*r), if *m { "mut " } else { "" }, self.show(t)),
      LStruct(i, 0) => format!("{}<'_>", self.lstructs[*i].name),
      LStruct(i, r) => format!("{}<'{}>", self.lstructs[*i].name, region(*r)),
      FnP => "fn(i32) -> i32".into(),
      Clo(_) => "_".into(),
    }
  }

  fn data_ty(&mut self, depth: usize) -> Ty {
    let n = if depth == 0 { 2 } else { 9 };
    match self.t.below(n) {
      0 => Int,
      1 => Bool,
      2 | 3 if !self.structs.is_empty() => Struct(self.t.below(self.structs.len())),
      4 => {
        let n = 2 + self.t.below(2);
        Tup((0..n).map(|_| self.data_ty(depth - 1)).collect())
      }
      5 if !self.enums.is_empty() => Enum(self.t.below(self.enums.len())),
      6 => Opt(Box::new(self.data_ty(depth - 1))),
      7 => Arr(Box::new(if self.t.chance(30) { self.data_ty(depth - 1) } else { Int }), [2, 4][self.t.below(2)]),
      8 if self.cfg.boxes => Bx(Box::new(self.data_ty(depth - 1))),
      _ => Int,
    }
  }

  fn decls(&mut self) -> String {
    let mut s = String::new();
    if self.cfg.structs {
      for i in 0..1 + self.t.below(3) {
        let n = 1 + self.t.below(3);
        let private = self.cfg.private && self.t.chance(35);
        let mut fields = vec![];
        for _ in 0..n {
          let ty = self.data_ty(1);
          let public = !private || self.t.chance(50);
          fields.push((ty, public));
        }
        let all_copy = fields.iter().all(|(t, _)| self.copy(t));
        let copy = all_copy && self.t.chance(50);
        let private = fields.iter().any(|f| !f.1);
        let tuple = !private && self.t.chance(25);
        let d = StructD { name: format!("S{i}"), fields, copy, tuple, private };
        let vis = |p: bool| if p { "pub " } else { "" };
        let derive = if copy { "#[derive(Clone, Copy)]\n" } else { "" };
        let mut def = String::new();
        if d.tuple {
          let fs: Vec<_> = d.fields.iter().map(|(t, _)| format!("pub {}", self.show(t))).collect();
          writeln!(def, "{derive}pub struct {}({});", d.name, fs.join(", ")).unwrap();
        } else {
          let fs: Vec<_> = d.fields.iter().enumerate().map(|(j, (t, p))| format!("{}f{j}: {}", vis(*p), self.show(t))).collect();
          writeln!(def, "{derive}pub struct {} {{ {} }}", d.name, fs.join(", ")).unwrap();
        }
        if d.private {
          let ps: Vec<_> = d.fields.iter().enumerate().map(|(j, (t, _))| format!("f{j}: {}", self.show(t))).collect();
          let fs: Vec<_> = (0..d.fields.len()).map(|j| format!("f{j}")).collect();
          let mut imp = format!("pub fn new({}) -> Self {{ {} {{ {} }} }}\n", ps.join(", "), d.name, fs.join(", "));
          for (j, (t, p)) in d.fields.iter().enumerate() {
            if !p {
              let t = self.show(t);
              writeln!(imp, "pub fn get{j}(&self) -> &{t} {{ &self.f{j} }}").unwrap();
              writeln!(imp, "pub fn mut{j}(&mut self) -> &mut {t} {{ &mut self.f{j} }}").unwrap();
              writeln!(imp, "pub fn set{j}(&mut self, v: {t}) {{ self.f{j} = v; }}").unwrap();
            }
          }
          write!(s, "mod m{i} {{\n  use super::*;\n{}  impl {} {{\n{}  }}\n}}\nuse m{i}::*;\n", indent(&def), d.name, indent(&indent(&imp))).unwrap();
        } else {
          s += &def;
        }
        self.structs.push(d);
      }
      for i in 0..self.t.below(3) {
        let n = 2 + self.t.below(2);
        let mut variants = vec![];
        for j in 0..n {
          let k = self.t.below(3);
          let named = k > 0 && self.t.chance(30);
          let p = (0..k).map(|_| self.data_ty(1)).collect::<Vec<_>>();
          variants.push((format!("V{j}"), p, named));
        }
        let all_copy = variants.iter().flat_map(|v| &v.1).all(|t| self.copy(t));
        let copy = all_copy && self.t.chance(60);
        let d = EnumD { name: format!("E{i}"), variants, copy };
        let vs: Vec<_> = d.variants.iter().map(|(n, p, named)| {
          if p.is_empty() {
            n.clone()
          } else if *named {
            format!("{n} {{ {} }}", p.iter().enumerate().map(|(j, t)| format!("g{j}: {}", self.show(t))).collect::<Vec<_>>().join(", "))
          } else {
            format!("{n}({})", p.iter().map(|t| self.show(t)).collect::<Vec<_>>().join(", "))
          }
        }).collect();
        writeln!(s, "{}pub enum {} {{ {} }}", if copy { "#[derive(Clone, Copy)]\n" } else { "" }, d.name, vs.join(", ")).unwrap();
        self.enums.push(d);
      }
    }
    if self.cfg.refs {
      for i in 0..self.t.below(3) {
        let n = if self.cfg.wrap { 1 } else { 1 + self.t.below(2) };
        let mut fields: Vec<(Ty, u8)> = vec![];
        let all = self.t.chance(60);
        for _ in 0..n {
          let inner = self.data_ty(1);
          let m = if self.cfg.precise { all } else { self.t.chance(60) };
          fields.push((Ref(1, m, Box::new(inner)), 0));
        }
        if self.t.chance(50) {
          fields.push((Int, 0));
        }
        let d = LStructD { name: format!("L{i}"), fields };
        let fs: Vec<_> = d.fields.iter().enumerate().map(|(j, (t, _))| format!("pub f{j}: {}", self.show(t))).collect();
        writeln!(s, "pub struct {}<'a> {{ {} }}", d.name, fs.join(", ")).unwrap();
        self.lstructs.push(d);
      }
    }
    if self.cfg.fn_ptrs {
      writeln!(s, "pub fn p0(x: i32) -> i32 {{ x + 1 }}\npub fn p1(x: i32) -> i32 {{ if x > 2 {{ 0 }} else {{ x }} }}").unwrap();
    }
    if self.cfg.generics && self.t.chance(60) {
      self.traits = true;
      let tgt = if self.structs.is_empty() { "i32".to_string() } else { "S0".to_string() };
      s += "pub trait Tr { fn get(&self) -> i32; fn put(&mut self, v: i32) -> i32; }\n";
      s += "pub fn gid<T>(x: T) -> T { x }\n";
      s += "pub fn gput<T: Tr>(x: &mut T, v: i32) -> i32 { let o = x.get(); x.put(v); o }\n";
      s += "pub fn gsel<'a, T>(c: bool, x: &'a mut T, y: &'a mut T) -> &'a mut T { if c { x } else { y } }\n";
      if self.cfg.closures {
        s += "pub fn gcall<F: FnMut(i32) -> i32>(mut f: F, x: i32) -> i32 { f(x) - f(1) }\n";
        s += "pub fn gonce<F: FnOnce(i32) -> i32>(x: i32, f: F) -> i32 { f(x) }\n";
        s += "pub fn gdyn(f: &mut dyn FnMut(i32) -> i32, x: i32) -> i32 { f(x) }\n";
      }
      s += "pub struct W0<'a> { pub w: &'a mut i32 }\n";
      s += "impl<'a> Tr for W0<'a> { fn get(&self) -> i32 { *self.w } fn put(&mut self, v: i32) -> i32 { *self.w = v; 0 } }\n";
      s += "pub fn gown<T: Tr>(mut x: T, v: i32) -> i32 { x.put(v); x.get() }\n";
      s += "pub fn gdput(x: &mut dyn Tr, v: i32) -> i32 { let o = x.get(); x.put(v); o }\n";
      s += "impl Tr for i32 { fn get(&self) -> i32 { *self } fn put(&mut self, v: i32) -> i32 { *self = v; v + 1 } }\n";
      let _ = tgt;
    }
    s
  }

  fn fresh(&mut self, p: &str) -> String {
    self.counter += 1;
    format!("{p}{}", self.counter)
  }

  fn push(&mut self, name: String, ty: Ty, mutable: bool, loans: Vec<(usize, bool)>) -> usize {
    self.vars.push(Var { name, ty: ty.erase(), mutable, loans, dead: false, region: 0, world: self.world, behind: false });
    self.vars.len() - 1
  }

  // ---- borrows ----
  fn use_place(&mut self, root: usize, write: bool) {
    if let Some(t) = &mut self.touch {
      t.push((root, write));
    }
    for i in 0..self.vars.len() {
      if i != root && self.vars[i].loans.iter().any(|(r, m)| *r == root && (write || *m)) {
        self.vars[i].dead = true;
      }
    }
  }
  fn usable(&self, root: usize, write: bool) -> bool {
    !self.vars[root].dead && !self.locked.iter().any(|(r, m)| *r == root && (write || *m))
  }
  fn loans_of(&self, p: &PlaceC, m: bool) -> Vec<(usize, bool)> {
    let mut l = self.vars[p.root].loans.clone();
    l.push((p.root, m));
    l
  }

  // ---- places ----
  fn places(&mut self) -> Vec<PlaceC> {
    let mut out = vec![];
    for (i, v) in self.vars.iter().enumerate() {
      if v.dead || self.locked.iter().any(|(r, m)| *r == i && *m) {
        continue;
      }
      let foreign = v.world != self.world;
      if foreign && (self.world == 1 || self.cfg.apart || matches!(v.ty, Clo(_))) {
        continue;
      }
      out.push(PlaceC { text: v.name.clone(), ty: v.ty.clone(), writable: v.mutable && !foreign, root: i, behind_ref: foreign || v.behind, whole: !foreign });
    }
    let mut k = 0;
    while k < out.len() {
      let p = out[k].clone();
      let depth = p.text.matches(['.', '[', '*']).count();
      k += 1;
      if depth >= 3 || out.len() > 120 {
        continue;
      }
      let sub = |text: String, ty: Ty, writable: bool, behind: bool| PlaceC {
        text, ty, writable, root: p.root, behind_ref: behind, whole: false,
      };
      match &p.ty {
        Tup(ts) => {
          for (i, t) in ts.iter().enumerate() {
            out.push(sub(format!("{}.{i}", p.text), t.clone(), p.writable, p.behind_ref));
          }
        }
        Struct(s) => {
          let d = &self.structs[*s];
          for (i, (t, public)) in d.fields.iter().enumerate() {
            if *public {
              let f = if d.tuple { format!("{i}") } else { format!("f{i}") };
              out.push(sub(format!("{}.{f}", p.text), t.clone(), p.writable, p.behind_ref));
            }
          }
        }
        LStruct(s, _) => {
          for (i, (t, _)) in self.lstructs[*s].fields.clone().iter().enumerate() {
            out.push(sub(format!("{}.f{i}", p.text), t.erase(), p.writable, p.behind_ref));
          }
        }
        Arr(t, n) => out.push(sub(format!("{}[§{n}]", p.text), (**t).clone(), p.writable, p.behind_ref)),
        Bx(t) => out.push(sub(format!("(*{})", p.text), (**t).clone(), p.writable, p.behind_ref)),
        Ref(_, m, t) => out.push(sub(format!("(*{})", p.text), (**t).clone(), *m && (p.writable || !p.behind_ref), true)),
        _ => {}
      }
    }
    out
  }

  /// Fills in index operands.
  fn finish(&mut self, mut p: PlaceC) -> PlaceC {
    while let Some(i) = p.text.find('§') {
      let n: usize = p.text[i + '§'.len_utf8()..].chars().next().unwrap().to_digit(10).unwrap() as usize;
      let idx = if self.t.chance(45) && !self.in_closure {
        let ints: Vec<PlaceC> = self.places().into_iter().filter(|q| q.ty == Int && q.root != p.root && !q.text.contains('§')).collect();
        if ints.is_empty() {
          "0".to_string()
        } else {
          let q = ints[self.t.below(ints.len())].clone();
          self.use_place(q.root, false);
          format!("({} & {}) as usize", q.text, n - 1)
        }
      } else {
        format!("{}", self.t.below(n))
      };
      p.text = format!("{}{}{}", &p.text[..i], idx, &p.text[i + '§'.len_utf8() + 1..]);
    }
    p
  }

  fn pick_place(&mut self, f: impl Fn(&PlaceC) -> bool) -> Option<PlaceC> {
    let c: Vec<PlaceC> = self.places().into_iter().filter(|p| f(p)).collect();
    if c.is_empty() {
      return None;
    }
    // Prefer recent variables, they are the interesting ones.
    let i = self.t.below(c.len() * 2);
    let i = if i >= c.len() { c.len() - 1 - (i - c.len()) / 2 } else { i };
    Some(c[i].clone())
  }

  fn read_place(&mut self, ty: &Ty) -> Option<(String, Vec<(usize, bool)>)> {
    let copy = self.copy(ty);
    let base = self.loop_base.unwrap_or(0);
    let want = ty.erase();
    let closure = self.in_closure;
    let p = self.pick_place(|p| p.ty == want && (copy || (!p.behind_ref && !p.text.contains('§') && p.root >= base && !closure)))?;
    if !copy && !self.usable(p.root, true) {
      return None;
    }
    let p = self.finish(p);
    self.use_place(p.root, !copy);
    let loans = if ty.has_ref() { self.vars[p.root].loans.clone() } else { vec![] };
    if !copy {
      self.vars[p.root].dead = true;
    }
    Some((p.text, loans))
  }

  // ---- expressions ----
  fn lit(&mut self) -> String {
    format!("{}", self.t.below(5))
  }

  /// A call of a closure or function pointer.
  fn call_value(&mut self, depth: usize) -> String {
    let closures = self.t.chance(70);
    let p = match closures.then(|| self.pick_place(|p| matches!(p.ty, Clo(_)))).flatten() {
      Some(p) => Some(p),
      None => self.pick_place(|p| matches!(p.ty, Clo(_) | FnP)),
    };
    let Some(p) = p else { return self.lit() };
    let depth = depth.max(1);
    if let Clo(m) = p.ty {
      if !self.usable(p.root, m) || self.in_closure {
        return self.lit();
      }
      self.use_place(p.root, m);
      self.locked.push((p.root, m));
    }
    let e = self.int(depth - 1);
    if let Clo(_) = p.ty {
      self.locked.pop();
      if self.traits && self.cfg.closures && self.t.chance(35) {
        return match self.t.below(4) {
          0 => format!("gdyn(&mut {}, {e})", p.text),
          1 => format!("gonce({e}, &mut {})", p.text),
          _ => format!("gcall(&mut {}, {e})", p.text),
        };
      }
    }
    format!("({})({e})", p.text)
  }

  pub fn int(&mut self, depth: usize) -> String {
    if self.budget == 0 || depth == 0 {
      if self.t.chance(70) && let Some((p, _)) = self.read_place(&Int) {
        return p;
      }
      return self.lit();
    }
    self.budget -= 1;
    match self.t.weighted(&[2, 9, 7, 3, 3, 4, 2, 1, 2, 4, 2]) {
      0 => self.lit(),
      1 => match self.read_place(&Int) {
        Some((p, _)) => p,
        None => self.lit(),
      },
      2 => {
        let a = self.int(depth - 1);
        let op = ["+", "-", "*", "^", "|", "&"][self.t.below(6)];
        let b = self.int(depth - 1);
        format!("({a} {op} {b})")
      }
      3 => self.if_expr(&Int, depth).0,
      4 => self.match_expr(&Int, depth).0,
      5 => match self.call(&Int, depth) {
        Some((s, _)) => s,
        None => self.int(depth - 1),
      },
      6 => {
        let b = self.bool(depth - 1);
        format!("({b} as i32)")
      }
      7 => {
        let a = self.int(depth - 1);
        format!("(-{a})")
      }
      8 if !self.in_closure && !self.cfg.pure => match self.pick_place(|p| p.ty == Int && p.writable) {
        Some(p) if self.usable(p.root, true) => {
          let p = self.finish(p);
          self.use_place(p.root, true);
          self.locked.push((p.root, true));
          let e = self.int(depth - 1);
          self.locked.pop();
          format!("std::mem::replace(&mut {}, {e})", p.text)
        }
        _ => self.lit(),
      },
      9 => self.call_value(depth),
      10 => match self.private_read() {
        Some(s) => s,
        None => match self.block_expr(&Int, depth) {
          Some(s) => s,
          None => self.lit(),
        },
      },
      _ => self.lit(),
    }
  }

  /// `*s.get0()` for an inaccessible field.
  fn private_read(&mut self) -> Option<String> {
    if self.cfg.pure {
      return None;
    }
    let structs = self.structs.clone();
    let p = self.pick_place(|p| matches!(&p.ty, Struct(s) if structs[*s].fields.iter().any(|f| !f.1 && f.0 == Int)))?;
    let Struct(s) = p.ty.clone() else { unreachable!() };
    let fs: Vec<usize> = (0..structs[s].fields.len()).filter(|j| !structs[s].fields[*j].1 && structs[s].fields[*j].0 == Int).collect();
    let j = fs[self.t.below(fs.len())];
    let p = self.finish(p);
    self.use_place(p.root, false);
    Some(format!("(*{}.get{j}())", p.text))
  }

  fn bool(&mut self, depth: usize) -> String {
    if self.budget == 0 || depth == 0 {
      if self.t.chance(70) && let Some((p, _)) = self.read_place(&Bool) {
        return p;
      }
      return ["false", "true"][self.t.below(2)].into();
    }
    self.budget -= 1;
    match self.t.weighted(&[1, 6, 6, 1, 2, 2, 2]) {
      0 => ["false", "true"][self.t.below(2)].into(),
      1 => match self.read_place(&Bool) {
        Some((p, _)) => p,
        None => self.bool(0),
      },
      2 => {
        let a = self.int(depth - 1);
        let op = ["<", ">", "==", "!=", "<=", ">="][self.t.below(6)];
        let b = self.int(depth - 1);
        format!("({a} {op} {b})")
      }
      3 => {
        let a = self.bool(depth - 1);
        format!("(!{a})")
      }
      4 => {
        let a = self.bool(depth - 1);
        let op = ["&&", "||", "^"][self.t.below(3)];
        let b = self.bool(depth - 1);
        format!("({a} {op} {b})")
      }
      5 => match self.pick_place(|p| matches!(p.ty, Opt(_) | Enum(_))) {
        Some(p) => {
          let p = self.finish(p);
          self.use_place(p.root, false);
          let pat = match &p.ty {
            Opt(_) => "Some(_)".to_string(),
            Enum(i) => {
              let d = self.enums[*i].clone();
              let v = self.t.below(d.variants.len());
              format!("{}::{} {{ .. }}", d.name, d.variants[v].0)
            }
            _ => unreachable!(),
          };
          format!("matches!({}, {pat})", p.text)
        }
        None => self.bool(depth - 1),
      },
      _ => match self.call(&Bool, depth) {
        Some((s, _)) => s,
        None => self.bool(depth - 1),
      },
    }
  }

  /// Runs `f` in a nested scope (variables pushed inside disappear).
  fn scoped<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
    let n = self.vars.len();
    let r = f(self);
    self.truncate(n);
    r
  }
  fn truncate(&mut self, n: usize) {
    self.vars.truncate(n);
    // A variable that borrowed from a variable that went away is unusable.
    for v in &mut self.vars {
      if v.loans.iter().any(|(r, _)| *r >= n) {
        v.dead = true;
      }
      v.loans.retain(|(r, _)| *r < n);
    }
  }

  fn block_expr(&mut self, ty: &Ty, depth: usize) -> Option<String> {
    if ty.has_ref() || self.in_closure {
      return None;
    }
    let mixing = std::mem::take(&mut self.mixing);
    let r = Some(self.scoped(|g| {
      let mut s = String::new();
      for _ in 0..1 + g.t.below(2) {
        s += &g.stmt(depth - 1);
      }
      let e = g.expr(ty, depth - 1).0;
      format!("{{ {}{e} }}", s.replace('\n', " "))
    }));
    self.mixing = mixing;
    r
  }

  fn if_expr(&mut self, ty: &Ty, depth: usize) -> (String, Vec<(usize, bool)>) {
    let c = self.bool(depth - 1);
    let (a, mut l) = self.scoped(|g| g.expr(ty, depth - 1));
    let (b, l2) = self.scoped(|g| g.expr(ty, depth - 1));
    l.extend(l2);
    (format!("(if {c} {{ {a} }} else {{ {b} }})"), l)
  }

  /// Arms over an enum / option / bool / int place; bindings are introduced as variables. Returns `match scrutinee {arms}`.
  fn match_with(&mut self, mut arm: impl FnMut(&mut Self) -> String) -> Option<String> {
    let by_value: Vec<bool> = self.enums.iter().map(|e| e.copy).collect();
    let pure = self.cfg.pure;
    let p = self.pick_place(|p| match &p.ty {
      Opt(t) => !pure || matches!(**t, Int | Bool),
      Enum(i) => !pure || by_value[*i],
      t => *t == Int,
    })?;
    if p.ty == Int {
      let p = self.finish(p);
      self.use_place(p.root, false);
      let mut s = format!("match {} {{ ", p.text);
      for i in 0..1 + self.t.below(2) {
        let guard = if self.t.chance(20) { format!(" if {}", self.bool(1)) } else { String::new() };
        let a = self.scoped(|g| arm(g));
        write!(s, "{i}{guard} => {a}, ").unwrap();
      }
      let n = self.fresh("n");
      let a = self.scoped(|g| {
        g.push(n.clone(), Int, false, vec![]);
        arm(g)
      });
      write!(s, "{n} => {a} }}").unwrap();
      return Some(s);
    }
    // 0: by shared reference, 1: by mutable reference, 2: by copy
    let payload_copy = self.copy(&p.ty);
    let mode = if pure { 2 } else if p.writable && self.usable(p.root, true) && !self.in_closure && self.t.chance(40) { 1 } else if payload_copy && self.t.chance(60) { 2 } else { 0 };
    let p = self.finish(p);
    self.use_place(p.root, mode == 1);
    let scrut = match mode {
      0 => format!("&{}", p.text),
      1 => format!("&mut {}", p.text),
      _ => p.text.clone(),
    };
    let variants: Vec<(String, Vec<Ty>, bool)> = match &p.ty {
      Opt(t) => vec![("None".into(), vec![], false), ("Some".into(), vec![(**t).clone()], false)],
      Enum(i) => self.enums[*i].variants.iter().map(|(n, p, named)| (format!("{}::{n}", self.enums[*i].name), p.clone(), *named)).collect(),
      _ => unreachable!(),
    };
    let wild = if self.t.chance(25) { Some(self.t.below(variants.len())) } else { None };
    let mut s = format!("match {scrut} {{ ");
    for (vi, (name, payload, named)) in variants.iter().enumerate() {
      if Some(vi) == wild {
        continue;
      }
      let mut binds = vec![];
      for t in payload {
        let n = self.fresh("b");
        binds.push((n, t.clone()));
      }
      let pat = if payload.is_empty() {
        name.clone()
      } else if *named {
        format!("{name} {{ {} }}", binds.iter().enumerate().map(|(j, (n, _))| format!("g{j}: {n}")).collect::<Vec<_>>().join(", "))
      } else {
        format!("{name}({})", binds.iter().map(|(n, _)| n.clone()).collect::<Vec<_>>().join(", "))
      };
      let pc = p.clone();
      let a = self.scoped(|g| {
        for (n, t) in &binds {
          match mode {
            0 => {
              let l = g.loans_of(&pc, false);
              g.push(n.clone(), Ref(0, false, Box::new(t.clone())), false, l);
            }
            1 => {
              let l = g.loans_of(&pc, true);
              g.push(n.clone(), Ref(0, true, Box::new(t.clone())), false, l);
            }
            _ => {
              g.push(n.clone(), t.clone(), false, vec![]);
            }
          }
        }
        arm(g)
      });
      write!(s, "{pat} => {a}, ").unwrap();
    }
    if wild.is_some() {
      let a = self.scoped(|g| arm(g));
      write!(s, "_ => {a}, ").unwrap();
    }
    s += "}";
    Some(s)
  }

  fn match_expr(&mut self, ty: &Ty, depth: usize) -> (String, Vec<(usize, bool)>) {
    let ty2 = ty.clone();
    let mut loans = vec![];
    match self.match_with(|g| {
      let (e, l) = g.expr(&ty2, depth - 1);
      loans.extend(l);
      format!("{{ {e} }}")
    }) {
      Some(s) => (format!("({s})"), loans),
      None => self.expr(ty, depth - 1),
    }
  }

  /// A call to a helper returning `ty`.
  fn call(&mut self, ty: &Ty, depth: usize) -> Option<(String, Vec<(usize, bool)>)> {
    if !self.cfg.calls || depth == 0 || self.in_closure {
      return None;
    }
    let want = ty.erase();
    if self.traits && want == Int && self.t.chance(25) {
      let (r, _) = self.ref_expr(true, &Int, depth - 1)?;
      self.locked.push((usize::MAX, true));
      self.locked.pop();
      let v = self.lit();
      return Some((
        match self.t.weighted(&[4, 2, 1, 1]) {
          0 => format!("gput({r}, {v})"),
          1 => format!("gput(&mut W0 {{ w: {r} }}, {v})"),
          2 => format!("gown(W0 {{ w: {r} }}, {v})"),
          _ => format!("gdput(&mut W0 {{ w: {r} }}, {v})"),
        },
        vec![],
      ));
    }
    if self.traits && self.t.chance(10) && (!want.has_ref() || !self.cfg.precise) {
      let (e, l) = self.expr(ty, depth - 1);
      return Some((format!("gid({e})"), l));
    }
    let c: Vec<Sig> = self.sigs.iter().filter(|s| s.ret.erase() == want).cloned().collect();
    if c.is_empty() {
      return None;
    }
    let sig = c[self.t.below(c.len())].clone();
    self.call_sig(&sig, depth)
  }

  fn call_sig(&mut self, sig: &Sig, depth: usize) -> Option<(String, Vec<(usize, bool)>)> {
    let mark = self.locked.len();
    let mut args = vec![];
    let mut loans = vec![];
    for p in &sig.params {
      let Some((e, l)) = self.try_expr(p, depth.saturating_sub(1)) else {
        self.locked.truncate(mark);
        return None;
      };
      // Two-phase evaluation: later arguments must not touch what earlier ones borrow.
      self.locked.extend(l.iter().copied());
      if p.has_ref() {
        loans.extend(l);
      }
      args.push(e);
    }
    self.locked.truncate(mark);
    let mut rs = vec![];
    sig.ret.regions(&mut rs);
    if rs.is_empty() {
      loans.clear();
    }
    Some((format!("{}({})", sig.name, args.join(", ")), loans))
  }

  fn ref_expr(&mut self, m: bool, inner: &Ty, depth: usize) -> Option<(String, Vec<(usize, bool)>)> {
    let want = inner.erase();
    if depth > 0 && self.t.chance(12) {
      let c = self.bool(depth - 1);
      let (a, mut l) = self.ref_expr(m, inner, depth - 1)?;
      let (b, l2) = self.ref_expr(m, inner, depth - 1)?;
      l.extend(l2);
      return Some((format!("(if {c} {{ {a} }} else {{ {b} }})"), l));
    }
    if depth > 0 && self.t.chance(20) && let Some(r) = self.call(&Ref(0, m, Box::new(want.clone())), depth) {
      return Some(r);
    }
    if m && self.traits && depth > 0 && self.t.chance(8) {
      let c = self.bool(0);
      let (a, l) = self.ref_expr(true, inner, 0)?;
      let n = self.locked.len();
      self.locked.extend(l.iter().copied());
      let r = self.ref_expr(true, inner, 0);
      self.locked.truncate(n);
      let (b, l2) = r?;
      let mut l = l;
      l.extend(l2);
      return Some((format!("gsel({c}, {a}, {b})"), l));
    }
    // Private fields through accessors.
    if self.t.chance(20) {
      let structs = self.structs.clone();
      let w = want.clone();
      if let Some(p) = self.pick_place(|p| (p.writable || !m) && matches!(&p.ty, Struct(s) if structs[*s].fields.iter().any(|f| !f.1 && f.0 == w)))
        && self.usable(p.root, m)
        && !self.in_closure
      {
        let Struct(s) = p.ty.clone() else { unreachable!() };
        let j = (0..structs[s].fields.len()).find(|j| !structs[s].fields[*j].1 && structs[s].fields[*j].0 == want).unwrap();
        let p = self.finish(p);
        self.use_place(p.root, m);
        let l = self.loans_of(&p, m);
        return Some((format!("{}.{}{j}()", p.text, if m { "mut" } else { "get" }), l));
      }
    }
    if self.in_closure && m {
      return None;
    }
    let worlds: Vec<u8> = self.vars.iter().map(|v| v.world).collect();
    let (w, only_own) = (self.world, self.cfg.worlds);
    let Some(p) = self.pick_place(|p| p.ty == want && (p.writable || !m) && (!only_own || worlds[p.root] == w)) else {
      if m || want.has_ref() {
        return None;
      }
      let e = self.expr(inner, depth.saturating_sub(1)).0;
      return Some((format!("&{e}"), vec![]));
    };
    if !self.usable(p.root, m) {
      return None;
    }
    let p = self.finish(p);
    self.use_place(p.root, m);
    let l = self.loans_of(&p, m);
    Some((format!("&{}{}", if m { "mut " } else { "" }, p.text), l))
  }

  fn expr(&mut self, ty: &Ty, depth: usize) -> (String, Vec<(usize, bool)>) {
    self.try_expr(ty, depth).unwrap_or_else(|| ("panic!()".into(), vec![]))
  }

  fn try_expr(&mut self, ty: &Ty, depth: usize) -> Option<(String, Vec<(usize, bool)>)> {
    match ty {
      Int => return Some((self.int(depth), vec![])),
      Bool => return Some((self.bool(depth), vec![])),
      Unit => return Some(("()".into(), vec![])),
      Ref(_, m, inner) => {
        // Use an existing reference, or borrow again.
        if !self.in_closure && self.t.chance(25) && let Some(r) = self.read_place(ty) {
          return Some(r);
        }
        return self.ref_expr(*m, inner, depth);
      }
      FnP => {
        if !self.cfg.fn_ptrs {
          return None;
        }
        if self.t.chance(60) && let Some(p) = self.read_place(&FnP) {
          return Some(p);
        }
        if depth > 0 && self.t.chance(40) {
          let c = self.bool(depth - 1);
          return Some((format!("(if {c} {{ p0 as fn(i32) -> i32 }} else {{ p1 }})"), vec![]));
        }
        return Some((format!("(p{} as fn(i32) -> i32)", self.t.below(2)), vec![]));
      }
      Clo(_) => return None,
      _ => {}
    }
    if ty.has_ref() && !self.in_closure && self.t.chance(60) && let Some(r) = self.read_place(ty) {
      return Some(r);
    }
    if depth > 0 && self.budget > 0 {
      self.budget -= 1;
      match self.t.weighted(&[6, 6, 2, 1, 3]) {
        1 => {
          if let Some(r) = self.read_place(ty) {
            return Some(r);
          }
        }
        2 if !ty.has_ref() => return Some(self.if_expr(ty, depth)),
        3 if !ty.has_ref() => return Some(self.match_expr(ty, depth)),
        4 => {
          if let Some(r) = self.call(ty, depth) {
            return Some(r);
          }
        }
        _ => {}
      }
    }
    let d = depth.saturating_sub(1);
    let mut loans = vec![];
    let mark = self.locked.len();
    let mut part = |g: &mut Self, t: &Ty| -> Option<String> {
      let (e, l) = g.try_expr(t, d)?;
      g.locked.extend(l.iter().copied());
      loans.extend(l);
      Some(e)
    };
    let text = (|| {
      Some(match ty {
        Tup(ts) => {
          let mut v = vec![];
          for t in ts {
            v.push(part(self, t)? + ",");
          }
          format!("({})", v.join(" "))
        }
        Struct(i) => {
          let s = self.structs[*i].clone();
          if !s.private && !s.tuple && s.fields.len() > 1 && d > 0 && self.t.chance(15) && !self.in_closure {
            let base = self.pick_place(|p| p.ty == Struct(*i) && p.whole);
            if let Some(b) = base
              && s.fields[1..].iter().all(|(t, _)| self.copy(t))
            {
              self.use_place(b.root, false);
              let e = part(self, &s.fields[0].0)?;
              return Some(format!("{} {{ f0: {e}, ..{} }}", s.name, b.text));
            }
          }
          let mut v = vec![];
          for (j, (t, _)) in s.fields.iter().enumerate() {
            let e = part(self, t)?;
            v.push(if s.private || s.tuple { e } else { format!("f{j}: {e}") });
          }
          if s.private {
            format!("{}::new({})", s.name, v.join(", "))
          } else if s.tuple {
            format!("{}({})", s.name, v.join(", "))
          } else {
            if self.t.chance(30) {
              v.reverse();
            }
            format!("{} {{ {} }}", s.name, v.join(", "))
          }
        }
        LStruct(i, _) => {
          let s = self.lstructs[*i].clone();
          let mut v = vec![];
          for (j, (t, _)) in s.fields.iter().enumerate() {
            v.push(format!("f{j}: {}", part(self, &t.erase())?));
          }
          format!("{} {{ {} }}", s.name, v.join(", "))
        }
        Enum(i) => {
          let e = self.enums[*i].clone();
          let (n, p, named) = e.variants[self.t.below(e.variants.len())].clone();
          let mut v = vec![];
          for (j, t) in p.iter().enumerate() {
            let x = part(self, t)?;
            v.push(if named { format!("g{j}: {x}") } else { x });
          }
          if p.is_empty() {
            format!("{}::{n}", e.name)
          } else if named {
            format!("{}::{n} {{ {} }}", e.name, v.join(", "))
          } else {
            format!("{}::{n}({})", e.name, v.join(", "))
          }
        }
        Opt(t) => {
          if self.t.chance(75) {
            format!("Some({})", part(self, t)?)
          } else {
            format!("None::<{}>", self.show(&t.erase()))
          }
        }
        Arr(t, n) => {
          if self.copy(t) && self.t.chance(15) {
            format!("[{}; {n}]", part(self, t)?)
          } else {
            let mut v = vec![];
            for _ in 0..*n {
              v.push(part(self, t)?);
            }
            format!("[{}]", v.join(", "))
          }
        }
        Bx(t) => format!("Box::new({})", part(self, t)?),
        _ => return None,
      })
    })();
    self.locked.truncate(mark);
    Some((text?, loans))
  }

  // ---- statements ----
  fn tag(&self) -> &'static str {
    ["", " /*A*/", " /*B*/"][self.world as usize]
  }
  fn tagged(&self, s: String) -> String {
    if self.world == 0 {
      return s;
    }
    s.lines().map(|l| if l.contains("/*A*/") || l.contains("/*B*/") { format!("{l}\n") } else { format!("{l}{}\n", self.tag()) }).collect()
  }
  /// Within a statement of A, a statement of B.
  fn nested_world(&mut self, depth: usize) -> Option<String> {
    if self.world != 1 || !self.mixing || self.cfg.apart || self.in_closure || !self.t.chance(30) {
      return None;
    }
    let ld = std::mem::take(&mut self.loop_depth);
    self.world = 2;
    let s = self.stmt(depth);
    let s = self.tagged(s);
    self.world = 1;
    self.loop_depth = ld;
    Some(s)
  }
  fn block(&mut self, depth: usize, max: usize) -> String {
    self.scoped(|g| {
      let mut s = String::new();
      let n = 1 + g.t.below(max);
      for _ in 0..n {
        let x = match g.nested_world(depth) {
          Some(x) => x,
          None => {
            let x = g.stmt(depth);
            g.tagged(x)
          }
        };
        s += &x;
      }
      indent(&s)
    })
  }

  fn assign(&mut self, depth: usize) -> Option<String> {
    let base = self.in_closure;
    let p = self.pick_place(|p| p.writable && !matches!(p.ty, Clo(_)) && (!base || p.ty == Int))?;
    if !self.usable(p.root, true) {
      return None;
    }
    if p.ty == Int && self.t.chance(30) {
      let p = self.finish(p);
      let e = self.int(depth.saturating_sub(1));
      self.use_place(p.root, true);
      return Some(format!("{} {}= {e};\n", p.text, ["+", "-", "*", "^"][self.t.below(4)]));
    }
    let p = self.finish(p);
    let ty = p.ty.clone();
    let (e, l) = self.try_expr(&ty, depth)?;
    if self.vars[p.root].dead {
      // Moved by the right-hand side
      if p.whole && !self.in_closure {
        self.vars[p.root].dead = false;
      } else {
        return None;
      }
    }
    self.use_place(p.root, true);
    if ty.has_ref() {
      let root = p.root;
      self.vars[root].loans.extend(l.into_iter().filter(|x| x.0 != root));
    }
    Some(format!("{} = {e};\n", p.text))
  }

  fn local_ty(&mut self) -> Ty {
    if self.cfg.refs && self.t.chance(40) {
      if !self.lstructs.is_empty() && self.t.chance(25) {
        return LStruct(self.t.below(self.lstructs.len()), 0);
      }
      let m = self.t.chance(65);
      // Borrow something that exists.
      let nested = self.t.chance(12);
      if let Some(p) = self.pick_place(|p| (nested || !p.ty.has_ref()) && !matches!(p.ty, Clo(_)) && (p.writable || !m)) {
        let x = Ref(0, m, Box::new(p.ty));
        return match self.t.below(12) {
          0 => Opt(Box::new(x)),
          1 => Tup(vec![x, Int]),
          2 if !self.cfg.precise => {
            let y = self.pick_place(|p| !p.ty.has_ref()).map(|p| Ref(0, false, Box::new(p.ty))).unwrap_or(Int);
            Tup(vec![x, y])
          }
          _ => x,
        };
      }
    }
    if self.cfg.fn_ptrs && self.t.chance(5) {
      return FnP;
    }
    self.data_ty(2)
  }

  fn let_stmt(&mut self, depth: usize) -> String {
    let ty = self.local_ty();
    let Some((e, l)) = self.try_expr(&ty, depth) else {
      let n = self.fresh("x");
      let e = self.int(depth);
      self.push(n.clone(), Int, true, vec![]);
      return format!("let mut {n} = {e};\n");
    };
    // Destructure sometimes.
    if let Tup(ts) = &ty
      && self.t.chance(35)
    {
      let mut pats = vec![];
      let mut names = vec![];
      for t in ts.clone() {
        let n = self.fresh("d");
        pats.push(format!("mut {n},"));
        names.push((n, t));
      }
      for (n, t) in names {
        let l = if t.has_ref() { l.clone() } else { vec![] };
        self.push(n, t, true, l);
      }
      return format!("let ({}) = {e};\n", pats.join(" "));
    }
    if let Struct(i) = &ty
      && !self.structs[*i].private
      && self.t.chance(25)
    {
      let d = self.structs[*i].clone();
      let mut pats = vec![];
      let mut names = vec![];
      for (j, (t, _)) in d.fields.iter().enumerate() {
        let n = self.fresh("d");
        pats.push(if d.tuple { format!("mut {n}") } else { format!("f{j}: mut {n}") });
        names.push((n, t.clone()));
      }
      for (n, t) in names {
        self.push(n, t, true, vec![]);
      }
      return if d.tuple { format!("let {}({}) = {e};\n", d.name, pats.join(", ")) } else { format!("let {} {{ {} }} = {e};\n", d.name, pats.join(", ")) };
    }
    if let Arr(t, n) = &ty
      && self.cfg.slices
      && self.copy(t)
      && self.t.chance(20)
    {
      let (t, n) = ((**t).clone(), *n);
      let a = self.fresh("d");
      let b = self.fresh("d");
      let pat = match self.t.below(3) {
        0 if n == 2 => format!("[mut {a}, mut {b}]"),
        1 => format!("[.., mut {a}, mut {b}]"),
        _ => format!("[mut {a}, .., mut {b}]"),
      };
      self.push(a, t.clone(), true, vec![]);
      self.push(b, t, true, vec![]);
      return format!("let {pat} = {e};\n");
    }
    let n = self.fresh("x");
    self.push(n.clone(), ty.clone(), true, l);
    format!("let mut {n} = {e};\n")
  }

  fn closure(&mut self, depth: usize) -> Option<String> {
    if !self.cfg.closures || self.in_closure {
      return None;
    }
    let n = self.fresh("c");
    let a = self.fresh("a");
    let mv = self.t.chance(35) && !self.cfg.worlds;
    let saved_loop = self.loop_base;
    let saved_touch = self.touch.replace(vec![]);
    self.in_closure = true;
    let (body, mutating) = self.scoped(|g| {
      g.push(a.clone(), Int, false, vec![]);
      let mut s = String::new();
      let mut mutating = false;
      if g.t.chance(60) {
        if let Some(x) = g.assign(1) {
          s += &x.replace('\n', " ");
          mutating = true;
        }
      }
      let e = g.int(depth.min(2));
      (format!("{s}{e}"), mutating)
    });
    self.in_closure = false;
    self.loop_base = saved_loop;
    let touched = std::mem::replace(&mut self.touch, saved_touch).unwrap_or_default();
    let nv = self.vars.len();
    let mut loans: Vec<(usize, bool)> = vec![];
    for (r, m) in touched {
      if r < nv {
        if let Some(t) = &mut self.touch {
          t.push((r, m));
        }
        loans.push((r, m));
        loans.extend(self.vars[r].loans.clone());
        if mv && !self.copy(&self.vars[r].ty.clone()) {
          self.vars[r].dead = true;
        }
      }
    }
    self.push(n.clone(), Clo(mutating), true, loans);
    let mut s = format!("let mut {n} = {}|{a}: i32| -> i32 {{ {body} }};\n", if mv { "move " } else { "" });
    if self.t.chance(40) {
      s += &self.stmt(0);
    }
    if self.t.chance(60) {
      let e = self.call_value(1);
      let x = self.fresh("x");
      self.push(x.clone(), Int, true, vec![]);
      s += &format!("let mut {x} = {e};\n");
    }
    Some(s)
  }

  fn loop_stmt(&mut self, depth: usize) -> String {
    let saved = self.loop_base;
    self.loop_base = Some(self.vars.len());
    self.loop_depth += 1;
    let k = self.fresh("k");
    let s = match self.t.below(3) {
      0 if !self.cfg.pure => {
        let n = if self.t.chance(50) { format!("({} & 3)", self.int(1)) } else { "3".into() };
        let b = self.scoped(|g| {
          g.push(k.clone(), Int, false, vec![]);
          g.block(depth - 1, 3)
        });
        format!("for {k} in 0..{n} {{\n{b}}}\n")
      }
      1 => {
        let c = self.bool(2);
        let b = self.scoped(|g| {
          g.push(k.clone(), Int, false, vec![]);
          g.block(depth - 1, 3)
        });
        format!("let mut {k} = 0;\nwhile {k} < 3 && {c} {{\n  {k} += 1;\n{b}}}\n")
      }
      _ => {
        let b = self.scoped(|g| {
          g.push(k.clone(), Int, false, vec![]);
          g.block(depth - 1, 3)
        });
        let c = self.bool(1);
        let b2 = self.block(depth - 1, 2);
        format!("let mut {k} = 0;\nloop {{\n  {k} += 1;\n{b}  if {k} > 2 || {c} {{ break; }}\n{b2}}}\n")
      }
    };
    self.loop_depth -= 1;
    self.loop_base = saved;
    s
  }

  fn stmt(&mut self, depth: usize) -> String {
    if self.budget == 0 {
      return String::new();
    }
    self.budget -= 1;
    let fallback = |g: &mut Self| g.let_stmt(depth.min(1));
    if depth == 0 {
      return match self.t.below(3) {
        0 => self.let_stmt(1),
        _ => self.assign(1).unwrap_or_else(|| fallback(self)),
      };
    }
    match self.t.weighted(&[8, 9, 5, 4, 3, 4, 2, 2, 2, 3, 1, 2]) {
      0 => self.let_stmt(depth),
      1 => self.assign(depth).unwrap_or_else(|| fallback(self)),
      2 => {
        let c = self.bool(2);
        let a = self.block(depth - 1, 3);
        if self.t.chance(60) {
          let b = self.block(depth - 1, 3);
          format!("if {c} {{\n{a}}} else {{\n{b}}}\n")
        } else {
          format!("if {c} {{\n{a}}}\n")
        }
      }
      3 => {
        let mut first = true;
        let _ = &mut first;
        match self.match_with(|g| format!("{{\n{}}}", g.block(depth - 1, 2))) {
          Some(s) => format!("{s}\n"),
          None => fallback(self),
        }
      }
      4 if self.cfg.loops && self.loop_depth < 2 => self.loop_stmt(depth),
      5 if self.cfg.calls => {
        // A call for its effects.
        let c: Vec<Sig> = self.sigs.iter().filter(|s| s.params.iter().any(|p| matches!(p, Ref(_, true, _) | LStruct(..)))).cloned().collect();
        if c.is_empty() {
          return self.swap().unwrap_or_else(|| fallback(self));
        }
        let sig = c[self.t.below(c.len())].clone();
        match self.call_sig(&sig, depth) {
          Some((s, l)) => {
            if sig.ret == Unit || self.t.chance(30) {
              format!("{s};\n")
            } else {
              let n = self.fresh("x");
              self.push(n.clone(), sig.ret.clone(), true, l);
              format!("let mut {n} = {s};\n")
            }
          }
          None => fallback(self),
        }
      }
      6 => self.closure(depth).unwrap_or_else(|| fallback(self)),
      7 if self.cfg.early_return && !self.in_closure => {
        let ret = self.ret.clone();
        if ret.has_ref() {
          return fallback(self);
        }
        let c = self.bool(2);
        // Whatever happens to borrows on the returning path does not matter afterwards.
        let saved = self.vars.clone();
        let (e, _) = self.expr(&ret, 1);
        self.vars = saved;
        format!("if {c} {{ return {e}; }}\n")
      }
      8 if self.loop_depth > 0 && !self.in_closure => {
        let c = self.bool(2);
        format!("if {c} {{ {}; }}\n", ["break", "continue"][self.t.below(2)])
      }
      9 if !self.cfg.pure => {
        // if let
        let m = self.t.chance(50);
        match self.pick_place(|p| matches!(p.ty, Opt(_)) && (p.writable || !m)) {
          Some(p) if self.usable(p.root, m) && !self.in_closure => {
            let Opt(t) = p.ty.clone() else { unreachable!() };
            let p = self.finish(p);
            self.use_place(p.root, m);
            let l = self.loans_of(&p, m);
            let n = self.fresh("o");
            let a = self.scoped(|g| {
              g.push(n.clone(), Ref(0, m, t), false, l);
              g.block(depth - 1, 3)
            });
            let b = if self.t.chance(40) { format!(" else {{\n{}}}", self.block(depth - 1, 2)) } else { String::new() };
            format!("if let Some({n}) = &{}{} {{\n{a}}}{b}\n", if m { "mut " } else { "" }, p.text)
          }
          _ => fallback(self),
        }
      }
      10 => self.swap().unwrap_or_else(|| fallback(self)),
      11 => {
        // A method call on a private struct.
        let structs = self.structs.clone();
        match self.pick_place(|p| p.writable && matches!(&p.ty, Struct(s) if structs[*s].private)) {
          Some(p) if self.usable(p.root, true) && !self.in_closure => {
            let Struct(s) = p.ty.clone() else { unreachable!() };
            let j = (0..structs[s].fields.len()).find(|j| !structs[s].fields[*j].1).unwrap();
            let p = self.finish(p);
            self.use_place(p.root, true);
            self.locked.push((p.root, true));
            let e = self.try_expr(&structs[s].fields[j].0, depth - 1);
            self.locked.pop();
            match e {
              Some((e, _)) => format!("{}.set{j}({e});\n", p.text),
              None => fallback(self),
            }
          }
          _ => fallback(self),
        }
      }
      _ => fallback(self),
    }
  }

  fn swap(&mut self) -> Option<String> {
    if self.in_closure || self.cfg.pure {
      return None;
    }
    let a = self.pick_place(|p| p.writable && !matches!(p.ty, Clo(_)) && !p.ty.has_ref())?;
    if !self.usable(a.root, true) {
      return None;
    }
    let ty = a.ty.clone();
    let b = self.pick_place(|p| p.writable && p.ty == ty && p.root != a.root)?;
    if !self.usable(b.root, true) || self.vars[b.root].loans.iter().any(|l| l.0 == a.root) || self.vars[a.root].loans.iter().any(|l| l.0 == b.root) {
      return None;
    }
    let a = self.finish(a);
    let b = self.finish(b);
    self.use_place(a.root, true);
    self.use_place(b.root, true);
    Some(format!("std::mem::swap(&mut {}, &mut {});\n", a.text, b.text))
  }

  // ---- functions ----
  fn param_ty(&mut self) -> Ty {
    if self.cfg.refs && self.t.chance(50) {
      self.regions += 1;
      let r = if self.cfg.precise { self.regions } else { 1 + self.t.below(2) as u8 };
      if !self.lstructs.is_empty() && self.t.chance(30) {
        return LStruct(self.t.below(self.lstructs.len()), r);
      }
      if self.t.chance(8) && !self.cfg.precise {
        let q = 1 + self.t.below(2) as u8;
        let (m, m2) = (self.t.chance(75), self.t.chance(75));
        let inner = if !self.lstructs.is_empty() && self.t.chance(40) { LStruct(self.t.below(self.lstructs.len()), q) } else { Ref(q, m2, Box::new(Int)) };
        return Ref(r, m, Box::new(inner));
      }
      if self.t.chance(12) {
        let inner = if self.t.chance(60) { Int } else { self.data_ty(1) };
        let inner = if contains_box(&inner, self) { Int } else { inner };
        let m = self.t.chance(65);
        let x = Ref(r, m, Box::new(inner));
        return match self.t.below(3) {
          0 => Opt(Box::new(x)),
          1 => Tup(vec![x, Int]),
          _ => Tup(vec![Int, x]),
        };
      }
      let inner = if self.t.chance(50) { Int } else { self.data_ty(2) };
      if !contains_box(&inner, self) {
        return Ref(r, self.t.chance(65), Box::new(inner));
      }
      return Ref(r, self.t.chance(65), Box::new(Int));
    }
    if self.cfg.fn_ptrs && self.t.chance(5) {
      return FnP;
    }
    self.data_ty(2)
  }

  /// An expression of a type mentioning a named region, made from parameters only.
  fn ret_ref(&mut self, ty: &Ty) -> Option<String> {
    let Ref(r, m, inner) = ty else { return None };
    let want = inner.erase();
    let regions: Vec<u8> = self.vars.iter().map(|v| v.region).collect();
    let (r, m) = (*r, *m);
    let cands: Vec<PlaceC> = self.places().into_iter().filter(|p| p.ty == want && regions[p.root] == r && p.behind_ref && (p.writable || !m)).collect();
    if cands.is_empty() {
      return None;
    }
    let p = cands[self.t.below(cands.len())].clone();
    let p = self.finish(p);
    Some(format!("&{}{}", if m { "mut " } else { "" }, p.text))
  }

  /// The parts of a value, each on its own.
  fn parts(&mut self, text: &str, ty: &Ty, depth: usize, out: &mut Vec<(String, Ty)>) {
    let fields: Vec<(String, Ty)> = match ty {
      Tup(ts) => ts.iter().enumerate().map(|(i, t)| (format!("{i}"), t.clone())).collect(),
      Struct(s) => {
        let d = &self.structs[*s];
        if d.fields.iter().all(|f| f.1) { d.fields.iter().enumerate().map(|(i, (t, _))| (if d.tuple { format!("{i}") } else { format!("f{i}") }, t.clone())).collect() } else { vec![] }
      }
      _ => vec![],
    };
    if fields.is_empty() || (depth > 0 && !self.t.chance(50)) {
      out.push((text.into(), ty.clone()));
      return;
    }
    for (f, t) in fields {
      self.parts(&format!("{text}.{f}"), &t, depth + 1, out);
    }
  }

  /// A value some of whose parts belong to A and the others to B; its own declaration belongs to neither.
  fn split_value(&mut self, ps: &mut Vec<String>, text: &mut String) {
    let fs: Vec<Ty> = (0..2 + self.t.below(2)).map(|_| self.data_ty(2)).collect();
    let wide: Vec<usize> = (0..self.structs.len()).filter(|i| self.structs[*i].fields.len() > 1).collect();
    let ty = if !wide.is_empty() && self.t.chance(50) { Struct(wide[self.t.below(wide.len())]) } else { Tup(fs) };
    let s = self.fresh("s");
    let mut parts = vec![];
    let kind = if self.cfg.refs { self.t.below(8) } else { [0, 4][self.t.below(2)] };
    let mut init = |g: &mut Self, ty: &Ty| {
      let vars = std::mem::take(&mut g.vars);
      let e = g.expr(ty, 1).0;
      g.vars = vars;
      e
    };
    let mut behind = true;
    match kind {
      4 => {
        ps.push(format!("mut {s}: {}", self.show(&ty)));
        self.parts(&s, &ty, 0, &mut parts);
        behind = false;
      }
      5 => {
        self.regions += 1;
        ps.push(format!("{s}: {}", self.show(&Ref(self.regions, true, Box::new(ty.clone())))));
        self.parts(&s, &ty, 0, &mut parts);
      }
      _ => {
        let e = init(self, &ty);
        writeln!(text, "let mut {s}: {} = {e};", self.show(&ty)).unwrap();
        let q = format!("{s}q");
        match kind {
          0 => {
            self.parts(&s, &ty, 0, &mut parts);
            behind = false;
          }
          1 | 2 | 3 => {
            writeln!(text, "let {q} = &mut {s};").unwrap();
            let r = format!("{s}r");
            match kind {
              1 => self.parts(&q, &ty, 0, &mut parts),
              2 => {
                writeln!(text, "let {r} = &mut *{q};").unwrap();
                self.parts(&r, &ty, 0, &mut parts);
              }
              _ => {
                // Not `&mut q`: what is behind two references at once is known to be treated as a whole.
                writeln!(text, "let {r} = {q};").unwrap();
                self.parts(&r, &ty, 0, &mut parts);
              }
            }
          }
          _ => {
            let mut inner = vec![];
            self.parts(&s, &ty, 0, &mut inner);
            for (i, (p, t)) in inner.iter().enumerate() {
              let t = Ref(0, true, Box::new(t.clone()));
              if kind == 6 {
                writeln!(text, "let mut {q}{i} = &mut {p};").unwrap();
                parts.push((format!("{q}{i}"), t));
              } else {
                parts.push((format!("{q}.{i}"), t));
              }
            }
            if kind == 7 {
              writeln!(text, "let mut {q} = ({});", inner.iter().map(|(p, _)| format!("&mut {p},")).collect::<Vec<_>>().join(" ")).unwrap();
            }
            behind = false;
          }
        }
      }
    }
    for (i, (p, t)) in parts.into_iter().enumerate() {
      self.world = if i < 2 { 1 + i as u8 } else { 1 + self.t.below(2) as u8 };
      let k = self.push(p, t, true, vec![]);
      self.vars[k].behind = behind;
    }
    self.world = 0;
  }

  fn function(&mut self, name: &str, helper: bool) -> String {
    self.vars.clear();
    self.locked.clear();
    self.touch = None;
    self.loop_base = None;
    self.loop_depth = 0;
    self.counter = 0;
    self.in_closure = false;
    self.budget = if helper { 22 } else { 70 };
    self.regions = 0;
    let worlds = self.cfg.worlds && !helper;
    self.world = 0;
    let np = if worlds { 2 + self.t.below(3) } else { 1 + self.t.below(3) };
    let mut params = vec![];
    for _ in 0..np {
      params.push(self.param_ty());
    }
    // Return type
    let mut ret = match self.t.weighted(&[5, 2, 3, 3, 1]) {
      0 => Int,
      1 => Bool,
      2 => self.data_ty(2),
      3 => {
        // A reference derived from a parameter
        let c: Vec<Ty> = params.iter().filter(|p| matches!(p, Ref(..))).cloned().collect();
        if c.is_empty() {
          Int
        } else {
          let Ref(r, m, inner) = c[self.t.below(c.len())].clone() else { unreachable!() };
          let t = match &*inner {
            Tup(ts) if self.t.chance(50) => ts[self.t.below(ts.len())].clone(),
            t => t.clone(),
          };
          Ref(r, m && self.t.chance(80), Box::new(t))
        }
      }
      _ => Unit,
    };
    if worlds {
      ret = Int;
    }
    let mut ps: Vec<String> = vec![];
    let mut neutral = String::new();
    if worlds {
      while self.t.chance(45) && ps.len() < 3 {
        self.split_value(&mut ps, &mut neutral);
      }
    }
    for (i, p) in params.iter().enumerate() {
      let n = format!("v{i}");
      if worlds {
        if let Some(s) = ps.last_mut() {
          s.push_str(self.tag());
        }
        self.world = 1 + (i % 2) as u8;
      }
      // Parameter patterns
      if let Tup(ts) = p
        && self.t.chance(20)
      {
        let mut pats = vec![];
        for (j, t) in ts.iter().enumerate() {
          pats.push(format!("mut v{i}{j},"));
          self.push(format!("v{i}{j}"), t.clone(), true, vec![]);
        }
        ps.push(format!("({}): {}", pats.join(" "), self.show(p)));
        continue;
      }
      let k = self.push(n.clone(), p.clone(), true, vec![]);
      let mut rs = vec![];
      p.regions(&mut rs);
      if let Some(r) = rs.first() {
        self.vars[k].region = *r;
      }
      ps.push(format!("mut {n}: {}", self.show(p)));
    }
    if worlds {
      ps.last_mut().unwrap().push_str(self.tag());
    }
    self.ret = ret.clone();
    let n = if helper { 1 + self.t.below(3) } else { 1 + self.t.below(self.cfg.stmts) };
    let d = if helper { 2 } else { self.cfg.depth };
    let mut body = neutral;
    for _ in 0..n {
      if worlds {
        self.world = 1 + self.t.below(2) as u8;
        self.mixing = true;
      }
      let s = self.stmt(d);
      body += &self.tagged(s);
      self.mixing = false;
    }
    if worlds {
      self.world = 1;
    }
    self.budget = self.budget.max(6);
    let e = if ret.has_ref() {
      // Forget local borrows of the parameters: NLL accepts whatever is not live.
      match self.ret_ref(&ret) {
        Some(e) => {
          if self.t.chance(40) && let Some(e2) = self.ret_ref(&ret) {
            let c = self.bool(1);
            format!("if {c} {{ {e} }} else {{ {e2} }}")
          } else {
            e
          }
        }
        None => {
          ret = Unit;
          "()".into()
        }
      }
    } else if ret == Unit {
      "()".into()
    } else {
      match self.try_expr(&ret, 3) {
        Some((e, _)) => e,
        None => {
          ret = Unit;
          "()".into()
        }
      }
    };
    body += &self.tagged(e);
    self.world = 0;
    let mut rs = vec![];
    for p in &params {
      p.regions(&mut rs);
    }
    rs.sort();
    rs.dedup();
    let lts = if rs.is_empty() { String::new() } else { format!("<{}>", rs.iter().map(|r| format!("'{}", region(*r))).collect::<Vec<_>>().join(", ")) };
    let rt = if ret == Unit { String::new() } else { format!(" -> {}", self.show(&ret)) };
    if helper {
      self.sigs.push(Sig { name: name.into(), params, ret });
    }
    format!("pub fn {name}{lts}({}){rt} {{\n{}}}\n", ps.join(if worlds { ",\n  " } else { ", " }), indent(&body))
  }

  pub fn unit(&mut self) -> String {
    let mut s = if self.cfg.wrap { "// wrap\n".to_string() } else { String::new() };
    s += &self.decls();
    if self.cfg.calls {
      for i in 0..1 + self.t.below(3) {
        s += &self.function(&format!("h{i}"), true);
      }
    }
    for i in 0..self.cfg.fns {
      s += &self.function(&format!("t{i}"), false);
    }
    s
  }
}

fn contains_box(t: &Ty, g: &Gen) -> bool {
  match t {
    Bx(_) => true,
    Tup(ts) => ts.iter().any(|t| contains_box(t, g)),
    Opt(t) | Arr(t, _) => contains_box(t, g),
    Struct(i) => g.structs[*i].fields.iter().any(|(t, _)| contains_box(t, g)),
    Enum(i) => g.enums[*i].variants.iter().flat_map(|v| &v.1).any(|t| contains_box(t, g)),
    _ => false,
  }
}

fn region(r: u8) -> char {
  (b'a' + r - 1) as char
}

pub fn unit(tape: &mut Tape, cfg: &Cfg) -> String {
  match cfg.own {
    Some(f) => f(tape),
    None => Gen::new(tape, cfg.clone()).unit(),
  }
}

pub fn module(i: usize, unit: &str) -> String {
  format!("pub mod u{i} {{\n{}}}\n", indent(unit))
}
