//! Functions that use the breadth of the language: snippets composed at random.
use crate::tape::Tape;

/// What the snippets use.
const ITEMS: &str = r#"
pub use std::{cell::{Cell, RefCell}, collections::{BTreeMap, HashMap, VecDeque}, fmt::{self, Debug, Display, Write}, future::Future, marker::PhantomData, ops::{Add, AddAssign, ControlFlow, Deref, DerefMut, Index, IndexMut}, pin::Pin, rc::{Rc, Weak}, sync::{Arc, Mutex, atomic::{AtomicI32, Ordering}}};
#[derive(Clone, Default, Debug, PartialEq)]
pub struct St { pub n: i32, pub t: (i32, i32), pub o: Option<i32>, pub v: [i32; 2], pub(crate) p: i32 }
impl St {
  pub const ONE: i32 = 1;
  pub fn get(&self) -> i32 { self.n }
  pub fn set(&mut self, x: i32) -> &mut Self { self.n = x; self }
  pub fn part(&mut self) -> &mut i32 { &mut self.t.1 }
  pub fn either(&mut self, c: bool) -> &mut i32 { if c { &mut self.n } else { &mut self.p } }
  pub fn each(&self) -> impl Iterator<Item = &i32> + '_ { self.v.iter() }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum En { A, B(i32), C { x: i32, y: Box<En> }, D(String, Vec<En>) }
impl En {
  pub fn depth(&self) -> i32 { match self { En::A => 0, En::B(n) => *n, En::C { y, .. } => 1 + y.depth(), En::D(_, v) => v.iter().map(|e| e.depth()).max().unwrap_or(0) } }
}
pub enum Void {}
#[derive(Clone, Copy, PartialEq)]
#[repr(u8)]
pub enum Tag { X = 1, Y = 5 }
#[derive(Clone, Copy)]
pub union Un { pub i: i32, pub f: f32, pub a: [u8; 4] }
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
pub struct Nt(pub i32);
impl Add for Nt { type Output = Nt; fn add(self, o: Nt) -> Nt { Nt(self.0 + o.0) } }
impl AddAssign<i32> for Nt { fn add_assign(&mut self, o: i32) { self.0 += o; } }
impl Deref for Nt { type Target = i32; fn deref(&self) -> &i32 { &self.0 } }
impl DerefMut for Nt { fn deref_mut(&mut self) -> &mut i32 { &mut self.0 } }
pub struct Ar<T, const N: usize> { pub d: [T; N], pub m: PhantomData<fn() -> T> }
impl<T: Copy, const N: usize> Index<usize> for Ar<T, N> { type Output = T; fn index(&self, i: usize) -> &T { &self.d[i % N] } }
impl<T: Copy, const N: usize> IndexMut<usize> for Ar<T, N> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.d[i % N] } }
pub trait Tr { const C: i32 = 3; fn one(&self) -> i32; fn two(&mut self, x: i32) { let _ = x; } fn boxed(self: Box<Self>) -> i32 where Self: Sized { self.one() } }
impl Tr for i32 { fn one(&self) -> i32 { *self } fn two(&mut self, x: i32) { *self += x; } }
impl Tr for St { const C: i32 = 4; fn one(&self) -> i32 { self.n } }
pub trait Ob { fn peek(&self) -> i32; fn poke(&mut self, x: i32); fn eat(self: Box<Self>) -> i32; }
impl Ob for Nt { fn peek(&self) -> i32 { self.0 } fn poke(&mut self, x: i32) { self.0 = x; } fn eat(self: Box<Self>) -> i32 { self.0 } }
pub trait As { type T: Debug + Default; type G<'a>: Iterator<Item = &'a i32> where Self: 'a; fn mk(&self, x: i32) -> Self::T; fn gs<'a>(&'a self) -> Self::G<'a>; }
impl As for Vec<i32> { type T = Option<i32>; type G<'a> = std::slice::Iter<'a, i32>; fn mk(&self, x: i32) -> Option<i32> { Some(x) } fn gs<'a>(&'a self) -> Self::G<'a> { self.iter() } }
pub struct Node { pub val: i32, pub next: Option<Box<Node>> }
pub struct Tree { pub val: i32, pub kids: Vec<Tree>, pub up: Weak<RefCell<Tree>> }
pub struct Guard<'a>(pub &'a mut i32);
impl Drop for Guard<'_> { fn drop(&mut self) { *self.0 += 1; } }
pub struct Iter<'a, T> { pub s: &'a [T], pub at: usize }
impl<'a, T> Iterator for Iter<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { let r = self.s.get(self.at)?; self.at += 1; Some(r) } }
pub static COUNT: AtomicI32 = AtomicI32::new(0);
pub static mut GLOBAL: i32 = 7;
pub static TABLE: [(&str, fn(i32) -> i32); 2] = [("a", inc), ("b", |x| x * 2)];
pub const LIMIT: usize = { let mut n = 1; while n < 8 { n *= 2; } n };
thread_local! { pub static LOCAL: RefCell<Vec<i32>> = const { RefCell::new(vec![]) }; }
pub fn inc(x: i32) -> i32 { x + 1 }
pub fn pick<'a, 'b: 'a>(x: &'a mut i32, y: &'b mut i32, c: bool) -> &'a mut i32 { if c { x } else { y } }
pub fn early<'a: 'a, T: ?Sized + Debug>(x: &'a T) -> &'a T { x }
pub fn apply<F: FnMut(i32) -> i32>(mut f: F, x: i32) -> i32 { f(x) }
pub fn hrtb(f: &dyn for<'a> Fn(&'a mut i32) -> &'a i32, x: &mut i32) -> i32 { *f(x) }
pub fn maker(k: i32) -> impl Fn(i32) -> i32 + Clone { move |x| x + k }
pub fn boxer(k: i32) -> Box<dyn FnMut(i32) -> i32> { let mut n = k; Box::new(move |x| { n += x; n }) }
pub fn never(x: i32) -> ! { if x > 3 { panic!("{x}") } else { loop {} } }
pub fn konst<const N: usize, T: Copy + Default>(x: T) -> [T; N] { let mut r = [T::default(); N]; if N > 0 { r[0] = x; } r }
pub fn fact(x: u64) -> u64 { if x < 2 { 1 } else { x * fact(x - 1) } }
pub fn even(x: u32) -> bool { x == 0 || odd(x - 1) }
pub fn odd(x: u32) -> bool { x != 0 && even(x - 1) }
pub fn question(x: &str) -> Result<i32, Box<dyn std::error::Error>> { let n: i32 = x.trim().parse()?; if n < 0 { return Err("neg".into()); } Ok(n) }
pub async fn later(x: i32) -> i32 { x + 1 }
pub async fn later_ref<'a>(x: &'a mut i32) -> &'a i32 { *x += later(*x).await; x }
pub unsafe fn danger(p: *mut i32, x: i32) -> i32 { unsafe { let o = *p; *p = x; o } }
pub unsafe extern "C" fn ext(x: i32) -> i32 { x }
macro_rules! maxm { ($x:expr) => { $x }; ($x:expr, $($r:expr),+) => {{ let l = $x; let r = maxm!($($r),+); if l > r { l } else { r } }}; }
pub(crate) use maxm;
"#;
/// The first line of a unit that needs the items.
const MARK: &str = "use super::feat::*;\n";
/// The module that the units need, if any does.
pub fn items(units: &[String]) -> String {
  if units.iter().any(|u| u.starts_with(MARK)) { format!("pub mod feat {{{ITEMS}}}\n") } else { String::new() }
}
/// The unit that a function among the items counts to.
pub fn home(units: &[String], path: &str) -> Option<usize> {
  (path.starts_with("feat::") || path.starts_with("<feat::")).then(|| units.iter().position(|u| u.starts_with(MARK))).flatten()
}

/// Statements. `$e` a number, `$c` a condition, `$s` further statements, `$k` a number of its own, `$l` something to assign to.
const STMTS: &[&str] = &[
  "let mut y$k = $e;",
  "$l = $e;",
  "$l += $e;",
  "if $c { $s }",
  "if $c { $s } else { $s }",
  "if $c { $s } else if $c { $s } else { $s }",
  "while $c { $s if b > $e { break; } }",
  "'l$k: loop { $s for i in 0..b { if i > $e { continue 'l$k; } if $c { break 'l$k; } $s } }",
  "let z$k = loop { $s if $c { break $e; } };",
  "let z$k = 'b$k: { if $c { break 'b$k $e; } $s $e };",
  "for y in v.iter_mut() { *y += $e; $s2 }",
  "for (i, y) in x.iter().enumerate().rev() { a += *y + i as i32; $s }",
  "match o { Some(y) if y > $e => { $s } Some(0..=5) | None => { $s } Some(y @ 6..) => { a = y; } _ => { $s } }",
  "match x { [] => { $s } [one] => { a = *one; } [first, .., last] => { a = first + last; $s } }",
  "match x { [y, rest @ ..] if rest.len() > 2 => { a = *y + rest[1]; } [.., y, _] => { a = *y; } _ => {} }",
  "match (a, b, $c) { (0, y, true) | (y, 0, false) => { a = y; } (p, q, _) if p > q => { $s } (_, _, _) => { $s } }",
  "match &*q { En::A => { $s } En::B(n) => { a = *n; } En::C { x, y } if **y == En::A => { a = *x; } En::C { y, .. } => { a = y.depth(); $s } En::D(s, es) => { a = es.len() as i32 + s.len() as i32; } }",
  "if let En::C { x, y } = &mut *q { *x = $e; **y = En::B($e); }",
  "let Some(y$k) = o else { $l = $e; return $e; };",
  "if let Some(y) = o && y > $e && let [z, ..] = x { a = y + *z; $s }",
  "while let Some(y) = v.pop() { if y > $e { $s2 break; } a -= y; }",
  "let f$k = |y: i32| y + $e; a = f$k($e);",
  "let mut f$k = |y: i32| { a += y; a }; f$k($e); f$k(2);",
  "{ let mut c = $e; let mut f = || { c += 1; s.n = c; }; f(); f(); a = c; }",
  "let f$k = move |y: i32| { let g = move |z: i32| z + y + a; g(b) }; a = f$k($e);",
  "a = apply(|y| { let mut y = y; $s2 y + b }, $e);",
  "a = maker($e)(b);",
  "{ let mut f = boxer($e); a = f($e); a += f(a); }",
  "a = (if $c { inc } else { |y| y - 1 } as fn(i32) -> i32)($e);",
  "a = TABLE[(b as usize) % 2].1($e);",
  "a = hrtb(&|y| { *y += 1; y }, s.part());",
  "a = x.iter().filter(|y| **y > $e).map(|y| y * b).sum::<i32>();",
  "let w$k: Vec<i32> = v.iter().copied().chain(x.iter().map(|y| *y)).take_while(|y| *y < b).collect(); a = w$k.len() as i32;",
  "a = x.windows(2).fold($e, |p, w| p + w[0] * w[1]);",
  "v.sort_by_key(|y| std::cmp::Reverse(*y)); v.dedup(); v.retain(|y| *y != b);",
  "v.push($e); v.extend_from_slice(x); v.insert(0, $e); v.swap(0, 1);",
  "if let Some(y) = v.get_mut(b as usize) { *y = $e; } else { $s }",
  "if let Some(y) = v.iter_mut().find(|y| **y == b) { *y = $e; }",
  "{ let (p, r) = v.split_at_mut(1); p[0] = r[0]; r[1] = $e; }",
  "{ let m = v.first_mut().unwrap(); *m = $e; let m2 = &mut *m; *m2 += 1; }",
  "a = v[b as usize..].iter().max().copied().unwrap_or($e);",
  "{ let m = pick(&mut a, &mut s.n, $c); *m = $e; }",
  "{ let (mut p, mut r) = ($e, $e); { let m = if $c { &mut p } else { &mut r }; *m = b; } a = p - r; }",
  "{ let m = s.either($c); *m = $e; }",
  "s.set($e).set(b).t.0 = $e;",
  "*s.part() += $e; s.o = Some($e);",
  "*s = St { n: $e, ..s.clone() };",
  "*s = St { o: None, t: ($e, 2), ..Default::default() };",
  "{ let St { n, t: (ref mut t0, _), .. } = *s; *t0 = n + $e; }",
  "{ let St { n, o, .. } = &mut *s; if let Some(y) = o { *y = *n; } *n = $e; }",
  "if let Some(ref mut y) = s.o { *y += $e; }",
  "if let Some(y) = s.o.as_mut() { *y = $e; $s3 } else { s.o.replace($e); }",
  "a = s.o.take().map_or($e, |y| y + 1);",
  "let old$k = std::mem::replace(&mut s.n, $e); std::mem::swap(&mut a, &mut s.t.0); a += old$k;",
  "let w$k = std::mem::take(&mut s.v); for y in w$k { a += y; }",
  "a = s.each().copied().min().unwrap_or($e);",
  "{ let y: &mut dyn Ob = &mut Nt($e); y.poke(b); a = y.peek(); }",
  "{ let y: Box<dyn Ob> = if $c { Box::new(Nt($e)) } else { Box::new(Nt(b)) }; a = y.eat(); }",
  "a = g.peek();",
  "{ let mut y = Nt($e); y += b; *y = a; a = (y + Nt(2)).0; }",
  "{ let mut y = Ar::<i32, 3> { d: [$e, b, 3], m: PhantomData }; y[1] = $e; a = y[b as usize]; }",
  "a = konst::<4, i32>($e)[0] + konst::<LIMIT, i32>(b)[1];",
  "a = <St as Tr>::C + <i32 as Tr>::C + St::ONE;",
  "a.two($e); a = Tr::one(&*s) + Box::new(b).boxed();",
  "{ let y = v.mk($e); a = y.unwrap_or_default() + v.gs().count() as i32; }",
  "{ let y = [[$e; 3]; 2]; a = y[b as usize][1]; let [[p, ..], [.., r]] = y; a += p * r; }",
  "{ let mut y = [$e, b, a]; y[b as usize] = $e; let [p, ref mut r, _] = y; *r = p; a = y[1]; }",
  "{ let mut y = ((1, $e), [b; 2], Some((a, \"t\"))); y.0.1 += 1; if let Some((p, _)) = &mut y.2 { *p = $e; } a = y.0.1 + y.1[0]; }",
  "{ let mut h = HashMap::new(); h.insert(n, $e); *h.entry(\"k\").or_insert(0) += b; a = h.get(n).copied().unwrap_or(0); h.retain(|_, y| *y > 0); }",
  "{ let mut h: BTreeMap<i32, Vec<i32>> = BTreeMap::new(); h.entry(b).or_default().push($e); for (p, r) in &mut h { r.push(*p); } a = h.values().flatten().sum(); }",
  "{ let mut d = VecDeque::from(v.clone()); d.push_front($e); a = d.pop_back().unwrap_or(b); }",
  "{ let r = Rc::new(RefCell::new($e)); let r2 = Rc::clone(&r); *r2.borrow_mut() += b; a = *r.borrow(); }",
  "{ let c = Cell::new($e); c.set(c.get() + b); a = c.into_inner(); }",
  "{ let m = Arc::new(Mutex::new(b)); { let mut y = m.lock().unwrap(); *y = $e; } let m2 = m.clone(); let t = std::thread::spawn(move || *m2.lock().unwrap()); a = t.join().unwrap(); }",
  "COUNT.fetch_add($e, Ordering::SeqCst); a = COUNT.load(Ordering::Relaxed);",
  "unsafe { GLOBAL = $e; a = GLOBAL; let p = &raw mut GLOBAL; *p = b; }",
  "LOCAL.with(|y| { y.borrow_mut().push($e); }); a = LOCAL.with_borrow(|y| y.len() as i32);",
  "unsafe { let p = &mut a as *mut i32; *p = $e; let p2 = p.add(0); a = danger(p2, b); }",
  "unsafe { let p = v.as_mut_ptr(); *p.add(1) = $e; a = p.read(); std::ptr::swap(&mut a, p); }",
  "{ let mut u = Un { i: $e }; unsafe { u.a[1] = 3; a = u.i; match u { Un { i: 5 } => { a = 1; } Un { f } => { a = f as i32; } } } }",
  "a = unsafe { ext($e) } + (a as u8 as char).len_utf8() as i32 + (b as f64 * 0.5).sqrt() as i32;",
  "{ let y = Box::new(($e, b)); let (p, r) = *y; a = p + r; }",
  "{ let mut y = Box::new(St::default()); y.n = $e; y.t.1 = b; let St { n, .. } = *y; a = n; }",
  "{ let mut l = Node { val: $e, next: None }; l = Node { val: b, next: Some(Box::new(l)) }; let mut cur = &mut l; while let Some(ref mut y) = cur.next { y.val += $e; cur = y; } cur.val = a; a = l.val; }",
  "{ let mut l = Some(Box::new(Node { val: $e, next: None })); while let Some(mut y) = l { a += y.val; l = y.next.take(); } }",
  "{ let t = Rc::new(RefCell::new(Tree { val: $e, kids: vec![], up: Weak::new() })); let k = Tree { val: b, kids: vec![], up: Rc::downgrade(&t) }; t.borrow_mut().kids.push(k); a = t.borrow().kids[0].val; }",
  "{ let g = Guard(&mut a); *g.0 = $e; drop(g); }",
  "{ let _g = Guard(&mut a); $s3 }",
  "{ let it = Iter { s: x, at: 0 }; for y in it.skip(1).step_by(2) { a += *y; } }",
  "a = *early(&$e) + early(n).len() as i32;",
  "a = fact(a as u64) as i32 + even(b as u32) as i32;",
  "a = question(n).unwrap_or($e);",
  "match question(n) { Ok(y) => a = y, Err(e) if e.to_string() == \"neg\" => { $s } Err(_) => {} }",
  "let r$k: Result<i32, String> = (|| { let y = o.ok_or(\"none\".to_string())?; let z = x.first().ok_or_else(|| n.to_string())?; Ok(y + z + $e) })(); a = r$k.unwrap_or(b);",
  "let r$k: Option<Vec<i32>> = x.iter().map(|y| y.checked_add($e)).collect(); a = r$k.map(|y| y.len()).unwrap_or(0) as i32;",
  "let t$k = format!(\"{a:>5} {:?} {n}\", s); a = t$k.len() as i32;",
  "{ let mut t = String::from(n); t.push_str(\"x\"); write!(t, \"{}\", $e).unwrap(); a = t.bytes().map(|y| y as i32).sum(); }",
  "println!(\"{} {:?}\", $e, o); assert!($c, \"{a}\"); debug_assert_eq!(a, b);",
  "for (i, ch) in n.char_indices() { match ch { 'a'..='z' => a += i as i32, _ if ch.is_ascii_digit() => { $s } '\\u{e9}' => {} _ => break } }",
  "if $c { panic!(\"{}\", a); }",
  "if $c { never($e); }",
  "if $c { return $e; }",
  "match Tag::X as i32 { 1 => { $s } _ => unreachable!() }",
  "match if $c { Tag::X } else { Tag::Y } { Tag::X => { $s } t => { a = t as i32; } }",
  "a = maxm!($e, b, $e);",
  "a = const { LIMIT as i32 + 1 } + const { if LIMIT > 3 { 1 } else { 2 } };",
  "a = matches!(o, Some(y) if y > $e) as i32;",
  "a = a.wrapping_mul($e).rotate_left(3) >> 2 & !b ^ 7 | -a;",
  "a = if $c && $c || !($c) { $e } else { $e };",
  "a = ($e as i64 * 2) as i32 + ($e as u128) as i32 + (a as usize % LIMIT) as i32;",
  "fn inner$k<T: Default>(t: T) -> (T, T) { (t, T::default()) } a = inner$k($e).0;",
  "struct L$k<'a>(&'a mut i32); impl L$k<'_> { fn bump(&mut self, y: i32) { *self.0 += y; } } L$k(&mut a).bump($e);",
  "{ let mut ps = vec![&mut a, &mut s.n]; *ps[0] = $e; for p in ps.iter_mut() { **p += 1; } }",
  "{ let ps = [&s.n, &b]; a = ps.iter().map(|p| **p).sum(); }",
  "{ let p; { let z = &*x; p = z.iter().max_by(|p, r| p.cmp(r)); } a = *p.unwrap_or(&b); }",
  "{ let mut m: &mut [i32] = &mut v[..]; while let [p, rest @ ..] = m { *p = $e; m = rest; } }",
  "{ let mut m = &mut *q; loop { match m { En::C { x, y } => { *x += 1; m = &mut **y; } En::D(_, es) => { match es.first_mut() { Some(y) => m = y, None => break } } _ => { *m = En::B($e); break; } } } }",
  "q = Box::new(En::C { x: $e, y: q }); a = q.depth();",
  "let q$k = if $c { Box::new(En::B($e)) } else { q.clone() }; a = q$k.depth();",
  "let _ = match x.len() { 0 => ControlFlow::Break(a), _ => ControlFlow::Continue($e) };",
  "a = (|| -> Option<i32> { let y = o?; $s4 Some(y) })().unwrap_or(3);",
  "let e$k: Result<i32, Void> = Ok($e); let Ok(y$k) = e$k; a = y$k;",
  "{ let fut = async { let mut y = $e; y += later(b).await; y }; let b2: Pin<Box<dyn Future<Output = i32>>> = Box::pin(fut); drop(b2); }",
  "{ let fut = async move { let mut y = a; let r = later_ref(&mut y).await; *r + b }; let _ = std::pin::pin!(fut); }",
  "{ let f = async |y: i32| { later(y).await + a }; let _ = f(b); }",
  "{ type P = (i32, &'static str); let p: P = ($e, \"p\"); a = p.0 + p.1.len() as i32; }",
  "{ let y = &raw const a; let z = unsafe { *y }; a = z + $e; }",
  "{ let y: &dyn Debug = &*s; let z: &dyn std::any::Any = &a; if let Some(w) = z.downcast_ref::<i32>() { println!(\"{y:?} {w}\"); } }",
  "{ let mut y = ($e, b); (y.0, a) = (y.1, y.0); [y.1, _] = [a, b]; (a, ..) = (y.1, 3, 4); }",
  "{ let y; if $c { y = $e; } else { y = b; } a = y; }",
  "{ let y: i32; let z = || 3; y = z(); a = y; $s }",
  ";;; {} (); { ; }",
];

const HEADS: &[(&str, &str)] = &[
  ("pub fn f$k(", ""),
  ("pub fn f$k<'z, T: Tr + Clone, const N: usize>(t: T, z: &'z mut [i32; N], ", ""),
  ("pub unsafe fn f$k(", ""),
  ("pub extern \"C-unwind\" fn f$k(", ""),
  ("pub async fn f$k(", ""),
  ("impl St { pub fn f$k(&mut self, ", "}"),
  ("impl St { pub fn f$k(self: Box<Self>, ", "}"),
  ("impl<T: Copy, const N: usize> Ar<T, N> { pub fn f$k(&mut self, ", "}"),
  ("pub trait T$k { fn f$k(&self, ", "}"),
  ("pub trait T$k<'z, U: 'z> where Self: Sized { fn f$k(self, u: &'z U, ", "}"),
  ("impl<'z> Guard<'z> { pub fn f$k(&'z mut self, ", "}"),
  ("pub mod m$k { use super::*; pub(crate) fn f$k(", "}"),
  ("const _: () = { pub fn f$k(", "};"),
  ("pub fn f$k<'z>(z: &'z mut (i32, &'z mut i32), ", ""),
  ("pub fn f$k<'z: 'z, 'y: 'z>(z: &'z mut i32, y: &'y i32, (p, r): (i32, &mut [i32]), [i, j]: [i32; 2], St { n: sn, t, .. }: St, ", ""),
];

struct G<'t> {
  t: &'t mut Tape,
  k: usize,
  budget: usize,
  /// Only arguments that the interpreter can make.
  plain: bool,
}
impl G<'_> {
  fn e(&mut self, d: usize) -> String {
    match self.t.weighted(&[4, 4, 4, 2, 2, 2, 1, 1, 1, if d > 0 { 3 } else { 0 }, if d > 0 { 1 } else { 0 }, if d > 0 { 1 } else { 0 }, 1]) {
      1 => "a".into(),
      2 => "b".into(),
      3 => "s.n".into(),
      4 => "s.t.1".into(),
      5 => "x[0]".into(),
      6 => "v[1]".into(),
      7 => "o.unwrap_or(4)".into(),
      8 => "g.peek()".into(),
      9 => format!("({} {} {})", self.e(d - 1), ["+", "-", "*", "/", "%", "&"][self.t.below(6)], self.e(d - 1)),
      10 => format!("if {} {{ {} }} else {{ {} }}", self.c(d - 1), self.e(d - 1), self.e(d - 1)),
      11 => format!("inc({})", self.e(d - 1)),
      12 => "s.get()".into(),
      _ => self.t.below(10).to_string(),
    }
  }
  fn c(&mut self, d: usize) -> String {
    match self.t.below(5) {
      0 => format!("({} > {})", self.e(d.min(1)), self.t.below(9)),
      1 => "n.is_empty()".into(),
      2 => "o.is_some()".into(),
      3 => "x.contains(&b)".into(),
      _ => format!("({} != b)", self.e(d.min(1))),
    }
  }
  fn pick(&mut self) -> &'static str {
    let s = STMTS[self.t.below(STMTS.len())];
    let vec = ["v.pop", "v.push", "v.sort", "v.mk", "v.insert", "v.retain", "String", "async", "Rc::", "Arc::", "dyn ", "HashMap"];
    if self.plain && vec.iter().any(|w| s.contains(w)) { STMTS[self.t.below(20)] } else { s }
  }
  fn stmts(&mut self, d: usize, simple: bool) -> String {
    let n = 1 + self.t.below(3);
    let mut out = String::new();
    for _ in 0..n {
      if self.budget == 0 {
        break;
      }
      self.budget -= 1;
      let s = if simple || d == 0 { STMTS[self.t.below(3)] } else { self.pick() };
      out += &self.fill(s, d);
      out += "\n";
    }
    out
  }
  fn fill(&mut self, s: &str, d: usize) -> String {
    self.k += 1;
    let k = self.k;
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
      if c != '$' {
        out.push(c);
        continue;
      }
      match it.next() {
        Some('k') => out += &k.to_string(),
        Some('e') => {
          let e = self.e(2);
          // Where an expression that starts with `if` cannot stand.
          out += &if e.starts_with("if") { format!("({e})") } else { e };
        }
        Some('c') => out += &self.c(2),
        Some('l') => out += ["a", "s.n", "v[0]", "s.t.0"][self.t.below(4)],
        Some('s') => match it.peek() {
          Some('2') => {
            it.next();
            out += ["", "b += 1;", "o = None;"][self.t.below(3)];
          }
          Some('3') => {
            it.next();
            out += ["", "b += 1;", "b = x[0];"][self.t.below(3)];
          }
          Some('4') => {
            it.next();
            out += ["", "let y = y + b;", "if y > 3 { return None; }"][self.t.below(3)];
          }
          _ => {
            out.push('\n');
            out += &self.stmts(d.saturating_sub(1), false);
          }
        },
        _ => unreachable!(),
      }
    }
    out
  }
}

pub fn unit(t: &mut Tape) -> String {
  let mut out = MARK.to_string();
  // Names differ between units, because methods of the same type are added in several.
  let k = t.next() as usize % 100_000 * 1000;
  let mut g = G { t, k, budget: 0, plain: false };
  for _ in 0..2 + g.t.below(5) {
    g.plain = g.t.chance(60);
    let (head, tail) = HEADS[g.t.below(HEADS.len())];
    g.k += 1;
    let head = head.replace("$k", &g.k.to_string());
    out += &format!("{head}mut a: i32, mut b: i32, v: {}, s: &mut St, mut o: Option<i32>, x: &[i32], n: &str, g: {}, mut q: Box<En>) -> i32 {{\n", if g.plain { "&mut [i32; 4]" } else { "&mut Vec<i32>" }, if g.plain { "&Nt" } else { "&dyn Ob" });
    let n = 1 + g.t.below(6);
    for _ in 0..n {
      g.budget = 8;
      let s = g.pick();
      let s = g.fill(s, 3);
      out += &s;
      out += "\n";
    }
    out += "a\n}\n";
    out += tail;
    out += "\n";
  }
  out
}
