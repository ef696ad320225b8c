struct S<'a> { r: &'a mut i32 }
fn f(s: S<'_>) -> i32 { *s.r }
fn g(s: &mut i32) -> i32 { *s }
fn k(s: &i32) -> i32 { *s }
fn k2(s: (&i32, i32)) -> i32 { *s.0 }
pub fn a(b: i32) -> i32 {
  let mut x = 1;
  let s = S { r: &mut x };
  *s.r = b;
  f(s)
}
pub fn a2(b: i32) -> i32 {
  let mut x = 1;
  let s = &mut x;
  *s = b;
  g(s)
}
pub fn a3(s: &mut i32, b: i32) -> i32 {
  *s = b;
  k(s)
}
pub fn a4(s: S<'_>, b: i32) -> i32 {
  *s.r = b;
  f(s)
}
pub fn a5(s: (&mut i32, i32), b: i32) -> i32 {
  *s.0 = b;
  let t = s;
  k2((t.0, 1))
}
fn id<T>(t: T) -> T { t }
fn im<T: Copy>(t: T) {  }
pub fn a6(b: i32) -> i32 {
  let mut x = 1;
  let s = &mut x;
  *s = b;
  let q = s;
  let p = &*q;
  let z = (p, 1);
  k2(z)
}
