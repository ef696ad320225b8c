mod m {
  #[derive(Clone, Copy)]
  pub struct S { a: i32, pub b: i32, c: i32 }
  impl S {
    pub fn new(a: i32, b: i32) -> S { S { a, b, c: a } }
    pub fn get(&self) -> i32 { self.a + self.c }
    pub fn set(&mut self, x: i32) { self.a = x; }
  }
}
use m::S;
pub fn t0(x: i32, y: i32) -> (i32, i32) {
  let mut s = S::new(x, 0);
  s.b = y;
  let t = s;
  (t.b, t.get())
}
pub fn t1(s: S, y: i32) -> S {
  let mut t = s;
  t.set(y);
  let u = t;
  u
}
