pub trait Tr { fn get(&self) -> i32; fn put(&mut self, v: i32) -> i32; }
pub struct L0<'a> { pub f0: &'a mut i32 }
impl<'a> Tr for L0<'a> {
  fn get(&self) -> i32 { *self.f0 }
  fn put(&mut self, v: i32) -> i32 { *self.f0 = v; 0 }
}
pub fn gput<T: Tr>(x: &mut T, v: i32) -> i32 { x.put(v) }
pub fn gown<T: Tr>(mut x: T, v: i32) -> i32 { x.put(v); x.get() }
pub fn gget<T: Tr>(x: &T) -> i32 { x.get() }
pub fn gfn<F: Fn(i32) -> i32>(f: F, x: i32) -> i32 { f(x) }
pub fn dynput(x: &mut dyn Tr, v: i32) -> i32 { x.put(v) }
pub fn t0(mut v0: i32, v1: i32) -> i32 {
  let mut l = L0 { f0: &mut v0 };
  let x1 = gput(&mut l, v1);
  v0
}
pub fn t1(mut v0: i32, v1: i32) -> i32 {
  let l = L0 { f0: &mut v0 };
  let x1 = gown(l, v1);
  v0 + x1
}
pub fn t2(mut v0: i32, v1: i32) -> i32 {
  let l = L0 { f0: &mut v0 };
  *l.f0 = v1;
  gget(&l)
}
pub fn t3(mut v0: i32, mut v1: i32) -> i32 {
  let c = |a: i32| -> i32 { v1 + a };
  gfn(&c, v0)
}
pub fn t4(mut v0: i32, mut v1: i32) -> i32 {
  let mut l = L0 { f0: &mut v0 };
  let x1 = dynput(&mut l, v1);
  v0
}
