pub struct L<'a> { pub r: &'a mut i32, pub n: i32 }
pub fn h0<'a>(mut v0: &'a mut i32, v1: &'a mut i32) -> &'a i32 {
  v0 = v1;
  match (*v0) { 0 => { (*v0) = 0; }, n1 => {} }
  &(*v0)
}
pub fn h1<'a>(v0: &'a mut i32, mut v1: &'a mut i32, c: i32) -> i32 {
  (*v1) = 0;
  v1 = v0;
  (*v1) = c;
  0
}
pub fn h2<'a>(v0: &mut &'a mut i32, v1: &'a mut i32, c: i32) {
  *v0 = v1;
  **v0 = c;
}
pub fn h3<'a>(mut v0: L<'a>, v1: &'a mut i32, c: i32) {
  v0.r = v1;
  *v0.r = c;
}
pub fn h4<'a>(mut v0: &'a mut i32, v1: &'a mut i32, c: i32) {
  let p = &mut v0;
  *p = v1;
  *v0 = c;
}
