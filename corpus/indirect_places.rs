pub fn t0(x: i32, y: i32) -> (i32, i32) {
  let mut p = (x, 0);
  let r = &mut p;
  r.1 = y;
  r.0 = r.1;
  let z = r.1;
  (p.0, z)
}
pub fn t1(x: &mut (i32, i32), t: (i32, i32)) -> i32 {
  *x = t;
  x.0
}
pub fn t2(x: &mut (i32, (i32, i32)), t: (i32, i32)) -> i32 {
  x.1 = t;
  let y = x.1.0;
  x.1.1 = 3;
  y + x.1.1
}
