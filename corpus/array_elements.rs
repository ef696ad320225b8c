pub fn t0(x: i32, y: i32) -> (i32, i32) {
  let mut a = [0, 0];
  a[0] = x;
  a[1] = y;
  (a[0], a[1])
}
