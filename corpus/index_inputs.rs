pub fn t0(a: [i32; 3], i: usize, v: i32) -> i32 {
  let mut b = a;
  let j = i;
  if j < 3 { b[j] = v; }
  let k = v as usize;
  let mut r = 0;
  if k < 3 { r = b[k]; }
  r
}
pub fn t1(a: [i32; 3], i: usize, v: i32) -> i32 {
  let mut r = v;
  if i < 3 { match a[i] { 0 => r = 1, 1 => r = 2, _ => {} } }
  r
}
