pub fn t0(a: bool, b: i32) -> i32 {
  let c = b;
  let mut x = 0;
  if a { match c { 0 => x = 1, _ => x = 2 } }
  x
}
