fn p0(x: i32) -> i32 { x + 1 }
fn p1(x: i32) -> i32 { x - 1 }
pub fn t0(c: bool, x: i32) -> i32 {
  let mut f: fn(i32) -> i32 = p0;
  if c { f = p1; }
  f(x)
}
