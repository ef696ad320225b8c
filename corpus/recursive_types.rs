pub struct Node { pub val: i32, pub next: Option<Box<Node>> }
pub enum En { A, B(i32), C { x: i32, y: Box<En> } }
pub fn walk(a: i32, b: i32, c: i32) -> i32 {
  let mut l = Node { val: b, next: Some(Box::new(Node { val: c, next: None })) };
  let mut cur = &mut l;
  while let Some(ref mut y) = cur.next { y.val += 0; cur = y; }
  cur.val = a;
  let Node { next, .. } = l;
  match next { Some(n) => n.val, None => 0 }
}
pub fn inner(a: i32, b: i32, c: i32) -> i32 {
  let mut l = Node { val: b, next: Some(Box::new(Node { val: c, next: None })) };
  if let Some(ref mut n) = l.next { n.val = a; }
  let m = l;
  match m.next { Some(n) => n.val, None => 0 }
}
pub fn replace(a: i32, mut q: Box<En>) -> Box<En> {
  if let En::C { x, y } = &mut *q { *x = 0; **y = En::B(a); }
  q
}
