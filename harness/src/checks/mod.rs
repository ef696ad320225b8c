use crate::run::Check;
pub mod util;
pub mod flow;
pub mod precision;
pub mod memory;
pub mod laws;
pub mod modular;
pub mod spans;
pub mod ide;
pub mod ifc;
pub mod robust;

pub fn all() -> Vec<Check> {
  let mut v = vec![];
  v.extend(flow::checks());
  v.extend(precision::checks());
  v.extend(memory::checks());
  v.extend(laws::checks());
  v.extend(modular::checks());
  v.extend(spans::checks());
  v.extend(ide::checks());
  v.extend(ifc::checks());
  v.extend(robust::checks());
  v
}
