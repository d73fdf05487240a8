// Programs over the standard library with known answers: run natively (cargo test) and
// through the abstract interpreter they must agree.  Used only to validate the models.
#![allow(dead_code, unused, clippy::all)]
pub mod env;
pub mod models;
pub mod gen;
fn id<T>(x: T) -> T { x }
fn opt(n: i32) -> Option<i32> { if n > 0 { Some(n) } else { None } }
fn res(n: i32) -> Result<i32, String> { if n > 0 { Ok(n) } else { Err("neg".to_string()) } }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
struct P { a: u32, b: String }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum K { A, B(u8), C { x: u8 } }
trait Wm { fn widening_mulx(self) -> u64; }
impl Wm for u64 { fn widening_mulx(self) -> u64 { ((self as u128) * 2) as u64 } }
