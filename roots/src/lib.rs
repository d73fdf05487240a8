// Entry points for the static analysis: each `root_*` instantiates generic library code
// at the concrete allocator `Global` so that its monomorphic MIR can be extracted.
// Nothing in this crate is ever executed.
#![allow(dead_code, clippy::all)]
pub mod env;
pub mod models;
#[cfg(feature = "tok")]
pub mod tok;
#[cfg(feature = "mem")]
pub mod mem;
#[cfg(feature = "any")]
pub mod any;
#[cfg(any(feature = "parse", feature = "app"))]
pub mod io;
#[cfg(feature = "parse")]
pub mod parse;
#[cfg(feature = "path")]
pub mod path;
#[cfg(feature = "ser")]
pub mod ser;
#[cfg(feature = "app")]
pub mod app;
#[cfg(feature = "big")]
pub mod big;
#[cfg(feature = "flo")]
pub mod flo;
#[cfg(feature = "rm")]
pub mod rm;
