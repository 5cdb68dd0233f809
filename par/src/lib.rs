//! C03: matchers built serially and in parallel, with the parallel tasks run
//! in any order.
#[macro_use]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[path = "../../harness/src/reref.rs"]
mod reref;
#[cfg(feature = "c03")]
mod c03;
