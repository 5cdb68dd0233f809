//! The code of the macros themselves, as ordinary functions.
#![allow(dead_code)]
extern crate proc_macro2 as proc_macro;
include!(concat!(env!("OUT_DIR"), "/macros.rs"));
#[macro_use]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[cfg(feature = "c25")]
#[path = "../../harness/src/reref.rs"]
mod reref;
#[cfg(feature = "c25")]
mod c25;
