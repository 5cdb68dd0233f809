//! Harnesses executed symbolically: one module per property.
#[macro_use]
pub mod sym;

#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c06", feature = "c07", feature = "c22"))]
mod reref;

#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(any(feature = "c13", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c19"))]
mod tok;
#[cfg(any(feature = "c16", feature = "c17"))]
mod c17types;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(any(feature = "c03", feature = "c06", feature = "c07"))]
mod lexers;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c18")]
mod c18;
#[cfg(any(feature = "c20", feature = "c21"))]
#[allow(dead_code)]
mod out;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
