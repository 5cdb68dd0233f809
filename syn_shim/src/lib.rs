//! syn, with `parse` for the token streams of proc-macro2, so that the
//! macros' code runs outside the compiler.
pub use real::parse2 as parse;
pub use real::*;

#[macro_export]
macro_rules! parse_macro_input {
  ($t:ident as $ty:ty) => {
    match $crate::parse2::<$ty>($t) {
      Ok(d) => d,
      Err(e) => return e.to_compile_error(),
    }
  };
  ($t:ident with $p:path) => {
    match $crate::parse::Parser::parse2($p, $t) {
      Ok(d) => d,
      Err(e) => return e.to_compile_error(),
    }
  };
  ($t:ident) => {
    $crate::parse_macro_input!($t as _)
  };
}
