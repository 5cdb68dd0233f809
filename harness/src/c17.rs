//! C17: derived parsers recognise exactly the grammar their types describe.
use crate::c17types::*;
use crate::sym;
use crate::tok::*;
use laps::ast::*;

#[cfg(not(feature = "thorough"))]
const N: usize = 8;
#[cfg(feature = "thorough")]
const N: usize = 10;

#[no_mangle]
pub extern "C" fn c17_structs() {
  match sym::range(0, 5) {
    0 => check_parse::<Plain1>(N),
    1 => check_parse::<Named>(N),
    2 => check_parse::<Unit>(N),
    3 => check_parse::<Starts>(N),
    4 => check_parse::<Gen<0, 1>>(N),
    _ => check_parse::<Vec<Starts>>(N + 1),
  }
}

#[no_mangle]
pub extern "C" fn c17_enums() {
  match sym::range(0, 6) {
    0 => check_parse::<Alt>(N),
    1 => check_parse::<ByStart>(N),
    2 => check_parse::<WithUnit>(N),
    3 => check_parse::<StartsEnum>(N),
    4 => check_parse::<GenEnum<9>>(N),
    5 => check_parse::<Vec<ByStart>>(N),
    _ => check_parse::<SepSeq<StartsEnum, A>>(N),
  }
}

/// A recursive grammar.
#[no_mangle]
pub extern "C" fn c17_expr() {
  check_parse::<(Expr, E)>(N);
}
#[no_mangle]
pub extern "C" fn c17_term() {
  check_parse::<Term>(N);
}
