//! C16: speculative parsing answers exactly and never moves the stream.
use crate::c17types::*;
use crate::sym;
use crate::tok::*;
use laps::ast::*;

#[cfg(not(feature = "thorough"))]
const N: usize = 6;
#[cfg(feature = "thorough")]
const N: usize = 8;

#[no_mangle]
pub extern "C" fn c16_tokens() {
  match sym::range(0, 6) {
    0 => check_maybe::<A>(N),
    1 => check_maybe::<L>(N),
    2 => check_maybe::<R>(N),
    3 => check_maybe::<E>(N),
    4 => check_maybe::<Box<B>>(N),
    5 => check_maybe::<Option<A>>(N),
    _ => check_maybe::<Vec<A>>(N),
  }
}

#[no_mangle]
#[allow(deprecated)]
pub extern "C" fn c16_ast() {
  match sym::range(0, 21) {
    0 => check_maybe::<NonEmptySeq<A>>(N),
    1 => check_maybe::<SepSeq<A, S>>(N),
    2 => check_maybe::<NonEmptySepSeq<A, S>>(N),
    3 => check_maybe::<OptSepSeq<A, S>>(N),
    4 => check_maybe::<NonEmptyOptSepSeq<A, S>>(N),
    5 => check_maybe::<NonEmptySepList<A, S>>(N),
    6 => check_maybe::<SepList<A, S>>(N),
    7 => check_maybe::<NonEmptyOptSepList<A, S>>(N),
    8 => check_maybe::<OptSepList<A, S>>(N),
    9 => check_maybe::<Quoted<L, A, R>>(N),
    10 => check_maybe::<OptPrefix<P, A>>(N),
    11 => check_maybe::<OptTokenPrefix<P, A>>(N),
    12 => check_maybe::<TokenPrefix<P, A>>(N),
    13 => check_maybe::<(A,)>(N),
    14 => check_maybe::<(R, A)>(N),
    15 => check_maybe::<(A, B, S, P, L)>(N),
    16 => check_maybe::<TokenPrefix<P, TokenPrefix<A, B>>>(N),
    17 => check_maybe::<OptTokenPrefix<P, TokenPrefix<A, B>>>(N),
    18 => check_maybe::<OptTokenPrefix<P, OptTokenPrefix<A, B>>>(N),
    19 => check_maybe::<OptPrefix<TokenPrefix<A, B>, TokenPrefix<P, A>>>(N),
    20 => check_maybe::<TokenPrefix<P, (Option<A>, B)>>(N),
    _ => check_maybe::<TokenPrefix<L, NonEmptySeq<TokenPrefix<P, A>>>>(N),
  }
}

#[no_mangle]
pub extern "C" fn c16_derived() {
  match sym::range(0, 10) {
    0 => check_maybe::<Plain1>(N),
    1 => check_maybe::<Alt>(N),
    2 => check_maybe::<Starts>(N),
    3 => check_maybe::<Expr>(N),
    4 => check_maybe::<Gen<0, 1>>(N),
    5 => check_maybe::<Unit>(N),
    6 => check_maybe::<StartsEnum>(N),
    7 => check_maybe::<OptTokenPrefix<P, Starts>>(N),
    8 => check_maybe::<WithUnit>(N),
    9 => check_maybe::<TokenPrefix<P, Alt>>(N),
    _ => check_maybe::<Named>(N),
  }
}
