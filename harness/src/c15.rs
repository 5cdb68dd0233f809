//! C15: the AST combinators build exactly the documented sequences.
use crate::sym;
use crate::tok::*;
use laps::ast::*;

#[cfg(not(feature = "thorough"))]
const N: usize = 10;
#[cfg(feature = "thorough")]
const N: usize = 12;

type Pair = (A, B);
type Sign = Option<P>;

#[no_mangle]
pub extern "C" fn c15_simple() {
  match sym::range(0, 11) {
    0 => check_parse::<A>(N),
    1 => check_parse::<L>(N),
    2 => check_parse::<R>(N),
    3 => check_parse::<Option<A>>(N),
    4 => check_parse::<Vec<A>>(N),
    5 => check_parse::<Box<A>>(N),
    6 => check_parse::<NonEmptySeq<A>>(N),
    7 => check_parse::<(A,)>(N),
    8 => check_parse::<(A, Option<B>, Vec<S>, P)>(N),
    9 => check_parse::<Vec<Pair>>(N),
    10 => check_parse::<NonEmptySeq<(A, Option<B>)>>(N),
    _ => check_parse::<Option<Box<Pair>>>(N),
  }
}

#[no_mangle]
pub extern "C" fn c15_sep() {
  match sym::range(0, 15) {
    0 => check_parse::<SepSeq<A, S>>(N),
    1 => check_parse::<NonEmptySepSeq<A, S>>(N),
    2 => check_parse::<OptSepSeq<A, S>>(N),
    3 => check_parse::<NonEmptyOptSepSeq<A, S>>(N),
    4 => check_parse::<NonEmptySepList<A, S>>(N),
    5 => check_parse::<SepList<A, S>>(N),
    6 => check_parse::<NonEmptyOptSepList<A, S>>(N),
    7 => check_parse::<OptSepList<A, S>>(N),
    // elements and separators of several tokens
    8 => check_parse::<SepSeq<Pair, (S, P)>>(N),
    9 => check_parse::<NonEmptySepSeq<Pair, (S, P)>>(N),
    10 => check_parse::<OptSepSeq<Pair, (S, P)>>(N),
    11 => check_parse::<NonEmptyOptSepSeq<Pair, (S, P)>>(N),
    12 => check_parse::<NonEmptySepList<Pair, (S, P)>>(N),
    13 => check_parse::<NonEmptyOptSepList<Pair, (S, P)>>(N),
    // a list within a list
    14 => check_parse::<SepSeq<NonEmptySeq<A>, S>>(N),
    _ => check_parse::<OptSepSeq<(L, SepSeq<A, S>, R), S>>(N),
  }
}

#[no_mangle]
#[allow(deprecated)]
pub extern "C" fn c15_other() {
  match sym::range(0, 11) {
    0 => check_parse::<Quoted<L, A, R>>(N),
    1 => check_parse::<Quoted<L, SepSeq<A, S>, R>>(N),
    2 => check_parse::<OptPrefix<P, A>>(N),
    3 => check_parse::<OptTokenPrefix<P, A>>(N),
    4 => check_parse::<TokenPrefix<P, A>>(N),
    5 => check_parse::<Vec<OptPrefix<P, A>>>(N),
    6 => check_parse::<Vec<OptTokenPrefix<P, A>>>(N),
    7 => check_parse::<Vec<TokenPrefix<P, A>>>(N),
    8 => check_parse::<(Sign, NonEmptySeq<A>, Option<(S, Vec<B>)>)>(N),
    9 => check_parse::<(A, B, A, B, A, Option<S>)>(N),
    10 => check_parse::<(Option<A>, Option<B>, Option<S>, Option<P>, Option<L>, Option<R>, E)>(N),
    _ => check_parse::<(
      Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>, Option<A>,
      Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>, Option<B>,
    )>(N),
  }
}

/// Iteration and conversion of the containers.
#[no_mangle]
pub extern "C" fn c15_iter() {
  use laps::token::TokenStream;
  let s = script(5, false);
  let mut ts = buffer(&s);
  macro_rules! iterate {
    ($t:ty) => {
      if let Ok(mut v) = ts.parse::<$t>() {
        let inner: Vec<u32> = v.0.iter().map(|t| id(&t.0)).collect();
        check!(inner.windows(2).all(|w| w[0] < w[1]));
        let by_ref: Vec<u32> = (&v).into_iter().map(|t| id(&t.0)).collect();
        check!(by_ref == inner);
        let mut by_mut = vec![];
        for t in &mut v {
          by_mut.push(id(&t.0));
          // writes go through
          t.0.kind = Kind(9);
        }
        check!(by_mut == inner);
        check!(v.0.iter().all(|t| t.0.kind == Kind(9)));
        let c = v.clone();
        check!(c == v);
        let owned: Vec<u32> = v.into_iter().map(|t| id(&t.0)).collect();
        check!(owned == inner);
        let back: Vec<u32> = c.into_iter().rev().map(|t| id(&t.0)).collect();
        check!(back.iter().rev().eq(inner.iter()));
        sym::cover(inner.len() as u32);
      }
    };
  }
  match sym::range(0, 4) {
    0 => iterate!(NonEmptySeq<A>),
    1 => iterate!(SepSeq<A, S>),
    2 => iterate!(NonEmptySepSeq<A, S>),
    3 => iterate!(OptSepSeq<A, S>),
    _ => iterate!(NonEmptyOptSepSeq<A, S>),
  }
}
