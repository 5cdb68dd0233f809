//! C19: spans of composite values cover exactly their parts.
#![allow(dead_code)]
use crate::sym;
use crate::tok::*;
use laps::ast::*;
use laps::prelude::*;
use laps::span::{FileType, Location, Span, Spanned, TrySpan};

#[cfg(not(feature = "thorough"))]
const N: usize = 10;
#[cfg(feature = "thorough")]
const N: usize = 12;

type Pair = (A, B);

#[no_mangle]
#[allow(deprecated)]
pub extern "C" fn c19_ast() {
  match sym::range(0, 33) {
    0 => check_span::<A>(N),
    1 => check_span::<Box<R>>(N),
    2 => check_span::<Option<A>>(N),
    3 => check_span::<Vec<A>>(N),
    4 => check_span::<NonEmptySeq<A>>(N),
    5 => check_span::<SepSeq<A, S>>(N),
    6 => check_span::<NonEmptySepSeq<A, S>>(N),
    7 => check_span::<OptSepSeq<A, S>>(N),
    8 => check_span::<NonEmptyOptSepSeq<A, S>>(N),
    9 => check_span::<NonEmptySepList<A, S>>(N),
    10 => check_span::<SepList<A, S>>(N),
    11 => check_span::<NonEmptyOptSepList<A, S>>(N),
    12 => check_span::<OptSepList<A, S>>(N),
    13 => check_span::<Quoted<L, A, R>>(N),
    14 => check_span::<Quoted<L, Vec<A>, R>>(N),
    15 => check_span::<OptPrefix<P, A>>(N),
    16 => check_span::<OptTokenPrefix<P, A>>(N),
    17 => check_span::<TokenPrefix<P, A>>(N),
    18 => check_span::<(A,)>(N),
    19 => check_span::<(A, B)>(N),
    20 => check_span::<(A, Vec<B>, S)>(N),
    21 => check_span::<(A, Option<B>, Vec<S>, P)>(N),
    22 => check_span::<(A, Vec<B>, Vec<S>, Vec<P>, R)>(N),
    23 => check_span::<(A, Option<B>, Option<S>, Option<P>, Option<L>, Option<R>, A)>(N),
    // nested: parts of parts
    24 => check_span::<Option<Option<A>>>(N),
    25 => check_span::<Option<SepSeq<A, S>>>(N),
    26 => check_span::<Vec<Pair>>(N),
    27 => check_span::<Vec<OptPrefix<P, A>>>(N),
    28 => check_span::<NonEmptySeq<(A, Option<B>, S)>>(N),
    29 => check_span::<SepSeq<OptTokenPrefix<P, NonEmptySeq<A>>, S>>(N),
    30 => check_span::<SepList<Pair, S>>(N),
    31 => check_span::<OptSepSeq<(L, SepSeq<A, S>, R), S>>(N),
    32 => check_span::<Box<NonEmptyOptSepList<Box<A>, (S, P)>>>(N),
    _ => check_span::<TokenPrefix<P, (OptPrefix<A, B>, Option<A>, NonEmptySepSeq<S, B>)>>(N),
  }
}

/// Vectors whose elements may be without any part, in every combination.
#[no_mangle]
pub extern "C" fn c19_vec() {
  let s = script(6, false);
  let n = sym::range(0, 4);
  let mut at = 0;
  let mut next = || {
    let i = at;
    at += 1;
    let k = match s.borrow_mut().get(i) {
      Ok(k) => k,
      Err(()) => fail!(),
    };
    s.borrow().token(i, k)
  };
  let mut v: Vec<Option<Vec<Token>>> = vec![];
  let mut first = None;
  let mut last = None;
  for _ in 0..n {
    let k = sym::range(0, 3);
    if k == 3 {
      v.push(None);
      continue;
    }
    let ts: Vec<Token> = (0..k.min(6)).map(|_| next()).collect();
    if let (Some(f), Some(l)) = (ts.first(), ts.last()) {
      first = first.or(Some(id(f)));
      last = Some(id(l));
    }
    v.push(Some(ts));
  }
  match (v.try_span(), first, last) {
    (None, None, None) => sym::cover(1),
    (Some(sp), Some(f), Some(l)) => {
      sym::observe(l as u64);
      let b = s.borrow();
      check!(sp == b.span(f as usize).into_end_updated(b.span(l as usize)));
      sym::cover(0);
    }
    _ => fail!(),
  }
}

/// A tuple of every size.
macro_rules! big_tuples {
  ($s:ident, $k:ident, $($n:expr => ($($i:expr),+)),+ $(,)?) => {
    match $k {
      $($n => {
        let t = ($(leaf(&$s, $i),)+);
        let sp = t.span();
        let (b, e) = (leaf(&$s, 0).span(), leaf(&$s, $n - 1).span());
        check!(sp == b.into_end_updated(e));
        check!(t.try_span() == Some(sp));
      })+
      _ => {}
    }
  };
}
fn leaf(s: &Shared, i: usize) -> Token {
  s.borrow().token(i, 0)
}
#[no_mangle]
pub extern "C" fn c19_tuples() {
  let s = script(0, false);
  let k = sym::range(1, 26);
  big_tuples!(s, k,
    1 => (0), 2 => (0, 1), 3 => (0, 1, 2), 4 => (0, 1, 2, 3), 5 => (0, 1, 2, 3, 4), 6 => (0, 1, 2, 3, 4, 5), 7 => (0, 1, 2, 3, 4, 5, 6), 8 => (0, 1, 2, 3, 4, 5, 6, 7),
    9 => (0, 1, 2, 3, 4, 5, 6, 7, 8), 10 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9), 11 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), 12 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11),
    13 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), 14 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13), 15 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14),
    16 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), 17 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16),
    18 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17), 19 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18),
    20 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19), 21 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20),
    22 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21), 23 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22),
    24 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23),
    25 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24),
    26 => (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25),
  );
  sym::cover(0);
}

// Derived spans. Every type is parsed, and must cover its own tokens.
macro_rules! fields_shape {
  ($t:ty: $($f:tt $ty:ty),+) => {
    impl Shape for $t {
      fn may(_: &Cur) -> Result<bool, ()> {
        Ok(true)
      }
      fn want(_: &mut Cur, _: &mut Vec<u32>) -> Result<(), ()> {
        Ok(())
      }
      fn flat(&self, out: &mut Vec<u32>) {
        $(self.$f.flat(out);)+
      }
    }
  };
}
#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct One {
  a: A,
}
#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct First(A, #[try_span] Option<B>, #[try_span] Vec<S>);
#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Last {
  #[try_span]
  x: Option<P>,
  #[try_span]
  y: SepSeq<A, S>,
  z: B,
}
fields_shape!(One: a A);
fields_shape!(First: 0 A, 1 Option<B>, 2 Vec<S>);
fields_shape!(Last: x Option<P>, y SepSeq<A, S>, z B);

/// A field that has no span of its own as an option.
#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Inner(#[try_span] Option<P>, One, #[try_span] OptSepSeq<B, S>);
fields_shape!(Inner: 0 Option<P>, 1 One, 2 OptSepSeq<B, S>);

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum Choice {
  Tok(A),
  Two(B, S),
  Opt {
    p: P,
    #[try_span]
    a: Option<A>,
    #[try_span]
    rest: Vec<Pair>,
  },
  Boxed(Box<Group>),
  Back(#[try_span] Option<R>, E),
}
#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Group {
  l: L,
  inner: Option<Choice>,
  r: R,
}
fields_shape!(Group: l L, inner Option<Choice>, r R);
impl Shape for Choice {
  fn may(_: &Cur) -> Result<bool, ()> {
    Ok(true)
  }
  fn want(_: &mut Cur, _: &mut Vec<u32>) -> Result<(), ()> {
    Ok(())
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::Tok(a) => a.flat(out),
      Self::Two(a, b) => {
        a.flat(out);
        b.flat(out);
      }
      Self::Opt { p, a, rest } => {
        p.flat(out);
        a.flat(out);
        rest.flat(out);
      }
      Self::Boxed(g) => g.flat(out),
      Self::Back(a, b) => {
        a.flat(out);
        b.flat(out);
      }
    }
  }
}
/// Type parameters.
#[derive(Spanned, Debug)]
struct Gen<T, U>
where
  T: TrySpan,
  U: Spanned,
{
  #[try_span]
  t: T,
  u: U,
  #[try_span]
  ts: Vec<T>,
}

#[no_mangle]
pub extern "C" fn c19_derived() {
  match sym::range(0, 6) {
    0 => check_span::<One>(N),
    1 => check_span::<First>(N),
    2 => check_span::<Last>(N),
    3 => check_span::<Inner>(N),
    4 => check_span::<Choice>(N),
    5 => check_span::<Vec<Inner>>(N),
    _ => check_span::<Group>(N),
  }
}

/// Present and absent fields in every combination, built by hand.
#[no_mangle]
pub extern "C" fn c19_fields() {
  let s = script(0, false);
  let (l, e) = (sym::range(0, 1) == 1, sym::range(0, 1) == 1);
  let n = sym::range(0, 3);
  let ends: Vec<bool> = (0..n).map(|_| sym::range(0, 1) == 1).collect();
  let opt = |p: bool, i: usize| if p { Some(leaf(&s, i)) } else { None };
  let g = Gen { t: opt(l, 0), u: leaf(&s, 1), ts: ends.iter().enumerate().map(|(i, p)| opt(*p, 2 + i)).collect() };
  let first = if l { 0 } else { 1 };
  let last = ends.iter().rposition(|p| *p).map_or(1, |i| i + 2);
  check!(g.span() == leaf(&s, first).span().into_end_updated(leaf(&s, last).span()));
  let g = Gen { t: g.ts, u: (leaf(&s, 10), leaf(&s, 11), leaf(&s, 12)), ts: vec![vec![opt(l, 20)], vec![], vec![None, opt(e, 21), None]] };
  let first = ends.iter().position(|p| *p).map_or(10, |i| i + 2);
  let last = if e { 21 } else if l { 20 } else { 12 };
  check!(g.span() == leaf(&s, first).span().into_end_updated(leaf(&s, last).span()));
  sym::cover(0);
}

/// Updating and joining spans at any location.
#[no_mangle]
pub extern "C" fn c19_update() {
  let base = Span::new(FileType::Buffer);
  let other = Span::new(FileType::Buffer);
  check!((base.start().line, base.start().col, base.end().line, base.end().col) == (1, 0, 1, 0));
  let loc = || Location { line: sym::any_u32(), col: sym::any_u32() };
  let make = |s: Location, e: Location| {
    let mut a = base.clone();
    a.update_loc(s);
    let mut b = base.clone();
    b.update_loc(e);
    a.update_end(&b);
    a
  };
  let same = |a: Location, b: Location| check!((a.line == b.line) & (a.col == b.col));
  let (l1, l2, l3, l4) = (loc(), loc(), loc(), loc());
  let (a, b) = (make(l1, l2), make(l3, l4));
  same(a.start(), l1);
  same(a.end(), l2);
  match sym::range(0, 5) {
    0 => {
      let j = a.clone().into_end_updated(&b);
      same(j.start(), l1);
      same(j.end(), l4);
      let mut k = a.clone();
      k.update_end(b.clone());
      check!(k == j);
    }
    1 => check!(a.is_in_same_line_as(&b) == (l2.line == l3.line)),
    2 => {
      // equality is by input and both locations
      let eq = (l1.line == l3.line) & (l1.col == l3.col) & (l2.line == l4.line) & (l2.col == l4.col);
      check!((a == b) == eq);
      let mut c = other.clone();
      c.update_loc(l1);
      let mut e = other.clone();
      e.update_loc(l2);
      c.update_end(e);
      check!(c != a);
    }
    k => {
      sym::assume((l1.line < u32::MAX) & (l1.col < u32::MAX));
      let c = sym::any_char();
      let b = sym::byte();
      let (got, nl) = match k {
        3 => (a.clone().into_updated(&c), c == '\n'),
        4 => {
          let mut x = a.clone();
          x.update(&c);
          (x, c == '\n')
        }
        _ => {
          let mut x = a.clone();
          x.update(&b);
          check!(x == a.clone().into_updated(&b));
          (x, b == b'\n')
        }
      };
      let line = l1.line as u64 + nl as u64;
      let col = sym::ite(nl, 0, l1.col as u64 + 1);
      same(got.start(), Location { line: line as u32, col: col as u32 });
      same(got.end(), got.start());
      let mut z = base.clone();
      z.update_loc(got.start());
      check!(z == got);
    }
  }
  sym::cover(0);
}
