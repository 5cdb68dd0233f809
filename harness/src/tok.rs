//! Tokens of arbitrary kinds, tokenizers that may fail, and reference
//! parsers over the same tokens.
#![allow(dead_code)]
use crate::sym;
use laps::ast::*;
use laps::parse::Parse;
use laps::span::{Error, FileType, Location, Result, Span, Spanned, TrySpan};
use laps::token::{token_ast, TokenBuffer, TokenStream, Tokenizer};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

/// A token kind: any byte.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Kind(pub u8);
impl fmt::Display for Kind {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("kind")
  }
}
pub type Token = laps::token::Token<Kind>;
pub const EOF: u8 = 255;

token_ast! {
  #[derive(Clone, Debug, PartialEq)]
  pub(crate) macro crate::tok::Tk<Kind> {
    [a] => { kind: Kind(0) },
    [b] => { kind: Kind(1) },
    [s] => { kind: Kind(2) },
    [p] => { kind: Kind(3) },
    [l] => { kind: Kind(4) | Kind(5), prompt: "left" },
    [r] => { kind: Kind(k) if *k > 5 && *k < 200, prompt: "right" },
    [eof] => { kind: Kind(EOF) },
  }
}
pub(crate) type A = Tk![a];
pub(crate) type B = Tk![b];
pub(crate) type S = Tk![s];
pub(crate) type P = Tk![p];
pub(crate) type L = Tk![l];
pub(crate) type R = Tk![r];
pub(crate) type E = Tk![eof];

/// What a tokenizer will produce: `n` entries, each a kind or an error
/// (made up when first asked for), then end-of-file for ever.
pub struct Script {
  n: usize,
  errors: bool,
  entries: Vec<std::result::Result<u8, ()>>,
  base: Span,
}
pub type Shared = Rc<RefCell<Script>>;

pub fn script(n: usize, errors: bool) -> Shared {
  Rc::new(RefCell::new(Script { n, errors, entries: vec![], base: Span::new(FileType::Buffer) }))
}
impl Script {
  pub fn get(&mut self, i: usize) -> std::result::Result<u8, ()> {
    while self.entries.len() <= i {
      let e = if self.entries.len() >= self.n {
        Ok(EOF)
      } else if self.errors && sym::range(0, 1) == 1 {
        Err(())
      } else {
        let b = sym::byte();
        sym::assume(b != EOF);
        Ok(b)
      };
      self.entries.push(e);
    }
    self.entries[i]
  }
  pub fn len(&self) -> usize {
    self.n
  }
  /// The span of entry `i`.
  pub fn span(&self, i: usize) -> Span {
    let mut s = self.base.clone();
    s.update_loc(Location { line: i as u32 + 1, col: 10 });
    let mut e = self.base.clone();
    e.update_loc(Location { line: i as u32 + 1, col: 20 });
    s.update_end(&e);
    s
  }
  pub fn token(&self, i: usize, k: u8) -> Token {
    Token { kind: Kind(k), span: self.span(i) }
  }
}
/// The entry a token is.
pub fn id(t: &Token) -> u32 {
  t.span.start().line - 1
}

pub struct Source {
  pub script: Shared,
  pub at: usize,
}
impl Tokenizer for Source {
  type Token = Token;
  fn next_token(&mut self) -> Result<Token> {
    let i = self.at;
    let mut s = self.script.borrow_mut();
    match s.get(i) {
      Ok(k) => {
        self.at += 1;
        Ok(s.token(i, k))
      }
      Err(()) => {
        self.at += 1;
        Err(error())
      }
    }
  }
}
#[cfg(feature = "logger")]
pub fn error() -> Error {
  Error::Fatal
}
#[cfg(not(feature = "logger"))]
pub fn error() -> Error {
  Error::Fatal(String::new())
}

/// A token stream with only the required methods.
pub struct Plain {
  src: Source,
  buf: Vec<Token>,
}
impl Tokenizer for Plain {
  type Token = Token;
  fn next_token(&mut self) -> Result<Token> {
    match self.buf.pop() {
      Some(t) => Ok(t),
      None => self.src.next_token(),
    }
  }
}
impl TokenStream for Plain {
  fn unread(&mut self, token: Token) {
    self.buf.push(token)
  }
}
pub type Buffer = TokenBuffer<Source, Token>;
pub fn buffer(s: &Shared) -> Buffer {
  TokenBuffer::new(Source { script: s.clone(), at: 0 })
}
pub fn plain(s: &Shared) -> Plain {
  Plain { src: Source { script: s.clone(), at: 0 }, buf: vec![] }
}

/// Reads everything that is left: exactly the tokens from entry `from` on,
/// in order (and perhaps errors not reported yet).
pub fn drain<TS: TokenStream<Token = Token>>(ts: &mut TS, s: &Shared, from: usize) {
  let n = s.borrow().n;
  let mut next = from;
  let mut calls = 0;
  loop {
    // skip errors, which may have been reported already
    let want = loop {
      match s.borrow_mut().get(next) {
        Ok(k) => break k,
        Err(()) => next += 1,
      }
    };
    match ts.next_token() {
      Ok(t) => {
        check!(id(&t) as usize == next);
        check!(t.kind.0 == want);
        if next > n {
          return;
        }
        next += 1;
      }
      Err(_) => {}
    }
    calls += 1;
    if calls > 2 * n + 4 {
      fail!();
    }
  }
}

/// A position in the script, for reference parsers.
#[derive(Clone)]
pub struct Cur {
  pub script: Shared,
  pub at: usize,
}
type Res<T> = std::result::Result<T, ()>;
impl Cur {
  pub fn peek(&self, k: usize) -> Res<u8> {
    self.script.borrow_mut().get(self.at + k)
  }
  fn ahead(&self, k: usize) -> Cur {
    Cur { script: self.script.clone(), at: self.at + k }
  }
  /// The next token, which must be of a kind `f` accepts.
  fn take(&mut self, f: fn(u8) -> bool) -> Res<u32> {
    let k = self.peek(0)?;
    if !f(k) {
      return Err(());
    }
    self.at += 1;
    Ok(self.at as u32 - 1)
  }
}

/// Marks of the structure in a flat form.
pub const LIST: u32 = 1000;
pub const END: u32 = 1001;
pub const NONE: u32 = 1002;
pub const SOME: u32 = 1003;
pub const VARIANT: u32 = 1100;

/// A type that can be parsed, and its documented shape.
pub trait Shape: Sized {
  /// May the shape start here?
  fn may(c: &Cur) -> Res<bool>;
  /// Parses the shape into the flat form of the result.
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()>;
  /// The flat form of a value: the tokens stored, with marks.
  fn flat(&self, out: &mut Vec<u32>);
}

macro_rules! token_shape {
  ($t:ty, $f:expr) => {
    impl Shape for $t {
      fn may(c: &Cur) -> Res<bool> {
        let f: fn(u8) -> bool = $f;
        c.peek(0).map(f)
      }
      fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
        out.push(c.take($f)?);
        Ok(())
      }
      fn flat(&self, out: &mut Vec<u32>) {
        out.push(id(&self.0));
      }
    }
  };
}
token_shape!(A, |k| k == 0);
token_shape!(B, |k| k == 1);
token_shape!(S, |k| k == 2);
token_shape!(P, |k| k == 3);
token_shape!(L, |k| k == 4 || k == 5);
token_shape!(R, |k| k > 5 && k < 200);
token_shape!(E, |k| k == EOF);

impl<T: Shape> Shape for Box<T> {
  fn may(c: &Cur) -> Res<bool> {
    T::may(c)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    T::want(c, out)
  }
  fn flat(&self, out: &mut Vec<u32>) {
    (**self).flat(out)
  }
}
impl<T: Shape> Shape for Option<T> {
  fn may(_: &Cur) -> Res<bool> {
    Ok(true)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if T::may(c)? {
      out.push(SOME);
      T::want(c, out)
    } else {
      out.push(NONE);
      Ok(())
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Some(t) => {
        out.push(SOME);
        t.flat(out);
      }
      None => out.push(NONE),
    }
  }
}
impl<T: Shape> Shape for Vec<T> {
  fn may(_: &Cur) -> Res<bool> {
    Ok(true)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    out.push(LIST);
    while T::may(c)? {
      T::want(c, out)?;
    }
    out.push(END);
    Ok(())
  }
  fn flat(&self, out: &mut Vec<u32>) {
    out.push(LIST);
    for t in self {
      t.flat(out);
    }
    out.push(END);
  }
}
macro_rules! tuple_shape {
  ($t:ident $($ts:ident)*) => {
    impl<$t: Shape, $($ts: Shape,)*> Shape for ($t, $($ts,)*) {
      fn may(c: &Cur) -> Res<bool> {
        $t::may(c)
      }
      fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
        $t::want(c, out)?;
        $($ts::want(c, out)?;)*
        Ok(())
      }
      #[allow(non_snake_case)]
      fn flat(&self, out: &mut Vec<u32>) {
        let ($t, $($ts,)*) = self;
        $t.flat(out);
        $($ts.flat(out);)*
      }
    }
  };
}
tuple_shape!(T0);
tuple_shape!(T0 T1);
tuple_shape!(T0 T1 T2);
tuple_shape!(T0 T1 T2 T3);
tuple_shape!(T0 T1 T2 T3 T4);
tuple_shape!(T0 T1 T2 T3 T4 T5);
tuple_shape!(T0 T1 T2 T3 T4 T5 T6);
tuple_shape!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25);

fn list<'a, T: Shape + 'a>(i: impl Iterator<Item = &'a T>, out: &mut Vec<u32>) {
  out.push(LIST);
  for t in i {
    t.flat(out);
  }
  out.push(END);
}
/// Elements without separators between them stored: `empty` if there may be
/// none, `trailing` if a separator may be last.
fn want_sep<T: Shape, Q: Shape>(c: &mut Cur, out: &mut Vec<u32>, empty: bool, trailing: bool) -> Res<()> {
  out.push(LIST);
  if !empty || T::may(c)? {
    loop {
      T::want(c, out)?;
      if !Q::may(c)? {
        break;
      }
      Q::want(c, &mut vec![])?;
      if trailing && !T::may(c)? {
        break;
      }
    }
  }
  out.push(END);
  Ok(())
}
impl<T: Shape> Shape for NonEmptySeq<T> {
  fn may(c: &Cur) -> Res<bool> {
    T::may(c)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    out.push(LIST);
    T::want(c, out)?;
    while T::may(c)? {
      T::want(c, out)?;
    }
    out.push(END);
    Ok(())
  }
  fn flat(&self, out: &mut Vec<u32>) {
    list(self.into_iter(), out)
  }
}
macro_rules! sep_shape {
  ($t:ident, $empty:expr, $trailing:expr) => {
    impl<T: Shape, Q: Shape> Shape for $t<T, Q> {
      fn may(c: &Cur) -> Res<bool> {
        if $empty {
          Ok(true)
        } else {
          T::may(c)
        }
      }
      fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
        want_sep::<T, Q>(c, out, $empty, $trailing)
      }
      fn flat(&self, out: &mut Vec<u32>) {
        list(self.into_iter(), out)
      }
    }
  };
}
sep_shape!(SepSeq, true, false);
sep_shape!(NonEmptySepSeq, false, false);
sep_shape!(OptSepSeq, true, true);
sep_shape!(NonEmptyOptSepSeq, false, true);

impl<T: Shape, Q: Shape> Shape for NonEmptySepList<T, Q> {
  fn may(c: &Cur) -> Res<bool> {
    T::may(c)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    T::want(c, out)?;
    if Q::may(c)? {
      out.push(SOME);
      Q::want(c, out)?;
      Self::want(c, out)
    } else {
      out.push(END);
      Ok(())
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::One(t) => {
        t.flat(out);
        out.push(END);
      }
      Self::More(t, s, l) => {
        t.flat(out);
        out.push(SOME);
        s.flat(out);
        l.flat(out);
      }
    }
  }
}
impl<T: Shape, Q: Shape> Shape for NonEmptyOptSepList<T, Q> {
  fn may(c: &Cur) -> Res<bool> {
    T::may(c)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    T::want(c, out)?;
    if Q::may(c)? {
      out.push(SOME);
      Q::want(c, out)?;
      if T::may(c)? {
        out.push(SOME);
        Self::want(c, out)
      } else {
        out.push(NONE);
        Ok(())
      }
    } else {
      out.push(END);
      Ok(())
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::One(t) => {
        t.flat(out);
        out.push(END);
      }
      Self::OneWithSep(t, s) => {
        t.flat(out);
        out.push(SOME);
        s.flat(out);
        out.push(NONE);
      }
      Self::More(t, s, l) => {
        t.flat(out);
        out.push(SOME);
        s.flat(out);
        out.push(SOME);
        l.flat(out);
      }
    }
  }
}
#[allow(deprecated)]
impl<X: Shape, T: Shape, Y: Shape> Shape for Quoted<X, T, Y> {
  fn may(c: &Cur) -> Res<bool> {
    X::may(c)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    X::want(c, out)?;
    T::want(c, out)?;
    Y::want(c, out)
  }
  fn flat(&self, out: &mut Vec<u32>) {
    self.0.flat(out);
    self.1.flat(out);
    self.2.flat(out);
  }
}
macro_rules! prefix_shape {
  ($t:ident, $may:expr, $p:ty) => {
    impl<Q: Shape, T: Shape> Shape for $t<Q, T> {
      fn may(c: &Cur) -> Res<bool> {
        let f: fn(&Cur) -> Res<bool> = $may;
        f(c)
      }
      fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
        <$p>::want(c, out)?;
        T::want(c, out)
      }
      fn flat(&self, out: &mut Vec<u32>) {
        self.0.flat(out);
        self.1.flat(out);
      }
    }
  };
}
prefix_shape!(OptPrefix, |c| Ok(Q::may(c)? || T::may(c)?), Option<Q>);
prefix_shape!(OptTokenPrefix, |c| if Q::may(c)? { T::may(&c.ahead(1)) } else { T::may(c) }, Option<Q>);
prefix_shape!(TokenPrefix, |c| Ok(Q::may(c)? && T::may(&c.ahead(1))?), Q);

/// Parses a value and compares it with the reference.
pub fn check_parse<T: Shape + Parse<Buffer> + Parse<Plain>>(n: usize) {
  let s = script(n, false);
  if sym::range(0, 1) == 0 {
    parse_with::<T, _>(&s, &mut buffer(&s));
  } else {
    parse_with::<T, _>(&s, &mut plain(&s));
  }
}
fn parse_with<T: Shape + Parse<TS>, TS: TokenStream<Token = Token>>(s: &Shared, ts: &mut TS) {
  // some tokens of the stream may be in use already
  let skip = if s.borrow().len() > 1 { sym::range(0, 1) } else { 0 };
  if skip == 1 {
    check!(ts.next_token().is_ok());
  }
  let got: Result<T> = ts.parse();
  let mut c = Cur { script: s.clone(), at: skip };
  let mut want = vec![];
  let r = T::want(&mut c, &mut want);
  sym::observe(got.is_ok() as u64);
  check!(got.is_ok() == r.is_ok());
  if let Ok(v) = got {
    let mut flat = vec![];
    v.flat(&mut flat);
    check!(flat == want);
    drain(ts, s, c.at);
    if c.at > skip {
      sym::cover(0);
    }
  } else {
    sym::cover(1);
  }
}

/// Asks whether a value may start, which must not change the stream.
pub fn check_maybe<T: Shape + Parse<Buffer> + Parse<Plain>>(n: usize) {
  let s = script(n, true);
  if sym::range(0, 1) == 0 {
    maybe_with::<T, _>(&s, &mut buffer(&s));
  } else {
    maybe_with::<T, _>(&s, &mut plain(&s));
  }
}
fn maybe_with<T: Shape + Parse<TS>, TS: TokenStream<Token = Token>>(s: &Shared, ts: &mut TS) {
  let mut at = 0;
  // a token may have been pushed back
  if sym::range(0, 1) == 1 {
    if let Ok(t) = ts.next_token() {
      ts.unread(t);
    } else {
      at = 1;
    }
  }
  let got = T::maybe(ts);
  let want = T::may(&Cur { script: s.clone(), at });
  sym::observe(matches!(got, Ok(true)) as u64);
  match (got, want) {
    (Ok(g), Ok(w)) => {
      check!(g == w);
      sym::cover(g as u32);
    }
    (Err(_), Err(())) => sym::cover(2),
    _ => fail!(),
  }
  if sym::range(0, 1) == 1 {
    // asking again gives an answer, and does not move the stream either
    let _ = T::maybe(ts);
  }
  drain(ts, s, at);
}

/// The span of a value covers exactly its stored tokens.
pub fn check_span<T: Shape + Parse<Buffer> + TrySpan>(n: usize) {
  let s = script(n, false);
  let mut ts = buffer(&s);
  let got: Result<T> = ts.parse();
  if let Ok(v) = got {
    check_value(&s, &v);
  }
}
pub fn check_value<T: Shape + TrySpan>(s: &Shared, v: &T) {
  let mut flat = vec![];
  v.flat(&mut flat);
  flat.retain(|x| *x < 1000);
  match v.try_span() {
    None => {
      check!(flat.is_empty());
      sym::cover(1);
    }
    Some(sp) => {
      check!(!flat.is_empty());
      let s = s.borrow();
      let (f, l) = (s.span(flat[0] as usize), s.span(*flat.last().unwrap() as usize));
      sym::observe(flat.len() as u64);
      check!(sp.start() == f.start());
      check!(sp.end() == l.end());
      // it still is a span of the same input
      check!(sp == f.into_end_updated(l));
      sym::cover(0);
    }
  }
}
pub fn spanned<T: Spanned>(v: &T) -> Span {
  v.span()
}
