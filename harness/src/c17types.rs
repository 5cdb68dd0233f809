//! Types with derived parsers, and the grammars they describe.
#![allow(dead_code)]
use crate::tok::*;
use laps::ast::*;
use laps::prelude::*;

type Res<T> = std::result::Result<T, ()>;

/// The shape of a derived structure: its fields in order.
macro_rules! shape_struct {
  ($t:ty: $($f:tt $ty:ty),+) => {
    shape_struct!(@may $t, |c| first_may!(c, $($ty),+), $($f $ty),+);
  };
  (@may $t:ty, $may:expr, $($f:tt $ty:ty),+) => {
    impl Shape for $t {
      fn may(c: &Cur) -> Res<bool> {
        let f: fn(&Cur) -> Res<bool> = $may;
        f(c)
      }
      fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
        $(<$ty>::want(c, out)?;)+
        Ok(())
      }
      fn flat(&self, out: &mut Vec<u32>) {
        $(self.$f.flat(out);)+
      }
    }
  };
}
macro_rules! first_may {
  ($c:expr, $t:ty $(, $ts:ty)*) => {
    <$t>::may($c)
  };
}
fn all(c: &Cur, fs: &[fn(u8) -> bool]) -> Res<bool> {
  let mut ok = true;
  for (i, f) in fs.iter().enumerate() {
    let k = c.peek(i)?;
    ok = ok && f(k);
  }
  Ok(ok)
}

#[derive(Parse, Debug)]
#[token(Token)]
pub struct Plain1 {
  pub a: A,
  pub b: Option<B>,
  pub rest: Vec<S>,
}
shape_struct!(Plain1: a A, b Option<B>, rest Vec<S>);

#[derive(Parse, Debug)]
#[token(Token)]
pub struct Named(pub Option<P>, pub SepSeq<A, S>, pub R);
shape_struct!(Named: 0 Option<P>, 1 SepSeq<A, S>, 2 R);

/// No fields at all.
#[derive(Parse, Debug)]
#[token(Token)]
pub struct Unit;
impl Shape for Unit {
  fn may(_: &Cur) -> Res<bool> {
    Ok(true)
  }
  fn want(_: &mut Cur, _: &mut Vec<u32>) -> Res<()> {
    Ok(())
  }
  fn flat(&self, _: &mut Vec<u32>) {}
}

/// A longer start than one token.
#[derive(Parse, Debug)]
#[token(Token)]
#[starts_with(Tk![a], Tk![b], Tk![r])]
pub struct Starts {
  pub a: A,
  pub b: B,
  pub r: Option<R>,
}
shape_struct!(@may Starts, |c| all(c, &[|k| k == 0, |k| k == 1, |k| k > 5 && k < 200]), a A, b B, r Option<R>);

/// Alternatives of every form; the last one is the fallback.
#[derive(Parse, Debug)]
#[token(Token)]
pub enum Alt {
  Two(A, B),
  Braces { l: L, inner: Vec<A>, r: R },
  // never reached: starts like the first one
  Hidden(A),
  Start(Starts),
  Pre(TokenPrefix<P, S>),
  Last(P),
}
impl Shape for Alt {
  fn may(c: &Cur) -> Res<bool> {
    Ok(A::may(c)? || L::may(c)? || A::may(c)? || Starts::may(c)? || TokenPrefix::<P, S>::may(c)? || P::may(c)?)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if A::may(c)? {
      out.push(VARIANT);
      A::want(c, out)?;
      B::want(c, out)
    } else if L::may(c)? {
      out.push(VARIANT + 1);
      L::want(c, out)?;
      Vec::<A>::want(c, out)?;
      R::want(c, out)
    } else if Starts::may(c)? {
      out.push(VARIANT + 3);
      Starts::want(c, out)
    } else if TokenPrefix::<P, S>::may(c)? {
      out.push(VARIANT + 4);
      TokenPrefix::<P, S>::want(c, out)
    } else {
      out.push(VARIANT + 5);
      P::want(c, out)
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::Two(a, b) => {
        out.push(VARIANT);
        a.flat(out);
        b.flat(out);
      }
      Self::Braces { l, inner, r } => {
        out.push(VARIANT + 1);
        l.flat(out);
        inner.flat(out);
        r.flat(out);
      }
      Self::Hidden(a) => {
        out.push(VARIANT + 2);
        a.flat(out);
      }
      Self::Start(s) => {
        out.push(VARIANT + 3);
        s.flat(out);
      }
      Self::Pre(p) => {
        out.push(VARIANT + 4);
        p.flat(out);
      }
      Self::Last(p) => {
        out.push(VARIANT + 5);
        p.flat(out);
      }
    }
  }
}

/// Starts longer than the tokens the variants need to be told apart.
#[derive(Parse, Debug)]
#[token(Token)]
pub enum ByStart {
  Ab(Starts),
  Ap(TokenPrefix<A, P>),
  A(A),
  Other { b: B, tail: Option<Box<ByStart>> },
}
impl Shape for ByStart {
  fn may(c: &Cur) -> Res<bool> {
    Ok(Starts::may(c)? || TokenPrefix::<A, P>::may(c)? || A::may(c)? || B::may(c)?)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if Starts::may(c)? {
      out.push(VARIANT);
      Starts::want(c, out)
    } else if TokenPrefix::<A, P>::may(c)? {
      out.push(VARIANT + 1);
      TokenPrefix::<A, P>::want(c, out)
    } else if A::may(c)? {
      out.push(VARIANT + 2);
      A::want(c, out)
    } else {
      out.push(VARIANT + 3);
      B::want(c, out)?;
      Option::<Box<ByStart>>::want(c, out)
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::Ab(s) => {
        out.push(VARIANT);
        s.flat(out);
      }
      Self::Ap(s) => {
        out.push(VARIANT + 1);
        s.flat(out);
      }
      Self::A(s) => {
        out.push(VARIANT + 2);
        s.flat(out);
      }
      Self::Other { b, tail } => {
        out.push(VARIANT + 3);
        b.flat(out);
        tail.flat(out);
      }
    }
  }
}

/// A unit variant always matches.
#[derive(Parse, Debug)]
#[token(Token)]
pub enum WithUnit {
  A(A),
  Nothing,
  B(B),
}
impl Shape for WithUnit {
  fn may(c: &Cur) -> Res<bool> {
    A::may(c)?;
    Ok(true)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if A::may(c)? {
      out.push(VARIANT);
      A::want(c, out)
    } else {
      out.push(VARIANT + 1);
      Ok(())
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::A(a) => {
        out.push(VARIANT);
        a.flat(out);
      }
      Self::Nothing => out.push(VARIANT + 1),
      Self::B(b) => {
        out.push(VARIANT + 2);
        b.flat(out);
      }
    }
  }
}

#[derive(Parse, Debug)]
#[token(Token)]
#[starts_with(Tk![p], Tk![s])]
pub enum StartsEnum {
  A(P, A),
  S(P, S),
}
impl Shape for StartsEnum {
  fn may(c: &Cur) -> Res<bool> {
    all(c, &[|k| k == 3, |k| k == 2])
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if P::may(c)? {
      out.push(VARIANT);
      P::want(c, out)?;
      A::want(c, out)
    } else {
      out.push(VARIANT + 1);
      P::want(c, out)?;
      S::want(c, out)
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    let (k, p, x): (_, _, &dyn Fn(&mut Vec<u32>)) = match self {
      Self::A(p, a) => (0, p, &|o| a.flat(o)),
      Self::S(p, s) => (1, p, &|o| s.flat(o)),
    };
    out.push(VARIANT + k);
    p.flat(out);
    x(out);
  }
}

/// A const parameter and a handwritten parser within.
#[derive(Debug)]
pub struct Exact<const K: u8>(pub Token);
impl<const K: u8, TS> Parse<TS> for Exact<K>
where
  TS: TokenStream<Token = Token>,
{
  fn parse(tokens: &mut TS) -> laps::span::Result<Self> {
    tokens.expect(Kind(K)).map(Self)
  }
  fn maybe(tokens: &mut TS) -> laps::span::Result<bool> {
    Ok(tokens.peek()?.kind == Kind(K))
  }
}
impl<const K: u8> Shape for Exact<K> {
  fn may(c: &Cur) -> Res<bool> {
    c.peek(0).map(|k| k == K)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if c.peek(0)? != K {
      return Err(());
    }
    out.push(c.at as u32);
    c.at += 1;
    Ok(())
  }
  fn flat(&self, out: &mut Vec<u32>) {
    out.push(id(&self.0));
  }
}
#[derive(Parse, Debug)]
#[token(Token)]
pub struct Gen<const K: u8, const M: u8> {
  pub k: Exact<K>,
  pub ms: Vec<Exact<M>>,
  pub last: Option<GenEnum<M>>,
}
#[derive(Parse, Debug)]
#[token(Token)]
pub enum GenEnum<const K: u8> {
  Sep(S, Exact<K>),
  Fixed(Exact<77>),
}
impl<const K: u8, const M: u8> Shape for Gen<K, M> {
  fn may(c: &Cur) -> Res<bool> {
    Exact::<K>::may(c)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    Exact::<K>::want(c, out)?;
    Vec::<Exact<M>>::want(c, out)?;
    Option::<GenEnum<M>>::want(c, out)
  }
  fn flat(&self, out: &mut Vec<u32>) {
    self.k.flat(out);
    self.ms.flat(out);
    self.last.flat(out);
  }
}
impl<const K: u8> Shape for GenEnum<K> {
  fn may(c: &Cur) -> Res<bool> {
    Ok(S::may(c)? || Exact::<77>::may(c)?)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if S::may(c)? {
      out.push(VARIANT);
      S::want(c, out)?;
      Exact::<K>::want(c, out)
    } else {
      out.push(VARIANT + 1);
      Exact::<77>::want(c, out)
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::Sep(s, k) => {
        out.push(VARIANT);
        s.flat(out);
        k.flat(out);
      }
      Self::Fixed(k) => {
        out.push(VARIANT + 1);
        k.flat(out);
      }
    }
  }
}

/// A small recursive language: sums of terms with signs, calls, indexes and
/// parentheses.
#[derive(Parse, Debug)]
#[token(Token)]
pub struct Expr {
  pub terms: NonEmptySepList<Term, P>,
}
#[derive(Parse, Debug)]
#[token(Token)]
pub enum Term {
  Name(A, Option<Args>),
  Signed(OptTokenPrefix<B, Atom>),
  Paren(L, Box<Expr>, R),
}
#[derive(Parse, Debug)]
#[token(Token)]
pub struct Args {
  pub l: L,
  pub args: OptSepSeq<Box<Expr>, S>,
  pub r: R,
}
#[derive(Parse, Debug)]
#[token(Token)]
pub struct Atom(pub Exact<201>);
shape_struct!(Expr: terms NonEmptySepList<Term, P>);
shape_struct!(Args: l L, args OptSepSeq<Box<Expr>, S>, r R);
shape_struct!(Atom: 0 Exact<201>);
impl Shape for Term {
  fn may(c: &Cur) -> Res<bool> {
    Ok(A::may(c)? || OptTokenPrefix::<B, Atom>::may(c)? || L::may(c)?)
  }
  fn want(c: &mut Cur, out: &mut Vec<u32>) -> Res<()> {
    if A::may(c)? {
      out.push(VARIANT);
      A::want(c, out)?;
      Option::<Args>::want(c, out)
    } else if OptTokenPrefix::<B, Atom>::may(c)? {
      out.push(VARIANT + 1);
      OptTokenPrefix::<B, Atom>::want(c, out)
    } else {
      out.push(VARIANT + 2);
      L::want(c, out)?;
      Expr::want(c, out)?;
      R::want(c, out)
    }
  }
  fn flat(&self, out: &mut Vec<u32>) {
    match self {
      Self::Name(a, x) => {
        out.push(VARIANT);
        a.flat(out);
        x.flat(out);
      }
      Self::Signed(x) => {
        out.push(VARIANT + 1);
        x.flat(out);
      }
      Self::Paren(l, e, r) => {
        out.push(VARIANT + 2);
        l.flat(out);
        e.flat(out);
        r.flat(out);
      }
    }
  }
}
