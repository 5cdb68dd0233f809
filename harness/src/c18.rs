//! C18: comparisons and conversions of tokens and token kinds.
use crate::sym;
use laps::prelude::*;
use laps::span::{FileType, Location, Span};
use laps::token::Token;
use std::borrow::{Borrow, BorrowMut};
use std::fmt;
use std::hash::{Hash, Hasher};

/// A hasher that notes everything it is given.
#[derive(Default, PartialEq)]
struct Note(Vec<u8>);
impl Hasher for Note {
  fn finish(&self) -> u64 {
    self.0.len() as u64
  }
  fn write(&mut self, b: &[u8]) {
    self.0.extend_from_slice(b);
  }
}
fn hash<T: Hash>(t: &T) -> Vec<u8> {
  let mut h = Note::default();
  t.hash(&mut h);
  h.0
}

fn any_span() -> Span {
  let mut s = Span::new(FileType::Buffer);
  s.update_loc(Location { line: sym::any_u32(), col: sym::any_u32() });
  let e = s.clone().into_end_updated({
    let mut e = s.clone();
    e.update_loc(Location { line: sym::any_u32(), col: sym::any_u32() });
    e
  });
  e
}

/// A kind with an equality of its own.
#[derive(Clone, Debug)]
struct Caseless(u8);
impl PartialEq for Caseless {
  fn eq(&self, o: &Self) -> bool {
    self.0.eq_ignore_ascii_case(&o.0)
  }
}
impl Eq for Caseless {}
impl Hash for Caseless {
  fn hash<H: Hasher>(&self, h: &mut H) {
    h.write_u8(self.0.to_ascii_lowercase());
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Plain {
  Byte(u8),
  Pair(u16, bool),
  Text(Vec<u8>),
  Unit,
}
fn any_plain() -> Plain {
  match sym::range(0, 3) {
    0 => Plain::Byte(sym::byte()),
    1 => Plain::Pair(sym::any_u32() as u16, sym::byte() & 1 == 1),
    2 => {
      let n = sym::range(0, 2);
      Plain::Text(sym::vec(n))
    }
    _ => Plain::Unit,
  }
}

/// Equality and hashing of tokens are those of their kinds.
fn tokens<K: PartialEq + Eq + Hash + Clone>(a: K, b: K) {
  let (sa, sb) = (any_span(), any_span());
  let (x, y) = (Token { kind: a.clone(), span: sa.clone() }, Token { kind: b.clone(), span: sb });
  let eq = a == b;
  sym::observe(eq as u64);
  check!((x == y) == eq);
  check!((y == x) == eq);
  check!((x != y) != eq);
  check!((x == b) == eq);
  check!((y == a) == eq);
  check!(x == x.clone());
  check!(hash(&x) == hash(&a));
  check!(hash(&y) == hash(&b));
  if eq {
    check!(hash(&x) == hash(&y));
    sym::cover(0);
  } else {
    sym::cover(1);
  }
  // the kind can be borrowed and changed in place
  let k: &K = x.borrow();
  check!(*k == a);
  check!(*AsRef::<K>::as_ref(&y) == b);
  check!(x.span() == sa);
  let mut z = x.clone();
  *BorrowMut::<K>::borrow_mut(&mut z) = b.clone();
  check!(z == y && z.kind == b);
  *AsMut::<K>::as_mut(&mut z) = a.clone();
  check!(z == x && z.span == sa);
}

#[no_mangle]
pub extern "C" fn c18_tokens() {
  match sym::range(0, 3) {
    0 => tokens(sym::byte(), sym::byte()),
    1 => tokens(sym::any_u64(), sym::any_u64()),
    2 => tokens(Caseless(sym::byte()), Caseless(sym::byte())),
    _ => tokens(any_plain(), any_plain()),
  }
}

/// A value of the kind's type.
#[derive(Clone, Debug, PartialEq)]
pub struct Opaque(u32);
impl fmt::Display for Opaque {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("<opaque>")
  }
}

/// Kinds of all forms.
#[token_kind]
#[derive(Debug)]
pub enum Kind {
  /// Integer literal.
  Int(u32),
  /// A text,
  /// in two lines
  Text(String),
  NoComment(char),
  Opaque(Opaque),
  ///
  EmptyComment,
  /// Ends With Dots...
  Dots,
  Two(u32, char),
  /// Named {braces} of {{kind}}.
  Named {
    #[allow(dead_code)]
    x: u32,
  },
  Nothing(),
  /// `{`
  Open,
  Q,
  /// {v}: {}
  Braces(u8),
  /// End-of-file.
  Eof,
}
fn any_kind() -> (usize, Kind, u32, String) {
  let v = sym::any_u32();
  let c = sym::any_char();
  let n = sym::range(0, 2);
  let s = if n == 0 { String::new() } else { sym::ascii(n) };
  let i = sym::range(0, 12);
  let k = match i {
    0 => Kind::Int(v),
    1 => Kind::Text(s.clone()),
    2 => Kind::NoComment(c),
    3 => Kind::Opaque(Opaque(v)),
    4 => Kind::EmptyComment,
    5 => Kind::Dots,
    6 => Kind::Two(v, c),
    7 => Kind::Named { x: v },
    8 => Kind::Nothing(),
    9 => Kind::Open,
    10 => Kind::Q,
    11 => Kind::Braces(v as u8),
    _ => Kind::Eof,
  };
  (i, k, if i == 2 { c as u32 } else { v }, s)
}

/// Converting to values succeeds exactly for the declared variant.
#[no_mangle]
pub extern "C" fn c18_kinds() {
  let (i, k, v, s) = any_kind();
  let by_ref: Option<u32> = <&u32>::try_from(&k).ok().copied();
  check!(by_ref == if i == 0 { Some(v) } else { None });
  check!(u32::try_from(k.clone()) == if i == 0 { Ok(v) } else { Err(()) });
  check!(<&String>::try_from(&k) == if i == 1 { Ok(&s) } else { Err(()) });
  check!(String::try_from(k.clone()) == if i == 1 { Ok(s.clone()) } else { Err(()) });
  check!(<&char>::try_from(&k).ok().map(|c| *c as u32) == if i == 2 { Some(v) } else { None });
  check!(char::try_from(k.clone()).ok().map(|c| c as u32) == if i == 2 { Some(v) } else { None });
  check!(<&Opaque>::try_from(&k).ok().map(|c| c.0) == if i == 3 { Some(v) } else { None });
  check!(Opaque::try_from(k.clone()).ok() == if i == 3 { Some(Opaque(v)) } else { None });
  check!(u8::try_from(k.clone()).ok() == if i == 11 { Some(v as u8) } else { None });
  check!(<&u8>::try_from(&k).ok().copied() == if i == 11 { Some(v as u8) } else { None });
  // and back
  match i {
    0 => check!(k == Kind::from(v) && Token::<Kind>::new(v, any_span()) == k),
    1 => check!(k == Kind::from(s.clone()) && Token::<Kind>::new(s, any_span()) == k),
    2 => check!(k == Kind::from(unsafe { char::from_u32_unchecked(v) })),
    3 => check!(k == Kind::from(Opaque(v))),
    11 => check!(k == Kind::from(v as u8)),
    _ => {}
  }
  sym::observe(i as u64);
  sym::cover(i as u32);
}

/// Kinds are equal exactly when the variant and the value are.
#[no_mangle]
pub extern "C" fn c18_equal() {
  let (i, a, v, s) = any_kind();
  let (j, b, w, t) = any_kind();
  let eq = i == j
    && match i {
      0 | 2 | 3 | 7 => v == w,
      1 => s == t,
      6 => match (&a, &b) {
        (Kind::Two(v, c), Kind::Two(w, d)) => v == w && c == d,
        _ => fail!(),
      },
      11 => v as u8 == w as u8,
      _ => true,
    };
  sym::observe(eq as u64);
  check!((a == b) == eq);
  let (x, y) = (Token { kind: a.clone(), span: any_span() }, Token { kind: b, span: any_span() });
  check!((x == y) == eq);
  check!((y == a) == eq);
  sym::cover(eq as u32);
}

/// Kinds and tokens display as documented.
#[no_mangle]
pub extern "C" fn c18_display() {
  let (i, k, v, s) = any_kind();
  if i == 0 || i == 11 {
    // keep the formatted numbers to a few digits
    sym::assume(v < 256);
  }
  if i == 2 {
    sym::assume(v < 0x80);
  }
  let want = match i {
    0 => format!("integer literal `{v}`"),
    1 => format!("a text, in two lines `{s}`"),
    2 => format!("no comment `{}`", v as u8 as char),
    3 => "opaque `<opaque>`".into(),
    4 => "empty comment".into(),
    5 => "ends with dots..".into(),
    6 => "two".into(),
    7 => "named {braces} of {{kind}}".into(),
    8 => "nothing".into(),
    9 => "`{`".into(),
    10 => "q".into(),
    11 => format!("{{v}}: {{}} `{v}`"),
    _ => "end-of-file".to_string(),
  };
  check!(k.to_string() == want);
  let t = Token { kind: k, span: any_span() };
  check!(format!("{t}") == want);
  sym::cover(i as u32);
}

// Tokens of a derived kind, and the values they carry.
token_ast! {
  #[derive(Debug, PartialEq)]
  macro crate::c18::Tk<Kind> {
    [int] => { kind: Kind::Int(_), prompt: "integer" },
    [text] => { kind: Kind::Text(_), prompt: "text" },
    [small] => { kind: Kind::Int(v) if *v < 10, prompt: "small integer" },
    [eof] => { kind: Kind::Eof },
  }
}
struct Single(Option<Token<Kind>>);
impl laps::token::Tokenizer for Single {
  type Token = Token<Kind>;
  fn next_token(&mut self) -> laps::span::Result<Token<Kind>> {
    Ok(self.0.take().unwrap_or(Token { kind: Kind::Eof, span: Span::new(FileType::Buffer) }))
  }
}
/// Unwrapping a token's type gives back the value.
#[no_mangle]
pub extern "C" fn c18_unwrap() {
  use laps::token::TokenBuffer;
  let v = sym::any_u32();
  let span = any_span();
  let mut ts = TokenBuffer::new(Single(Some(Token { kind: Kind::Int(v), span: span.clone() })));
  match sym::range(0, 3) {
    0 => {
      let t: Tk![int] = match ts.parse() {
        Ok(t) => t,
        Err(_) => fail!(),
      };
      check!(*t.unwrap_ref::<&u32, _>() == v);
      check!(t.span() == span);
      check!(t.unwrap::<u32, _>() == v);
      sym::cover(0);
    }
    1 => {
      sym::assume(v < 1000);
      let t: laps::span::Result<Tk![small]> = ts.parse();
      check!(t.is_ok() == (v < 10));
      if let Ok(t) = t {
        check!(t.unwrap::<u32, _>() == v);
      }
      sym::cover(1);
    }
    2 => {
      sym::assume(v < 10);
      check!(ts.parse::<Tk![text]>().is_err());
      sym::cover(2);
    }
    _ => {
      sym::assume(v < 10);
      check!(ts.parse::<Tk![eof]>().is_err());
      sym::cover(3);
    }
  }
}
