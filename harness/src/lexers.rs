//! Derived lexers, and the rules they are declared with.
#![allow(dead_code)]
use crate::reref::*;
use crate::sym;
use laps::input::InputStream;
use laps::lexer::{char_literal, int_literal, str_literal, Lexer, Tokenize};
use laps::span::{FileType, Location, LocationUpdate, Result, Span};
use laps::token::{Token, Tokenizer};
use regex_syntax::hir::Hir;

/// What a rule does with its text.
#[derive(Clone, Copy)]
pub enum Does {
  Skip,
  /// Yields a token, unless the text is not acceptable.
  Yield(fn(&[u32]) -> bool),
}
pub struct Rule {
  pub hir: Hir,
  pub does: Does,
}
/// A kind with the rules it was declared with.
pub trait Kind: Sized {
  const MODE: Mode;
  const EOF: Option<usize>;
  /// The expressions and what they do, by variant.
  fn rules() -> Vec<(usize, &'static str, Does)>;
  /// The variant, and whether it carries what the text denotes.
  fn variant(&self, text: &[u32]) -> (usize, bool);
}

pub fn any(_: &[u32]) -> bool {
  true
}
pub fn same(s: &str, text: &[u32]) -> bool {
  let mut n = 0;
  let mut ok = true;
  for c in s.chars() {
    ok &= n < text.len() && text[n] == c as u32;
    n += 1;
  }
  ok && n == text.len()
}
pub fn to_char(c: u32) -> char {
  unsafe { char::from_u32_unchecked(c) }
}

/// An input over characters in memory that notes what is consumed.
pub struct Tap<C> {
  pub all: Vec<C>,
  /// characters consumed
  pub at: usize,
  /// end-of-input results consumed
  pub ends: usize,
  span: Span,
}
impl<C> Tap<C> {
  pub fn new(all: Vec<C>) -> Self {
    Self { all, at: 0, ends: 0, span: Span::new(FileType::Buffer) }
  }
}
impl<C: Copy + LocationUpdate + PartialEq> InputStream for Tap<C> {
  type CharType = C;
  fn next_char_loc(&mut self) -> Result<(Option<C>, Location)> {
    let loc = self.span.end();
    if self.at < self.all.len() {
      let c = self.all[self.at];
      self.at += 1;
      self.span.update(&c);
      Ok((Some(c), loc))
    } else {
      Ok((None, loc))
    }
  }
  fn unread(&mut self, (c, loc): (Option<C>, Location)) {
    if let Some(c) = c {
      // only what was consumed last can come back
      check!(self.at > 0);
      self.at -= 1;
      check!(self.all[self.at] == c);
      self.span.update_loc(loc);
    }
  }
  fn span(&self) -> &Span {
    &self.span
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.span.update_loc(Location { line, col });
  }
}

/// What the next call must do: the tokens' variant, and the characters it
/// starts and ends at.
#[derive(Clone, Copy)]
pub enum Want {
  Token(usize, usize, usize),
  Error(usize, usize),
  Eof(usize),
}

pub struct Rules {
  hs: Vec<(Hir, usize)>,
  does: Vec<(usize, Does)>,
  mode: Mode,
}
impl Rules {
  pub fn of<K: Kind>() -> Self {
    let mut hs = vec![];
    let mut does = vec![];
    for (v, re, d) in K::rules() {
      hs.push((parse(re, K::MODE).unwrap(), v));
      does.push((v, d));
    }
    Self { hs, does, mode: K::MODE }
  }
  fn live(&self, s: &[u32]) -> bool {
    self.hs.iter().fold(0, |m, (h, _)| m | live(h, self.mode, s, 0)) != 0
  }
  /// `n` arbitrary symbols, and (concrete) ones that stand for them.
  pub fn input(&self, n: usize) -> (Vec<u32>, Vec<u32>) {
    let cs = classes(&self.hs, self.mode, &['\n' as u32]);
    (0..n).map(|_| symbol(&cs)).unzip()
  }
  /// The next result from character `at` of `us` on, which `rs` stands for.
  pub fn next(&self, us: &[u32], rs: &[u32], mut at: usize) -> Want {
    loop {
      let mut end = at;
      while end < rs.len() && self.live(&rs[at..end + 1]) {
        end += 1;
      }
      if end == at {
        return if end == rs.len() { Want::Eof(at) } else { Want::Error(at, end) };
      }
      let tag = best_tag(&self.hs, self.mode, &rs[at..end]);
      if tag == 0 {
        return Want::Error(at, end);
      }
      let v = tag as usize - 1;
      match self.does.iter().find(|d| d.0 == v).unwrap().1 {
        Does::Skip => at = end,
        Does::Yield(f) => {
          return if f(&us[at..end]) { Want::Token(v, at, end) } else { Want::Error(at, end) };
        }
      }
    }
  }
}

/// Tokenises `n` arbitrary symbols.
pub fn run<K: Kind + Tokenize<CharType = C>, C: Copy + LocationUpdate + PartialEq>(n: usize, conv: fn(u32) -> C, spans: bool) {
  let rules = Rules::of::<K>();
  let (us, rs) = rules.input(n);
  let all = us.iter().map(|u| conv(*u)).collect();
  check_all(&rules, K::lexer(Tap::new(all)), &us, &rs, spans);
}
/// Tokenises a text in which every `¿` is an arbitrary symbol.
pub fn run_text<K: Kind + Tokenize<CharType = C>, C: Copy + LocationUpdate + PartialEq>(text: &str, conv: fn(u32) -> C, spans: bool) {
  let rules = Rules::of::<K>();
  let n = text.chars().filter(|c| *c == '¿').count();
  let (hu, hr) = rules.input(n);
  let mut holes = hu.into_iter().zip(hr);
  let (us, rs): (Vec<u32>, Vec<u32>) = text.chars().map(|c| if c == '¿' { holes.next().unwrap() } else { (c as u32, c as u32) }).unzip();
  let all = us.iter().map(|u| conv(*u)).collect();
  check_all(&rules, K::lexer(Tap::new(all)), &us, &rs, spans);
}
/// Tokenises with the given lexer and checks the kinds; with `spans`, what is
/// consumed and the spans.
pub fn check_all<K: Kind + Tokenize, I: Consumed + InputStream<CharType = K::CharType>>(rules: &Rules, mut lexer: Lexer<I, K>, us: &[u32], rs: &[u32], spans: bool) {
  let mut at = 0;
  let mut ends = 0;
  while ends < 2 {
    let want = rules.next(us, rs, at);
    let got = lexer.next_token();
    let consumed = lexer.input().consumed();
    match want {
      Want::Token(v, s, e) => {
        let Ok(t) = got else { fail!() };
        let (variant, ok) = t.kind.variant(&us[s..e]);
        sym::observe(variant as u64);
        check!(variant == v);
        check!(ok);
        at = e;
        if spans {
          check!(consumed.map_or(true, |n| n == e));
          check_span(&t.span, us, s, e);
        }
        sym::cover(0);
      }
      Want::Error(_, e) => {
        check!(got.is_err());
        at = e;
        if spans {
          check!(consumed.map_or(true, |n| n == e));
        }
        sym::cover(1);
        if at < us.len() {
          // what follows cannot be a token: step over it
          check!(matches!(lexer.input_mut().next_char(), Ok(Some(_))));
          at = e + 1;
        }
      }
      Want::Eof(s) => {
        match K::EOF {
          Some(v) => {
            let Ok(t) = got else { fail!() };
            check!(t.kind.variant(&[]).0 == v);
            if spans {
              check_span(&t.span, us, s, s);
            }
          }
          None => check!(got.is_err()),
        }
        check!(consumed.map_or(true, |n| n == us.len()));
        ends += 1;
        sym::cover(2);
      }
    }
  }
}

/// How much of an input was consumed, where known.
pub trait Consumed {
  fn consumed(&self) -> Option<usize>;
}
impl<C> Consumed for Tap<C> {
  fn consumed(&self) -> Option<usize> {
    Some(self.at)
  }
}
impl<R> Consumed for laps::reader::Reader<R> {
  fn consumed(&self) -> Option<usize> {
    None
  }
}
impl<R> Consumed for laps::reader::ByteReader<R> {
  fn consumed(&self) -> Option<usize> {
    None
  }
}

fn walk(us: &[u32]) -> (u32, u32) {
  let (mut line, mut col) = (1, 0);
  for c in us {
    let nl = *c == '\n' as u32;
    col = sym::ite(nl, 0, col as u64 + 1) as u32;
    line += nl as u32;
  }
  (line, col)
}
fn lc(l: Location) -> (u32, u32) {
  (l.line, l.col)
}
/// A span starts at its first character and ends at its last one.
pub fn check_span(sp: &Span, us: &[u32], s: usize, e: usize) {
  check!(lc(sp.start()) == walk(&us[..(s + 1).min(us.len())]));
  check!(lc(sp.end()) == walk(&us[..e]));
}
pub fn codes(cs: &[char]) -> Vec<u32> {
  cs.iter().map(|c| *c as u32).collect()
}

macro_rules! kind {
  ($t:ident, $mode:expr, eof $eof:expr, $rules:expr, $f:expr) => {
    impl Kind for $t {
      const MODE: Mode = $mode;
      const EOF: Option<usize> = $eof;
      fn rules() -> Vec<(usize, &'static str, Does)> {
        $rules
      }
      fn variant(&self, text: &[u32]) -> (usize, bool) {
        let f: fn(&$t, &[u32]) -> (usize, bool) = $f;
        f(self, text)
      }
    }
  };
}
use Does::*;

/// A small programming language.
#[derive(Tokenize, Debug, Clone, PartialEq)]
pub enum Lang {
  #[skip(r"[ \t\n]+|//[^\n]*")]
  Space,
  #[regex("if")]
  If,
  #[regex("in")]
  In(),
  #[regex("[a-z_][a-z0-9_]*")]
  Ident(String),
  #[regex(r"[0-9]+")]
  Int(u8),
  #[regex(r"[0-9]+\.[0-9]+")]
  Float(String),
  #[regex("==|=|<=|<|!=")]
  Op(String),
  #[regex("[(){}/]", |s: &str| s.chars().next())]
  Other(char),
  #[eof]
  Eof,
}
fn fits_u8(t: &[u32]) -> bool {
  value(t) < 256
}
fn value(t: &[u32]) -> u64 {
  t.iter().fold(0, |v, d| v * 10 + (*d - '0' as u32) as u64)
}
kind!(Lang, Mode::Chars, eof Some(8),
  vec![
    (0, r"[ \t\n]+|//[^\n]*", Skip), (1, "if", Yield(any)), (2, "in", Yield(any)), (3, "[a-z_][a-z0-9_]*", Yield(any)), (4, r"[0-9]+", Yield(fits_u8)),
    (5, r"[0-9]+\.[0-9]+", Yield(any)), (6, "==|=|<=|<|!=", Yield(any)), (7, "[(){}/]", Yield(any)),
  ],
  |k, t| match k {
    Lang::Space => (0, true),
    Lang::If => (1, true),
    Lang::In() => (2, true),
    Lang::Ident(s) => (3, same(s, t)),
    Lang::Int(n) => (4, *n as u64 == value(t)),
    Lang::Float(s) => (5, same(s, t)),
    Lang::Op(s) => (6, same(s, t)),
    Lang::Other(c) => (7, t.len() == 1 && t[0] == *c as u32),
    Lang::Eof => (8, true),
  });

/// Overlapping rules, in an order where the first one counts; skipping wins
/// or loses like any other rule.
#[derive(Tokenize, Debug, Clone, PartialEq)]
#[enable_par(false)]
pub enum Overlap {
  #[regex("a|ab")]
  A(String),
  #[regex("ab|abc")]
  B,
  #[skip("b|bb")]
  S,
  #[regex("b+|[a-c]+d")]
  C(String),
  #[eof]
  Eof(),
  #[skip("a*c")]
  T,
  // never matches: all of it is taken
  #[regex("bb")]
  D,
  #[regex("[^a-d]")]
  E(char),
}
kind!(Overlap, Mode::Chars, eof Some(4),
  vec![(0, "a|ab", Yield(any)), (1, "ab|abc", Yield(any)), (2, "b|bb", Skip), (3, "b+|[a-c]+d", Yield(any)), (5, "a*c", Skip), (6, "bb", Yield(any)), (7, "[^a-d]", Yield(any))],
  |k, t| match k {
    Overlap::A(s) => (0, same(s, t)),
    Overlap::B => (1, true),
    Overlap::S => (2, true),
    Overlap::C(s) => (3, same(s, t)),
    Overlap::Eof() => (4, true),
    Overlap::T => (5, true),
    Overlap::D => (6, true),
    Overlap::E(c) => (7, t.len() == 1 && t[0] == *c as u32),
  });

/// Expressions that also match nothing, and no end-of-file.
#[derive(Tokenize, Debug, Clone, PartialEq)]
#[enable_par(true)]
pub enum Nullable {
  #[regex("[0-9]*")]
  Digits(String),
  #[skip(r"\s*")]
  Space,
  #[regex("(?:xy)*")]
  Pairs(String),
}
kind!(Nullable, Mode::Chars, eof None,
  vec![(0, "[0-9]*", Yield(any)), (1, r"\s*", Skip), (2, "(?:xy)*", Yield(any))],
  |k, t| match k {
    Nullable::Digits(s) => (0, same(s, t)),
    Nullable::Space => (1, true),
    Nullable::Pairs(s) => (2, same(s, t)),
  });

/// Characters from all over.
#[derive(Tokenize, Debug, Clone, PartialEq)]
pub enum Wide {
  #[regex(r"[\x{4e00}-\x{9fff}]+")]
  Han(String),
  #[regex(r"é|éé|[\x{e0}-\x{ff}]")]
  Accent(String),
  #[skip(r"[\x{1F600}-\x{1F64F}]+\n?")]
  Emoji,
  #[regex(r"[^\x00-\x{fff}][\x{10fff0}-\x{10ffff}]")]
  Last(String),
  #[regex(r"\x{0}+|\x{10ffff}")]
  Zero(String),
  #[eof]
  Eof,
}
kind!(Wide, Mode::Chars, eof Some(5),
  vec![
    (0, r"[\x{4e00}-\x{9fff}]+", Yield(any)), (1, r"é|éé|[\x{e0}-\x{ff}]", Yield(any)), (2, r"[\x{1F600}-\x{1F64F}]+\n?", Skip),
    (3, r"[^\x00-\x{fff}][\x{10fff0}-\x{10ffff}]", Yield(any)), (4, r"\x{0}+|\x{10ffff}", Yield(any)),
  ],
  |k, t| match k {
    Wide::Han(s) => (0, same(s, t)),
    Wide::Accent(s) => (1, same(s, t)),
    Wide::Emoji => (2, true),
    Wide::Last(s) => (3, same(s, t)),
    Wide::Zero(s) => (4, same(s, t)),
    Wide::Eof => (5, true),
  });

/// Bytes.
#[derive(Tokenize, Debug, Clone, PartialEq)]
#[char_type(u8)]
pub enum Bytes {
  #[skip(r"(?-u:[\x00 \n]+)")]
  Space,
  #[regex(r"(?-u:[a-z]+)", |s: &[u8]| Some(s.to_vec()))]
  Word(Vec<u8>),
  #[regex(r"é|è|\x{80}|(?-u:[\x01-\x1f])é", |s: &[u8]| if s[0] == 0x1f { None } else { Some(s.len()) })]
  High(usize),
  #[regex(r"\x{10ffff}(?-u:[\x10-\x7f])?")]
  Ff,
  #[regex(r"do|(?-u:[0-9\x7f]\.)")]
  Do,
  #[eof]
  Eof,
}
kind!(Bytes, Mode::Bytes, eof Some(5),
  vec![
    (0, r"(?-u:[\x00 \n]+)", Skip), (1, r"(?-u:[a-z]+)", Yield(any)), (2, r"é|è|\x{80}|(?-u:[\x01-\x1f])é", Yield(|t| t[0] != 0x1f)), (3, r"\x{10ffff}(?-u:[\x10-\x7f])?", Yield(any)),
    (4, r"do|(?-u:[0-9\x7f]\.)", Yield(any)),
  ],
  |k, t| match k {
    Bytes::Space => (0, true),
    Bytes::Word(w) => (1, w.len() == t.len() && w.iter().zip(t).all(|(a, b)| *a as u32 == *b)),
    Bytes::High(n) => (2, *n == t.len()),
    Bytes::Ff => (3, true),
    Bytes::Do => (4, true),
    Bytes::Eof => (5, true),
  });

/// Literals, whose parsers may refuse the text.
#[derive(Tokenize, Debug, Clone, PartialEq)]
pub enum Literals {
  #[regex(r#"'[^'\n]*'"#, char_literal)]
  Char(char),
  #[regex(r#""([^"\\]|\\.)*""#, str_literal)]
  Str(String),
  #[regex(r"[0-9][0-9a-zA-Z]*", int_literal)]
  Int(u16),
  #[skip(r"[ \n]")]
  Space,
  #[eof]
  Eof,
}
fn string(t: &[u32]) -> String {
  t.iter().map(|c| unsafe { char::from_u32_unchecked(*c) }).collect()
}
kind!(Literals, Mode::Chars, eof Some(4),
  vec![
    (0, r#"'[^'\n]*'"#, Yield(|t| char_literal(&string(t)).is_some())), (1, r#""([^"\\]|\\.)*""#, Yield(|t| str_literal(&string(t)).is_some())),
    (2, r"[0-9][0-9a-zA-Z]*", Yield(|t| int_literal::<u16>(&string(t)).is_some())), (3, r"[ \n]", Skip),
  ],
  |k, t| match k {
    Literals::Char(c) => (0, char_literal(&string(t)) == Some(*c)),
    Literals::Str(s) => (1, str_literal(&string(t)).as_ref() == Some(s)),
    Literals::Int(n) => (2, int_literal(&string(t)) == Some(*n)),
    Literals::Space => (3, true),
    Literals::Eof => (4, true),
  });

/// Tokens with line breaks in them, at their start and at their end.
#[derive(Tokenize, Debug, Clone, PartialEq)]
pub enum Lines {
  #[regex(r"#[a-z]*\n")]
  Directive(String),
  #[regex(r"\n[ \t]*")]
  Indent(String),
  #[regex(r"[a-z]+(?:\\\n[a-z]*)*")]
  Word(String),
  #[skip(r"[ \t]|;[^\n]*\n?")]
  Space,
  #[eof]
  Eof,
}
kind!(Lines, Mode::Chars, eof Some(4),
  vec![(0, r"#[a-z]*\n", Yield(any)), (1, r"\n[ \t]*", Yield(any)), (2, r"[a-z]+(?:\\\n[a-z]*)*", Yield(any)), (3, r"[ \t]|;[^\n]*\n?", Skip)],
  |k, t| match k {
    Lines::Directive(s) => (0, same(s, t)),
    Lines::Indent(s) => (1, same(s, t)),
    Lines::Word(s) => (2, same(s, t)),
    Lines::Space => (3, true),
    Lines::Eof => (4, true),
  });

/// The same for bytes.
#[derive(Tokenize, Debug, Clone, PartialEq)]
#[char_type(u8)]
pub enum ByteLines {
  #[regex(r"#(?-u:[a-z]*)\n", |s: &[u8]| Some(s.len()))]
  Directive(usize),
  #[regex(r"(?-u:[\n\r])+")]
  Break,
  #[regex(r"(?-u:[\x00-\x09\x0b\x0c\x0e-!$-\x7f])\n?")]
  Other,
  #[eof]
  Eof,
}
kind!(ByteLines, Mode::Bytes, eof Some(3),
  vec![(0, r"#(?-u:[a-z]*)\n", Yield(any)), (1, r"(?-u:[\n\r])+", Yield(any)), (2, r"(?-u:[\x00-\x09\x0b\x0c\x0e-!$-\x7f])\n?", Yield(any))],
  |k, t| match k {
    ByteLines::Directive(n) => (0, *n == t.len()),
    ByteLines::Break => (1, true),
    ByteLines::Other => (2, true),
    ByteLines::Eof => (3, true),
  });

/// Automata with as many states as fit an element of the table, and more.
macro_rules! long {
  ($t:ident, $re:literal) => {
    #[derive(Tokenize, Debug, Clone, PartialEq)]
    pub enum $t {
      #[regex($re)]
      Long(String),
      #[skip(r"b")]
      B,
      #[eof]
      Eof,
    }
  };
}
long!(Long254, "a{253}");
long!(Long255, "a{254}");
long!(Long256, "a{255}");
long!(Long257, "a{256}");

/// Reads `n` times an a, then a few arbitrary characters.
pub fn run_long<K: Tokenize<CharType = char>>(total: usize, text: fn(&K) -> Option<usize>, is_eof: fn(&K) -> bool) {
  let n = total - sym::range(0, 2);
  let mut cs = vec!['a'; n];
  cs.extend(sym::chars(sym::range(0, 3)));
  let us = codes(&cs);
  let mut lexer = K::lexer(Tap::new(cs));
  let mut at = 0;
  while at < us.len() {
    // the run of the letter, or of one b
    let mut end = at;
    while end < us.len() && end - at < total && us[end] == 'a' as u32 {
      end += 1;
    }
    let b = end == at && us[at] == 'b' as u32;
    if b {
      at += 1;
      if at < us.len() {
        continue;
      }
    }
    let got = lexer.next_token();
    if b {
      check!(matches!(got, Ok(t) if is_eof(&t.kind)));
    } else if end - at == total {
      check!(matches!(got, Ok(t) if text(&t.kind) == Some(total)));
      at = end;
      sym::cover(0);
    } else {
      check!(got.is_err());
      check!(lexer.input().at == end);
      sym::cover(1);
      return;
    }
  }
  check!(matches!(lexer.next_token(), Ok(t) if is_eof(&t.kind)));
  sym::cover(2);
}
pub fn _unused(_: Token<Lang>) {}
