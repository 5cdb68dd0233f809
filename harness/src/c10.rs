//! C10: the helpers of input streams.
use crate::sym;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{Location, Result, Span};

fn step(l: (u32, u32), c: u32) -> (u32, u32) {
  let nl = c == '\n' as u32;
  (l.0 + nl as u32, sym::ite(nl, 0, l.1 as u64 + 1) as u32)
}
fn lc(l: Location) -> (u32, u32) {
  (l.line, l.col)
}

/// A stream with only the required methods (the other ones are the trait's).
struct Plain<R>(R);
impl<R: InputStream> InputStream for Plain<R> {
  type CharType = R::CharType;
  fn next_char_loc(&mut self) -> Result<(Option<R::CharType>, Location)> {
    self.0.next_char_loc()
  }
  fn unread(&mut self, last: (Option<R::CharType>, Location)) {
    self.0.unread(last)
  }
  fn span(&self) -> &Span {
    self.0.span()
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.0.set_line_col(line, col)
  }
}

/// What a predicate is.
struct Pred {
  kind: usize,
  a: u32,
  b: u32,
  esc: bool,
}
impl Pred {
  fn any() -> Self {
    let (a, b) = (sym::byte() as u32, sym::byte() as u32);
    Self { kind: sym::range(0, 3), a, b, esc: false }
  }
  /// Called once per character, in order.
  fn ask(&mut self, c: u32) -> bool {
    match self.kind {
      // a stop character
      0 => c == self.a,
      // a range of them
      1 => (c >= self.a) & (c <= self.b),
      2 => false,
      // a quote that is not escaped (the predicate has state)
      _ => {
        let stop = c == self.a && !self.esc;
        self.esc = c == self.b && !self.esc;
        stop
      }
    }
  }
}

/// One helper call somewhere in `all`, and what is left.
fn one<I>(r: &mut I, all: &[u32], val: fn(&I::CharType) -> u32)
where
  I: InputStream,
  I::CharType: Clone,
{
  let mut at = (1, 0);
  let mut i = sym::range(0, all.len().min(1));
  for k in 0..i {
    check!(matches!(r.next_char(), Ok(Some(c)) if val(&c) == all[k]));
    at = step(at, all[k]);
  }
  let mut p = Pred::any();
  let mut reference = Pred { ..p };
  let how = sym::range(0, 7);
  // what should be consumed
  let mut want = vec![];
  let start = i;
  match how {
    0 | 1 | 2 => {
      while i < all.len() && !reference.ask(all[i]) {
        want.push(all[i]);
        i += 1;
      }
    }
    3 | 4 | 5 => i = (i + 1).min(all.len()),
    _ => {}
  }
  let first = if start < all.len() { step(at, all[start]) } else { at };
  for k in start..i {
    at = step(at, all[k]);
  }
  let next = all.get(start).copied();
  match how {
    0 => {
      let x = r.skip_until(|c| p.ask(val(&c)));
      check!(x.is_ok());
    }
    1 => match r.collect_until(|c| p.ask(val(c))) {
      Ok(v) => check!(v.iter().map(val).eq(want.iter().copied())),
      Err(_) => fail!(),
    },
    2 => match r.collect_with_span_until(|c| p.ask(val(c))) {
      Ok((v, span)) => {
        check!(v.iter().map(val).eq(want.iter().copied()));
        if !want.is_empty() {
          check!(lc(span.start()) == first && lc(span.end()) == at);
          sym::cover(0);
        }
      }
      Err(_) => fail!(),
    },
    3 => check!(matches!(r.next_char(), Ok(c) if c.as_ref().map(val) == next)),
    4 => match r.next_char_span() {
      Ok((c, s)) => check!(c.as_ref().map(val) == next && lc(s.start()) == at && lc(s.end()) == at),
      Err(_) => fail!(),
    },
    5 => match r.next_span() {
      Ok(s) => check!(lc(s.start()) == at && lc(s.end()) == at),
      Err(_) => fail!(),
    },
    6 => check!(matches!(r.peek(), Ok(c) if c.as_ref().map(val) == next)),
    _ => match r.peek_with_span() {
      Ok((c, s)) => check!(c.as_ref().map(val) == next && lc(s.start()) == first && lc(s.end()) == first),
      Err(_) => fail!(),
    },
  }
  sym::observe(i as u64);
  check!(lc(r.span().start()) == at && lc(r.span().end()) == at);
  if i < all.len() && how < 3 {
    sym::cover(1);
  }
  for c in &all[i..] {
    match r.next_char() {
      Ok(Some(g)) => check!(val(&g) == *c),
      _ => fail!(),
    }
  }
  check!(matches!(r.next_char(), Ok(None)));
  sym::cover(2);
}

#[cfg(not(feature = "thorough"))]
const LEN: usize = 5;
#[cfg(feature = "thorough")]
const LEN: usize = 7;

#[no_mangle]
pub extern "C" fn c10_chars() {
  let s = sym::text(LEN);
  let all: Vec<u32> = s.chars().map(|c| c as u32).collect();
  if sym::range(0, 1) == 0 {
    one(&mut Reader::from(s.as_str()), &all, |c| *c as u32);
  } else {
    one(&mut Plain(Reader::from(s.as_str())), &all, |c| *c as u32);
  }
}

#[no_mangle]
pub extern "C" fn c10_bytes() {
  let n = sym::range(0, LEN);
  let s = sym::vec(n);
  let all: Vec<u32> = s.iter().map(|c| *c as u32).collect();
  if sym::range(0, 1) == 0 {
    one(&mut ByteReader::from(s.as_slice()), &all, |c| *c as u32);
  } else {
    one(&mut Plain(ByteReader::from(s.as_slice())), &all, |c| *c as u32);
  }
}
