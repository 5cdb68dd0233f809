//! C12: string and character literals.
use crate::sym;
use laps::lexer::{char_literal, str_literal};

#[derive(PartialEq, Clone, Copy)]
enum Item {
  /// A character and the number of characters it is written with.
  Char(u32, usize),
  Quote,
  Bad,
}

/// (is a hexadecimal digit, its value)
fn hex(c: char) -> (bool, u32) {
  let c = c as u32;
  let d = c.wrapping_sub('0' as u32);
  let l = (c | 0x20).wrapping_sub('a' as u32);
  let (is_d, is_l) = (d < 10, l < 6);
  (is_d | is_l, sym::ite(is_d, d as u64, l as u64 + 10) as u32)
}

/// The reference: what the text at the start of `s` denotes.
fn item(s: &[char], quote: char) -> Item {
  let Some(&c) = s.first() else { return Item::Bad };
  if c == quote {
    return Item::Quote;
  }
  if c == '\n' || c == '\r' || c == '\t' {
    return Item::Bad;
  }
  if c != '\\' {
    return Item::Char(c as u32, 1);
  }
  let Some(&e) = s.get(1) else { return Item::Bad };
  for (k, v) in [('r', 13), ('n', 10), ('t', 9), ('0', 0), ('\\', 92), ('\'', 39), ('"', 34)] {
    if e == k {
      return Item::Char(v, 2);
    }
  }
  if e == 'x' {
    if s.len() < 4 {
      return Item::Bad;
    }
    let (a, b) = (hex(s[2]), hex(s[3]));
    return if a.0 & b.0 { Item::Char(a.1 * 16 + b.1, 4) } else { Item::Bad };
  }
  if e == 'u' {
    if s.len() < 3 || s[2] != '{' {
      return Item::Bad;
    }
    let mut v = 0u64;
    let mut i = 3;
    loop {
      let Some(&c) = s.get(i) else { return Item::Bad };
      let h = hex(c);
      if h.0 {
        v = v * 16 + h.1 as u64;
        if v > 0x10ffff {
          return Item::Bad;
        }
        i += 1;
      } else if c == '}' {
        break;
      } else {
        return Item::Bad;
      }
    }
    if i == 3 || (v >= 0xd800 && v < 0xe000) {
      return Item::Bad;
    }
    return Item::Char(v as u32, i + 1);
  }
  Item::Bad
}

fn ref_str(s: &[char]) -> Option<Vec<u32>> {
  if *s.first()? != '"' {
    return None;
  }
  let mut s = &s[1..];
  let mut out = vec![];
  loop {
    match item(s, '"') {
      Item::Char(c, n) => {
        out.push(c);
        s = &s[n..];
      }
      Item::Quote => return (s.len() == 1).then_some(out),
      Item::Bad => return None,
    }
  }
}

fn ref_char(s: &[char]) -> Option<u32> {
  if *s.first()? != '\'' {
    return None;
  }
  match item(&s[1..], '\'') {
    Item::Char(c, n) => (s.len() == n + 2 && s[n + 1] == '\'').then_some(c),
    _ => None,
  }
}

fn str_case(s: &str) {
  let cs: Vec<char> = s.chars().collect();
  let want = ref_str(&cs);
  let got = str_literal(s);
  sym::observe(got.as_ref().map_or(99, |s| s.len() as u64));
  match (want, got) {
    (None, None) => sym::cover(0),
    (Some(w), Some(g)) => {
      sym::cover(1);
      let mut n = 0;
      let mut ok = true;
      // decoding the result again checks that it is valid
      for c in g.chars() {
        ok &= n < w.len() && w[n] == c as u32;
        n += 1;
      }
      check!(ok);
      check!(n == w.len());
    }
    _ => fail!(),
  }
}

fn char_case(s: &str) {
  let cs: Vec<char> = s.chars().collect();
  let want = ref_char(&cs);
  let got = char_literal(s);
  sym::observe(got.map_or(0x110000, |c| c as u64));
  match (want, got) {
    (None, None) => sym::cover(2),
    (Some(w), Some(g)) => {
      sym::cover(3);
      check!(w == g as u32);
    }
    _ => fail!(),
  }
}

#[cfg(not(feature = "thorough"))]
const ANY: usize = 8;
#[cfg(feature = "thorough")]
const ANY: usize = 10;

/// Every text.
#[no_mangle]
pub extern "C" fn c12_str_any() {
  str_case(&sym::text(ANY));
}
#[no_mangle]
pub extern "C" fn c12_char_any() {
  char_case(&sym::text(ANY));
}

/// A few arbitrary characters (of any width) around and inside an escape.
fn template(quote: char) -> String {
  let mut s = String::new();
  s.push(quote);
  match sym::range(0, 3) {
    0 => {
      s += "\\";
      for _ in 0..sym::range(1, 3) {
        s.push(sym::any_char());
      }
    }
    1 => {
      s += "\\x";
      for _ in 0..sym::range(1, 3) {
        s.push(sym::any_char());
      }
    }
    2 => {
      // the hexadecimal digits of a Unicode escape
      s += "\\u{";
      #[cfg(not(feature = "thorough"))]
      let n = sym::range(0, 4);
      #[cfg(feature = "thorough")]
      let n = sym::range(0, 6);
      // a digit far to the left, also beyond 32, 64 and 128 bits
      let k = sym::range(0, 13);
      if k > 4 {
        s += &sym::ascii(1);
        s += &"0".repeat([2, 4, 5, 6, 7, 13, 14, 29, 30][k - 5]);
        s += &sym::ascii(n.min(3));
      } else {
        s += ["", "d", "10", "7", "000000000"][k];
        s += &sym::ascii(n);
      }
      s += "}";
    }
    _ => {
      s.push(sym::any_char());
      s.push(sym::any_char());
      s.push_str("\\");
    }
  }
  s.push(quote);
  if sym::range(0, 1) == 1 {
    s.push(sym::any_char());
  }
  s
}
#[no_mangle]
pub extern "C" fn c12_str_escape() {
  str_case(&template('"'));
}
#[no_mangle]
pub extern "C" fn c12_char_escape() {
  char_case(&template('\''));
}

/// Every character value, written literally and as an escape.
#[no_mangle]
pub extern "C" fn c12_round_trip() {
  let c = sym::any_char();
  let kind = sym::range(0, 1);
  let mut body = String::new();
  if sym::range(0, 1) == 0 {
    sym::assume(c != '\n' && c != '\r' && c != '\t' && c != '\\' && c != '"' && c != '\'');
    body.push(c);
  } else {
    body += "\\u{";
    let upper = sym::range(0, 1) == 1;
    for k in 0..6 {
      let d = (c as u32 >> (20 - 4 * k)) & 15;
      let a = if upper { b'A' } else { b'a' };
      let x = sym::ite(d < 10, (b'0' as u32 + d) as u64, (a as u32 + d).wrapping_sub(10) as u64);
      body.push(x as u8 as char);
    }
    body += "}";
  }
  if kind == 0 {
    check!(char_literal(&format!("'{body}'")) == Some(c));
    sym::cover(0);
  } else {
    let r = str_literal(&format!("\"{body}{body}\""));
    match r {
      None => fail!(),
      Some(s) => {
        let mut i = s.chars();
        check!(i.next() == Some(c));
        check!(i.next() == Some(c));
        check!(i.next().is_none());
        sym::cover(1);
      }
    }
  }
}
