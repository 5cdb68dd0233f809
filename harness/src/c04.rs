//! C04: feeding symbol by symbol.
use crate::reref::*;
use crate::sym;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};
use regex_syntax::hir::Hir;

fn live_any(hs: &[(Hir, usize)], mode: Mode, s: &[u32]) -> u32 {
  hs.iter().fold(0, |m, (h, _)| m | live(h, mode, s, 0))
}

macro_rules! history {
  ($m:ident, $hs:ident, $mode:expr, $sym:expr, $conv:expr, $steps:expr) => {
    let mut fed = vec![];
    let mut us: Vec<u32> = vec![];
    let tag = |t: Option<&usize>| t.map_or(0, |t| *t as u64 + 1);
    for _ in 0..$steps {
      match sym::range(0, 2) {
        0 => {
          let c = $sym;
          let before = $m.state();
          let old = best_tag(&$hs, $mode, &us);
          let got = $m.is_accept(&c);
          sym::observe(got as u64);
          us.push($conv(c));
          check!(got as u32 == live_any(&$hs, $mode, &us));
          sym::cover(got as u32);
          if got {
            fed.push(c);
          } else {
            // a rejected symbol changes nothing
            us.pop();
          }
          check!(tag($m.is_state_final(before)) == old);
        }
        1 => {
          $m.reset();
          fed.clear();
          us.clear();
        }
        _ => {
          // a whole-input match does not disturb the stream
          let s = [$sym];
          let whole = tag($m.is_match(&s));
          check!(whole == best_tag(&$hs, $mode, &[$conv(s[0])]));
        }
      }
      let want = best_tag(&$hs, $mode, &us);
      check!(tag($m.is_final()) == want);
      check!(tag($m.is_state_final($m.state())) == want);
      check!(tag($m.is_match(&fed)) == want);
      if want > 0 {
        sym::cover(2);
      }
    }
  };
}

#[no_mangle]
pub extern "C" fn c04_chars() {
  let sets: [&[(&str, usize)]; 16] = [
    &[("ab", 0), ("a*", 1)],
    &[("abc|bd", 0), ("[ab]", 1)],
    &[("[a-z]+", 1), ("if", 0)],
    &[("a{2,3}", 0)],
    &[(".b", 0), ("[^a]", 1)],
    &[("é|éé", 3), (r"[\x{80}-\x{10FFFF}]b", 1)],
    &[("", 0), ("ab", 1)],
    &[("", 0)],
    &[("a|ab|abc", 0), ("c", 1)],
    &[("(?:ab)*", 0)],
    &[("0|[1-9][0-9]*", 0), (r"[0-9]+\.[0-9]+", 1)],
    &[("a?b?c?", 0)],
    &[("(?:a|b)*abb", 0)],
    &[("(?:a*b)*c", 0), ("a+", 1)],
    &[("/[*]([^*]|[*][^/])*[*]/", 0), ("/", 1)],
    &[("(?:ab|cd){2}", 0)],
  ];
  let set = sets[sym::range(0, sets.len() - 1)];
  let mut b = RegexBuilder::new();
  let mut hs = vec![];
  for (re, t) in set {
    b = b.add(re, *t);
    hs.push((parse(re, Mode::Chars).unwrap(), *t));
  }
  let mut m: CharsMatcher<usize> = match b.enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  #[cfg(not(feature = "thorough"))]
  let steps = 4;
  #[cfg(feature = "thorough")]
  let steps = 5;
  history!(m, hs, Mode::Chars, sym::any_char(), |c| c as u32, steps);
}

/// Every small expression: liveness of every prefix.
#[no_mangle]
pub extern "C" fn c04_small() {
  #[cfg(not(feature = "thorough"))]
  let re = gen(sym::range(0, 2), &["a", "b", "[ab]", "ab"], &["*", "+", "?", "{2}"]);
  #[cfg(feature = "thorough")]
  let re = gen(sym::range(0, 3), &["a", "b", "[ab]", "ab"], &["*", "+", "?", "{2}"]);
  let hs = vec![(parse(&re, Mode::Chars).unwrap(), 0)];
  let mut m: CharsMatcher<usize> = match RegexBuilder::new().add(&re, 0).enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let cs = sym::chars(3);
  let mut us = vec![];
  for c in &cs {
    let got = m.is_accept(c);
    sym::observe(got as u64);
    us.push(*c as u32);
    check!(got as u32 == live_any(&hs, Mode::Chars, &us));
    if !got {
      break;
    }
    sym::cover(us.len() as u32);
    check!(m.is_final().map_or(0, |t| *t as u64 + 1) == best_tag(&hs, Mode::Chars, &us));
  }
}

#[no_mangle]
pub extern "C" fn c04_bytes() {
  let sets: [&[(&str, usize)]; 5] = [
    &[("ab", 0), ("a*", 1)],
    &[(r"(?-u:[\x80-\xff]+a)", 0), (r"(?-u:\xff)", 1)],
    &[("é", 0), (r"(?-u:\xc3)", 1)],
    &[(r"(?-u:[^a]*)", 1), ("b", 0)],
    &[(r"(?-u:[\x00-\xff]{2})", 1), ("b", 0)],
  ];
  let set = sets[sym::range(0, sets.len() - 1)];
  let mut b = RegexBuilder::new();
  let mut hs = vec![];
  for (re, t) in set {
    b = b.add(re, *t);
    hs.push((parse(re, Mode::Bytes).unwrap(), *t));
  }
  let mut m: BytesMatcher<usize> = match b.enable_par(Some(false)).build_bytes() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  history!(m, hs, Mode::Bytes, sym::byte(), |c| c as u32, 4);
}
