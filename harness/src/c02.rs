//! C02: the smallest tag of the matching expressions is reported.
use crate::reref::*;
use crate::sym;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};

/// Adds `n` expressions with tags in any order, with repeats.
fn pick(n: usize, res: &[&'static str], tags: usize) -> Vec<(&'static str, usize)> {
  (0..n).map(|_| (res[sym::range(0, res.len() - 1)], sym::range(0, tags - 1) * 2)).collect()
}

fn run_chars(set: &[(&'static str, usize)], max: usize) {
  let mut b = RegexBuilder::new();
  let mut hs = vec![];
  for (re, t) in set {
    b = b.add(re, *t);
    hs.push((parse(re, Mode::Chars).unwrap(), *t));
  }
  let mut m: CharsMatcher<usize> = match b.enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let cs = sym::chars(sym::range(0, max));
  let us: Vec<u32> = cs.iter().map(|c| *c as u32).collect();
  let want = best_tag(&hs, Mode::Chars, &us);
  let got = m.is_match(&cs).map_or(0, |t| *t as u64 + 1);
  sym::observe(got);
  check!(got == want);
  // symbol by symbol
  let mut ok = true;
  for c in &cs {
    ok = ok && m.is_accept(c);
  }
  let fed = if ok { m.is_final().map_or(0, |t| *t as u64 + 1) } else { 0 };
  check!(fed == want);
  sym::cover(got as u32);
}

/// Pairs of expressions.
#[no_mangle]
pub extern "C" fn c02_pairs() {
  let res = [
    "a", "b", "[ab]", "[a-c]", "a*", "a+", "ab", "a|b", "(?:a|b)*", "ab|a", "(?:ab)*", "[^a]", ".", "", "a?b?", "b*a", "aa*", "(a)", "[b-d]|a", "a{1,2}",
  ];
  let set = pick(2, &res, 3);
  run_chars(&set, 2);
}

/// Three expressions.
#[no_mangle]
pub extern "C" fn c02_triples() {
  #[cfg(not(feature = "thorough"))]
  let res = ["a", "[ab]", "a*", "a|b", "(?:a|b)*", "ab"];
  #[cfg(feature = "thorough")]
  let res = ["a", "b", "[ab]", "a*", "a|b", "(?:a|b)*", "ab", "[^a]", "a?"];
  let set = pick(3, &res, 3);
  run_chars(&set, 2);
}

/// Many expressions with a shared prefix, in ascending and descending order:
/// keywords against identifiers, and the same expression several times.
#[no_mangle]
pub extern "C" fn c02_many() {
  let sets: [&[&str]; 4] = [
    &["[a-z]+", "if", "in", "[a-i]+", "i[f-n]"],
    &["if|in", "i[a-z]", "[a-z]+", "if", "in?"],
    &["a|b", "a|b", "b|a", "[ab]", "a|b"],
    &["0|[1-9][0-9]*", "[0-9]+", "[0-9a-f]+", "[0-7]+", "0[0-7]*"],
  ];
  let set = sets[sym::range(0, 3)];
  // a rotation and a direction of the tags
  let (r, d) = (sym::range(0, 4), sym::range(0, 1));
  let set: Vec<(&str, usize)> = set.iter().enumerate().map(|(i, re)| (*re, if d == 0 { (i + r) % 5 } else { 4 - (i + r) % 5 })).collect();
  run_chars(&set, 3);
}

/// Bytes.
#[no_mangle]
pub extern "C" fn c02_bytes() {
  let res = [r"(?-u:a)", r"(?-u:[ab])", r"(?-u:[\x80-\xff]*)", r"(?-u:[^a])", "ab", r"(?-u:\xff)", r"(?-u:a|\xff)*"];
  let set = pick(2, &res, 3);
  let mut b = RegexBuilder::new();
  let mut hs = vec![];
  for (re, t) in &set {
    b = b.add(re, *t);
    hs.push((parse(re, Mode::Bytes).unwrap(), *t));
  }
  let m: BytesMatcher<usize> = match b.enable_par(Some(false)).build_bytes() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let bs = sym::vec(sym::range(0, 3));
  let us: Vec<u32> = bs.iter().map(|c| *c as u32).collect();
  let got = m.is_match(&bs).map_or(0, |t| *t as u64 + 1);
  sym::observe(got);
  check!(got == best_tag(&hs, Mode::Bytes, &us));
  sym::cover(got as u32);
}

/// Hundreds of expressions: more states and symbols than fit a byte.
#[no_mangle]
pub extern "C" fn c02_wide() {
  const N: usize = 260;
  let tag = |i: usize| (i * 7 + 3) % N;
  let ch = |i: usize| char::from_u32(0x100 + i as u32).unwrap().to_string();
  let mut b = RegexBuilder::new();
  for i in 0..N {
    b = b.add(&ch(i), tag(i));
  }
  // the first and the last half once more, with a tag between the others
  b = b.add("[\u{100}-\u{180}]|yz", 250).add("[\u{180}-\u{220}]", 255);
  let m: CharsMatcher<usize> = match b.enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let c = sym::any_char();
  let mut want = 0;
  for i in 0..N {
    let mut t = tag(i);
    if i <= 0x80 {
      t = t.min(250);
    }
    if i >= 0x80 {
      t = t.min(255);
    }
    want = sym::ite(c as usize == 0x100 + i, t as u64 + 1, want);
  }
  for i in N..=0x120 {
    want = sym::ite(c as usize == 0x100 + i, 256, want);
  }
  let got = m.is_match(&[c]).map_or(0, |t| *t as u64 + 1);
  sym::observe(got);
  check!(got == want);
  sym::cover((got > 0) as u32);
}
