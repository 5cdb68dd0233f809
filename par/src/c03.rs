//! C03: matchers do not depend on serial or parallel construction.
use crate::reref::*;
use crate::sym;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};

type Set<'a> = Vec<(&'a str, usize)>;

macro_rules! build {
  ($set:expr, $how:expr, $build:ident) => {{
    let mut b = RegexBuilder::new();
    for (re, t) in $set {
      b = b.add(re, *t);
    }
    match b.enable_par($how).$build() {
      Ok(m) => m,
      Err(_) => fail!(),
    }
  }};
}

macro_rules! same {
  ($a:expr, $b:expr, $input:expr) => {{
    let (a, b) = ($a, $b);
    let (mut ok, mut dead) = (true, false);
    for c in $input {
      check!(a.is_final() == b.is_final());
      let (x, y) = (a.is_accept(c), b.is_accept(c));
      check!(x == y);
      ok = ok && x;
      dead = dead || !x;
    }
    let t = a.is_final().copied();
    check!(b.is_final().copied() == t);
    check!(a.is_match($input) == b.is_match($input));
    sym::observe(t.map_or(0, |t| t as u64 + 1));
    sym::cover(if ok && t.is_some() { 0 } else if dead { 1 } else { 2 });
    a.reset();
    b.reset();
    check!(a.is_final() == b.is_final());
  }};
}

fn tasks() -> usize {
  rayon::stages().1
}

fn chars(set: &Set, max: usize, free: usize) {
  let hs: Vec<_> = set.iter().map(|(re, t)| (parse(re, Mode::Chars).unwrap(), *t)).collect();
  rayon::free_stages(free + cfg!(feature = "thorough") as usize);
  let mut a: CharsMatcher<usize> = build!(set, Some(false), build);
  check!(tasks() == 0);
  let mut b: CharsMatcher<usize> = build!(set, Some(true), build);
  if tasks() > 1 {
    sym::cover(3);
  }
  let cs = classes(&hs, Mode::Chars, &[]);
  let input: Vec<char> = (0..sym::range(0, max)).map(|_| unsafe { char::from_u32_unchecked(symbol(&cs).0) }).collect();
  same!(&mut a, &mut b, &input);
}

fn bytes(set: &Set, max: usize, free: usize) {
  let hs: Vec<_> = set.iter().map(|(re, t)| (parse(re, Mode::Bytes).unwrap(), *t)).collect();
  rayon::free_stages(free + cfg!(feature = "thorough") as usize);
  let mut a: BytesMatcher<usize> = build!(set, Some(false), build_bytes);
  let mut b: BytesMatcher<usize> = build!(set, Some(true), build_bytes);
  if tasks() > 1 {
    sym::cover(3);
  }
  let cs = classes(&hs, Mode::Bytes, &[]);
  let input: Vec<u8> = (0..sym::range(0, max)).map(|_| symbol(&cs).0 as u8).collect();
  same!(&mut a, &mut b, &input);
}

/// Single expressions.
#[no_mangle]
pub extern "C" fn c03_single() {
  #[cfg(not(feature = "thorough"))]
  let ops = 2;
  #[cfg(feature = "thorough")]
  let ops = 3;
  let re = gen(sym::range(0, ops), &["a", "[ab]"], &["*", "?"]);
  chars(&vec![(&re, 0)], 3, 2);
}

/// Pairs of expressions that overlap, with tags in either order.
#[no_mangle]
pub extern "C" fn c03_pairs() {
  let res = ["a", "[a-c]", "a*", "b+", "(?:a|b)*", "ab|a", "[^a]", ".*b", "", "a?b?", "(?:ab)*c", "[b-d]|a{1,2}"];
  let i = sym::range(0, res.len() - 1);
  let j = sym::range(0, res.len() - 1);
  let t = sym::range(0, 1);
  chars(&vec![(res[i], t), (res[j], 1 - t)], 2, 1);
}

/// Sets of several expressions with many states.
#[no_mangle]
pub extern "C" fn c03_many() {
  let sets: [&[&str]; 6] = [
    &["[a-z]+", "if", "in", "[a-i]+", "i[f-n]"],
    &["0|[1-9][0-9]*", "[0-9]+", "[0-9a-f]+", "0[0-7]*"],
    &["(?:a|b)*abb", "(?:a|b)*a(?:a|b)", "b*"],
    &["a(?:b|c(?:d|e)*)+f?", "[a-f]+", "abc"],
    &["(?:ab?){2,3}", "(?:a|b){0,3}", "a+b+"],
    &["/\\*(?:[^*]|\\*[^/])*\\*/", "/", "\\*+"],
  ];
  let k = sym::range(0, 5);
  let r = sym::range(0, sets[k].len() - 1);
  let set: Set = sets[k].iter().enumerate().map(|(i, re)| (*re, (i + r) % sets[k].len())).collect();
  chars(&set, if cfg!(feature = "thorough") { 3 } else { 2 }, 1);
}

#[no_mangle]
pub extern "C" fn c03_bytes() {
  let res = [r"(?-u:[\x80-\xff]*)", r"(?-u:\xff|a)+", "ab", r"(?-u:[^a])", r"(?-u:a[\x00-\x7f]?)", r"(?-u:[0-9])+"];
  let i = sym::range(0, res.len() - 1);
  let j = sym::range(0, res.len() - 1);
  bytes(&vec![(res[i], 0), (res[j], 1)], 2, 1);
}

/// The construction chosen automatically, on any number of processors.
#[no_mangle]
pub extern "C" fn c03_auto() {
  let n = sym::range(1, 4);
  sym::cpus(n);
  let letters = "(?:ax|b|cx|d|ex|f|gx|h|ix|j|kx|l|mx|n|ox|p|qx|r|sx|t)y?";
  let sets: [Set; 3] = [
    vec![(letters, 0), ("[a-t]+", 1)],
    vec![("[a-t]x*", 1), (letters, 0)],
    vec![("ab?", 0), ("[ab]+", 1)],
  ];
  let k = sym::range(0, 2);
  let set = &sets[k];
  let hs: Vec<_> = set.iter().map(|(re, t)| (parse(re, Mode::Chars).unwrap(), *t)).collect();
  let mut a: CharsMatcher<usize> = build!(set, Some(false), build);
  rayon::free_stages(1);
  let mut b: CharsMatcher<usize> = build!(set, None, build);
  if tasks() > 0 {
    sym::cover(3);
  } else {
    sym::cover(4);
  }
  let cs = classes(&hs, Mode::Chars, &[]);
  let input: Vec<char> = (0..sym::range(0, 2)).map(|_| unsafe { char::from_u32_unchecked(symbol(&cs).0) }).collect();
  same!(&mut a, &mut b, &input);
}

/// Hundreds of symbols.
#[no_mangle]
pub extern "C" fn c03_wide() {
  const N: usize = 260;
  let mut res: Vec<(String, usize)> = (0..N).map(|i| (char::from_u32(0x100 + i as u32).unwrap().to_string(), (i * 7 + 3) % N)).collect();
  res.push(("[\u{100}-\u{180}]y?".into(), 300));
  let set: Set = res.iter().map(|(re, t)| (&re[..], *t)).collect();
  rayon::free_stages(0);
  let mut a: CharsMatcher<usize> = build!(&set, Some(false), build);
  let mut b: CharsMatcher<usize> = build!(&set, Some(true), build);
  if tasks() > 1 {
    sym::cover(3);
  }
  let input = sym::chars(sym::range(1, 2));
  if input.len() > 1 {
    sym::assume((input[0] as u32 >= 0x17f) & (input[0] as u32 <= 0x182));
  }
  same!(&mut a, &mut b, &input);
}

/// The tasks of the first stages run in threads that interleave.
#[no_mangle]
pub extern "C" fn c03_threads() {
  let sets: [&[&str]; 4] = [
    &["[a-z]+", "if", "in", "[a-i]+", "i[f-n]"],
    &["(?:a|b)*abb", "(?:a|b)*a(?:a|b)", "b*"],
    &["a?b?", "(?:ab)*c", "[b-d]|a{1,2}"],
    &["", "[a-c]"],
  ];
  let k = sym::range(0, 3);
  let set: Set = sets[k].iter().enumerate().map(|(i, re)| (*re, i)).collect();
  rayon::thread_stages(sym::range(1, if cfg!(feature = "thorough") { 4 } else { 3 }), sym::range(2, 3));
  chars(&set, 2, 0);
}
