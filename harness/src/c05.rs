//! C05: regular expressions are compiled with their standard meaning or
//! rejected.
use crate::reref::*;
use crate::sym;
use laps_regex::re::{BytesMatcher, CharsMatcher, Error, RegexBuilder};
use regex_syntax::hir::{Class, Hir, HirKind};

fn build_chars(re: &str) -> Result<CharsMatcher<usize>, Error<usize>> {
  RegexBuilder::new().add("q", 1).add(re, 0).enable_par(Some(false)).build()
}
fn build_bytes(re: &str) -> Result<BytesMatcher<usize>, Error<usize>> {
  RegexBuilder::new().add("q", 1).add(re, 0).enable_par(Some(false)).build_bytes()
}

fn check_text(re: String, mode: Mode) {
  let hir = match parse(&re, mode) {
    Some(h) if supported(&h, mode) => h,
    h => {
      // whatever the characters still undetermined are
      let err = match mode {
        Mode::Chars => build_chars(&re).err(),
        Mode::Bytes => build_bytes(&re).err(),
      };
      match err {
        Some(Error::Regex(_, 0)) => check!(h.is_none()),
        Some(Error::Mir(_)) => check!(h.is_some()),
        _ => fail!(),
      }
      sym::cover(h.is_some() as u32);
      return;
    }
  };
  drop(hir);
  // one path per text from here on
  let re: String = re.bytes().map(|b| sym::concrete(b as u64) as u8 as char).collect();
  let hir = parse(&re, mode).unwrap();
  let (got, want);
  match mode {
    Mode::Chars => {
      let m = match build_chars(&re) {
        Ok(m) => m,
        Err(_) => fail!(),
      };
      let cs = sym::chars(sym::range(0, 1));
      if size(&hir) > 20 {
        // the big Unicode classes: low characters only
        for c in &cs {
          sym::assume((*c as u32) < 0x180);
        }
      }
      let us: Vec<u32> = cs.iter().map(|c| *c as u32).collect();
      let q = us.len() == 1 && us[0] == 'q' as u32;
      got = m.is_match(&cs).map_or(0, |t| *t as u64 + 1);
      want = sym::ite(matches(&hir, mode, &us) == 1, 1, if q { 2 } else { 0 });
    }
    Mode::Bytes => {
      let m = match build_bytes(&re) {
        Ok(m) => m,
        Err(_) => fail!(),
      };
      let cs = sym::vec(sym::range(0, 1));
      let us: Vec<u32> = cs.iter().map(|c| *c as u32).collect();
      let q = us.len() == 1 && us[0] == 'q' as u32;
      got = m.is_match(&cs).map_or(0, |t| *t as u64 + 1);
      want = sym::ite(matches(&hir, mode, &us) == 1, 1, if q { 2 } else { 0 });
    }
  }
  sym::observe(got);
  check!(got == want);
  sym::cover(2);
}

/// The number of ranges in the classes.
fn size(h: &Hir) -> usize {
  match h.kind() {
    HirKind::Class(Class::Unicode(c)) => c.ranges().len(),
    HirKind::Capture(c) => size(&c.sub),
    HirKind::Repetition(r) => size(&r.sub),
    HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(size).sum(),
    _ => 0,
  }
}

fn mode() -> Mode {
  if sym::range(0, 1) == 0 {
    Mode::Chars
  } else {
    Mode::Bytes
  }
}

/// The characters that mean something in the syntax, and some that do not.
const SIGNIFICANT: &[u8] = b"\\.+*?()[]{}|^$-,:!=<>#&~ '_/0139abdpqsuwxzABDPSUWZ\n\0\x7f";
/// The most important of them.
const CORE: &[u8] = b"\\.+*?()[]{}|^$-,:!<=0ab2dwB\n";

fn chars_of(n: usize, set: &[u8]) -> String {
  let s = sym::ascii(n);
  for b in s.bytes() {
    let mut ok = false;
    for c in set {
      ok |= b == *c;
    }
    sym::assume(ok);
  }
  s
}

/// Any ASCII text.
#[no_mangle]
pub extern "C" fn c05_any() {
  let m = mode();
  #[cfg(not(feature = "thorough"))]
  let s = match sym::range(0, 2) {
    0 => String::new(),
    1 => sym::ascii(1),
    _ => chars_of(2, SIGNIFICANT),
  };
  #[cfg(feature = "thorough")]
  let s = match sym::range(0, 1) {
    0 => sym::ascii(2),
    _ => chars_of(3, CORE),
  };
  check_text(s, m);
}

/// Arbitrary characters inside the constructs of the syntax.
#[no_mangle]
pub extern "C" fn c05_constructs() {
  let shapes = [
    ("(?", 1, "a)"), ("(", 1, ")"), ("[", 2, "]"), ("[a", 1, "d]"), ("a{", 1, "}"), ("a{1,", 1, "}"), ("a", 1, "?"), (r"\x", 2, ""), ("(?-u:", 1, ")"),
    ("(?-u)", 1, "a"), ("(?m:", 1, ")*"), ("(?:", 1, "){0}"), ("(?:a|", 1, ")"), ("[[:", 1, "lpha:]]"), ("(?-u:[", 1, "])"), ("(?s", 1, ".)"), (r"(?-u:\", 1, ")"),
    (r"(?-u:\x", 2, ")"), (r"\x{", 2, "}"), ("[^", 1, "]"), (r"[\", 1, "]"), ("a*", 1, ""), ("(?P<", 1, ">a)"), ("(?:a|b", 1, ")?"), ("a{2}", 1, ""),
  ];
  let (l, n, r) = shapes[sym::range(0, shapes.len() - 1)];
  let m = mode();
  #[cfg(not(feature = "thorough"))]
  let s = if n == 1 { sym::ascii(1) } else { chars_of(n, CORE) };
  #[cfg(feature = "thorough")]
  let s = if n == 1 { sym::ascii(1) } else { chars_of(n, SIGNIFICANT) };
  check_text(format!("{l}{s}{r}"), m);
}

/// Constructs that are never regular or never representable.
#[no_mangle]
pub extern "C" fn c05_rejected() {
  let always = [
    "^a", "a$", r"\ba", r"a\B", r"\Aa", r"a\z", "(?m)^a", "(?m:a$)", "a*?", "a+?", "a??", "a{2}?", "a{1,2}?", "(?U)a*", "(a", "a)", "[a", "*", "a{2,1}", "(?<n>a)(?<n>b)",
    r"\1", "(?=a)", "(?!a)", "(?<=a)", r"\p{Nope}", "(?:^|a)b", "(?:a|$)", "(?:^a)*", "x(?:a*?)y", r"\8", "(?z)a", "[b-a]", r"[^\x00-\x{10FFFF}]", r"(?-u)[^\x00-\xff]",
    r"a[^\s\S]", r"[^\s\S]|a", r"[^\s\S]*",
  ];
  let chars_only = [r"(?-u:\xff)", r"(?-u:[\x80-\xff])", r"a(?-u:[^a])"];
  let bytes_only = ["[éè]", r"\w", ".", "[^a]", r"a\d*", "(?i)k"];
  let k = sym::range(0, always.len() + chars_only.len() + bytes_only.len() - 1);
  let other = sym::range(0, 1);
  let re = if k < always.len() {
    always[k]
  } else if k < always.len() + chars_only.len() {
    chars_only[k - always.len()]
  } else {
    bytes_only[k - always.len() - chars_only.len()]
  };
  let b = || {
    let b = RegexBuilder::new().enable_par(Some(false));
    if other == 1 {
      b.add("a", 0).add(re, 1).add("b", 2)
    } else {
      b.add(re, 1)
    }
  };
  let in_chars = k < always.len() + chars_only.len();
  let in_bytes = k < always.len() || !in_chars;
  if in_chars {
    let r: Result<CharsMatcher<usize>, _> = b().build();
    check!(r.is_err());
  }
  if in_bytes {
    let r: Result<BytesMatcher<usize>, _> = b().build_bytes();
    check!(r.is_err());
  }
  let e: Result<CharsMatcher<usize>, _> = RegexBuilder::new().build();
  check!(matches!(e, Err(Error::EmptyBuilder)));
}
