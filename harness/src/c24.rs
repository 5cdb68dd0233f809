//! C24: positions, sources and errors compare and print exactly.
use crate::sym;
use laps::reader::Reader;
use laps::span::{Error, FileType, Location, Result, Span};
use laps_regex::mir::Error as MirError;
use std::path::Path;
use laps_regex::re::{BytesMatcher, CharsMatcher, Error as ReError, RegexBuilder};

fn loc() -> Location {
  Location { line: sym::any_u32(), col: sym::any_u32() }
}
fn same(a: Location, b: Location) -> bool {
  (a.line == b.line) & (a.col == b.col)
}
/// A span of a source with any ends.
fn span(source: &Span, start: Location, end: Location) -> Span {
  let mut s = source.clone();
  s.update_loc(start);
  let mut e = source.clone();
  e.update_loc(end);
  s.update_end(&e);
  s
}

/// Equality of locations and of spans.
#[no_mangle]
pub extern "C" fn c24_equal() {
  // two of each kind: what a source is does not tell which one it is
  let file = |p: &str| Span::new(FileType::File(Path::new(p).into()));
  let sources = [
    Span::new(FileType::Buffer),
    Span::new(FileType::Buffer),
    Span::new(FileType::Stdin),
    Span::new(FileType::Stdin),
    file("a"),
    file("a"),
    file("b"),
  ];
  let (a, b, c, d) = (loc(), loc(), loc(), loc());
  check!((a == b) == same(a, b));
  check!((a != b) != same(a, b));
  let (i, j) = (sym::range(0, 6), sym::range(0, 6));
  if sym::range(0, 1) == 1 {
    // counts do not matter
    sources[j].log_raw_error(format_args!("e"));
  }
  let x = span(&sources[i], a, b);
  let y = span(&sources[j], c, d);
  check!(same(x.start(), a) & same(x.end(), b));
  let want = (i == j) & same(a, c) & same(b, d);
  let got = x == y;
  sym::observe(got as u64);
  check!(got == want);
  check!((y == x) == want);
  check!((x != y) == !want);
  check!(x == x.clone());
  check!(AsRef::<Span>::as_ref(&x) == &x);
  sym::cover(got as u32);
}

/// Is the text the number, in decimal?
fn is_number(t: &[u8], n: u32) -> bool {
  let mut v: u64 = 0;
  let mut ok = !t.is_empty() & (t.len() <= 10);
  for d in t.iter().take(10) {
    ok &= (*d >= b'0') & (*d <= b'9');
    v = v.wrapping_mul(10).wrapping_add(d.wrapping_sub(b'0') as u64);
  }
  ok & (v == n as u64) & ((t.len() == 1) | (t.first() != Some(&b'0')))
}
/// Is the text the numbers with these characters in between?
fn is_list(t: &[u8], ns: &[u32], seps: &[u8]) -> bool {
  let mut ok = true;
  let mut rest = t;
  for (i, n) in ns.iter().enumerate() {
    let end = if i < seps.len() {
      match rest.iter().position(|c| *c == seps[i]) {
        Some(e) => e,
        None => return false,
      }
    } else {
      rest.len()
    };
    ok &= is_number(&rest[..end], *n);
    rest = &rest[(end + 1).min(rest.len())..];
  }
  ok
}

/// One coordinate of any value in four ranges of 65536 values.
#[no_mangle]
pub extern "C" fn c24_print() {
  let k = sym::range(0, 3);
  let mut ns = [[1, 0, 3, 12], [70, 8, 4294967295, 1]][sym::range(0, 1)];
  let base = [0, 99_990_000, 999_960_000, 4_294_901_760][sym::range(0, 3)];
  ns[k] = base + u16::from_le_bytes(sym::bytes::<2>()) as u32;
  let (a, b) = (Location { line: ns[0], col: ns[1] }, Location { line: ns[2], col: ns[3] });
  let s = span(&Span::new(FileType::Buffer), a, b);
  match sym::range(0, 3) {
    0 => check!(is_list(format!("{a}").as_bytes(), &ns[..2], b":")),
    1 => check!(is_list(format!("{s}").as_bytes(), &ns, b":-:")),
    2 => {
      let t = format!("{b:?}");
      match t.strip_prefix("Location(").and_then(|t| t.strip_suffix(')')) {
        Some(t) => check!(is_list(t.as_bytes(), &ns[2..], b":")),
        None => fail!(),
      }
    }
    _ => {
      let t = format!("{s:?}");
      match t.strip_prefix("Span(").and_then(|t| t.strip_suffix(')')) {
        Some(t) => check!(is_list(t.as_bytes(), &ns, b":-:")),
        None => fail!(),
      }
    }
  }
  sym::cover(k as u32);
}

/// The name of a source.
#[no_mangle]
pub extern "C" fn c24_files() {
  use laps::input::InputStream;
  let name = sym::ascii(sym::range(1, 4));
  let f = FileType::File(std::path::Path::new(&name).into());
  let copy = f.clone();
  check!(format!("{f}") == name);
  check!(format!("{}", Span::new(copy).file_type()) == name);
  check!(format!("{}", FileType::Stdin) == "<stdin>");
  check!(format!("{}", FileType::Buffer) == "<buffer>");
  match sym::range(0, 4) {
    0 => check!(format!("{}", Reader::from_stdin().span().file_type()) == "<stdin>"),
    1 => check!(format!("{}", Reader::from("x").span().file_type()) == "<buffer>"),
    2 => check!(format!("{}", laps::reader::ByteReader::from_stdin().span().file_type()) == "<stdin>"),
    3 => check!(format!("{}", laps::reader::ByteReader::from("x").span().file_type()) == "<buffer>"),
    _ => match Reader::new(std::io::empty(), f).span().file_type() {
      FileType::File(p) => check!(**p == *std::path::Path::new(&name)),
      _ => fail!(),
    },
  }
  sym::cover(0);
}

/// Reading from a path names the path.
#[no_mangle]
pub extern "C" fn c24_path() {
  use laps::input::InputStream;
  let text = sym::ascii(2);
  let k = sym::range(0, 3);
  if k < 2 {
    sym::file(text.as_bytes());
  }
  let name = |f: &FileType| format!("{f}");
  match k {
    0 => match Reader::from_path("sym-file") {
      Ok(mut r) => {
        check!(name(r.span().file_type()) == "sym-file");
        check!(r.next_char() == Ok(text.chars().next()));
        sym::cover(0);
      }
      Err(_) => fail!(),
    },
    1 => match laps::reader::ByteReader::from_path("sym-file") {
      Ok(mut r) => {
        check!(name(r.span().file_type()) == "sym-file");
        check!(r.next_char() == Ok(text.bytes().next()));
        sym::cover(1);
      }
      Err(_) => fail!(),
    },
    2 => check!(Reader::from_path("no-such-file").is_err()),
    _ => check!(laps::reader::ByteReader::from_path("no-such-file").is_err()),
  }
}

/// What the logging calls return.
#[no_mangle]
pub extern "C" fn c24_results() {
  let s = span(&Span::new(FileType::Buffer), Location { line: 1, col: 1 }, Location { line: 1, col: 1 });
  #[cfg(feature = "logger")]
  let (normal, fatal) = (Error::Normal, Error::Fatal);
  #[cfg(not(feature = "logger"))]
  let (normal, fatal) = (Error::Normal("a1".into()), Error::Fatal("a1".into()));
  check!(normal != fatal);
  check!(!normal.is_fatal());
  check!(fatal.is_fatal());
  let (e, is_fatal) = match sym::range(0, 3) {
    0 => (s.log_error(format_args!("a{}", 1)), false),
    1 => (s.log_fatal_error(format_args!("a{}", 1)), true),
    2 => (s.log_raw_error(format_args!("a{}", 1)), false),
    _ => (s.log_raw_fatal_error(format_args!("a{}", 1)), true),
  };
  check!(e.is_fatal() == is_fatal);
  check!(e.clone() == e);
  #[cfg(feature = "logger")]
  check!((e == fatal) == is_fatal && (e == normal) != is_fatal);
  // the text has the position before the message, or not
  #[cfg(not(feature = "logger"))]
  match &e {
    Error::Normal(t) => check!(!is_fatal && t.ends_with("a1") && e != fatal),
    Error::Fatal(t) => check!(is_fatal && t.ends_with("a1") && e != normal),
  }
  let r: Result<u8> = e.clone().into();
  check!(r == Err(e));
  sym::cover(is_fatal as u32);
}

/// What is wrong with an expression.
#[derive(Clone, Copy, PartialEq)]
enum Fault {
  None,
  Syntax,
  Unsupported,
  Nothing,
}

/// The errors of building a matcher are about one of the expressions at fault.
#[no_mangle]
pub extern "C" fn c24_build() {
  let bytes = sym::range(0, 1) == 1;
  let all: [(&str, Fault); 9] = [
    ("a+", Fault::None),
    ("", Fault::None),
    ("(b", Fault::Syntax),
    ("*", Fault::Syntax),
    (r"a\b", Fault::Unsupported),
    ("a*?", Fault::Unsupported),
    (if bytes { r"(?-u)[^\x00-\xff]" } else { r"[^\x00-\x{10FFFF}]" }, Fault::Nothing),
    (if bytes { "[éè]" } else { "^c" }, Fault::Unsupported),
    (r"c(?-u:\xff)", if bytes { Fault::None } else { Fault::Syntax }),
  ];
  let n = sym::range(0, 3);
  let mut chosen = vec![];
  let mut b = RegexBuilder::new().enable_par(Some(false));
  for _ in 0..n {
    let (re, f) = all[sym::range(0, all.len() - 1)];
    let tag = sym::range(0, 1) as u32;
    b = b.add(re, tag);
    chosen.push((re, f, tag));
  }
  let e = if bytes {
    let m: std::result::Result<BytesMatcher<u32>, _> = b.build_bytes();
    m.err()
  } else {
    let m: std::result::Result<CharsMatcher<u32>, _> = b.build();
    m.err()
  };
  let has = |f: Fault| chosen.iter().any(|c| c.1 == f);
  match e {
    None => {
      check!(n > 0 && chosen.iter().all(|c| c.1 == Fault::None));
      sym::cover(0);
    }
    Some(e) => {
      let text = format!("{e}");
      check!(!text.is_empty());
      match e {
        ReError::EmptyBuilder => {
          check!(n == 0);
          sym::cover(1);
        }
        ReError::Regex(cause, tag) => {
          // an invalid expression, its own tag, and what is wrong with it
          let mut ok = false;
          for (re, f, t) in &chosen {
            if *f == Fault::Syntax {
              let own = regex_syntax::parse(re).err().map(|e| e.to_string());
              if own.as_ref() == Some(&text) {
                ok |= *t == tag;
              }
            }
          }
          check!(ok);
          check!(cause.to_string() == text);
          sym::cover(2);
        }
        ReError::Mir(MirError::UnsupportedOp(op)) => {
          check!(has(Fault::Unsupported));
          check!(!op.is_empty() && text.contains(op));
          sym::cover(3);
        }
        ReError::Mir(MirError::MatchesNothing) => {
          check!(has(Fault::Nothing));
          sym::cover(4);
        }
        _ => fail!(),
      }
    }
  }
}
