//! What is printed with the logger.
use super::loc;
use crate::sym;
use laps::input::InputStream;
use laps::reader::Reader;
use laps::span::{FileType, Location, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning};
use std::path::Path;

/// A character of the source: its bytes and how many columns it takes.
#[derive(Clone)]
struct Ch {
  bytes: Vec<u8>,
  width: usize,
}
const TAB: usize = 2;
fn within(b: u8, lo: u8, hi: u8) -> bool {
  (b >= lo) & (b <= hi)
}
/// An arbitrary character of one of several classes.
fn symbol(class: usize) -> Ch {
  let (bytes, width) = match class {
    0 => {
      let b = sym::byte();
      sym::assume(within(b, 0x20, 0x7e));
      (vec![b], 1)
    }
    1 => (vec![b'\t'], TAB),
    2 => (vec![b'\n'], 0),
    3 => (vec![b'\r'], 0),
    4 => {
      // any ideograph of a block
      let b = sym::byte();
      sym::assume(within(b, 0x80, 0xbf));
      (vec![0xe6, 0xbc, b], 2)
    }
    5 => ("\u{301}".into(), 0),
    6 => {
      let b = sym::byte();
      sym::assume((b >= 1) & (b < 0x1b) & !within(b, 9, 13));
      (vec![b], 0)
    }
    7 => {
      let b = sym::byte();
      sym::assume(within(b, 0x80, 0xbf));
      (vec![0xc3, b], 1)
    }
    8 => ("\u{feff}".into(), 0),
    _ => ("\u{1f600}".into(), 2),
  };
  Ch { bytes, width }
}

struct Source {
  text: Vec<Ch>,
  /// The lines as they are quoted: the bytes to show and the width of each
  /// character.
  lines: Vec<Vec<Ch>>,
}
impl Source {
  fn new(text: Vec<Ch>) -> Self {
    let mut lines = vec![vec![]];
    for c in &text {
      if c.bytes == b"\n" {
        lines.push(vec![]);
      } else {
        lines.last_mut().unwrap().push(c.clone());
      }
    }
    // a carriage return before the line feed belongs to the line's end
    let n = lines.len() - 1;
    for l in &mut lines[..n] {
      if l.last().map_or(false, |c| c.bytes == b"\r") {
        l.pop();
      }
    }
    if lines[n].is_empty() {
      lines.pop();
    }
    Self { text, lines }
  }
  fn bytes(&self) -> Vec<u8> {
    self.text.iter().flat_map(|c| c.bytes.clone()).collect()
  }
  fn shown(&self, line: u32) -> Vec<u8> {
    let mut v = vec![];
    for c in &self.lines[line as usize - 1] {
      if c.bytes == b"\t" {
        v.extend_from_slice(b"  ");
      } else {
        v.extend_from_slice(&c.bytes);
      }
    }
    v
  }
  /// The columns that the first `n` characters of a line take.
  fn width(&self, line: u32, n: u32) -> usize {
    self.lines[line as usize - 1].iter().take(n as usize).map(|c| c.width).sum()
  }
}

fn digits(n: u32) -> usize {
  n.to_string().len()
}
fn pad(v: &mut Vec<u8>, c: u8, n: usize) {
  v.extend(std::iter::repeat(c).take(n));
}
fn number(v: &mut Vec<u8>, n: u32, w: usize) {
  pad(v, b' ', w - digits(n));
  v.extend_from_slice(n.to_string().as_bytes());
}

/// The quoted source with its marks.
fn quoted(src: &Source, s: Location, e: Location) -> Vec<u8> {
  let mut v = vec![];
  if s.line == e.line {
    let w = digits(s.line);
    pad(&mut v, b' ', w);
    v.extend_from_slice(b" |\n");
    number(&mut v, s.line, w);
    v.extend_from_slice(b" | ");
    v.extend(src.shown(s.line));
    v.push(b'\n');
    pad(&mut v, b' ', w);
    v.extend_from_slice(b" | ");
    // exactly the columns from the start's first to the end's last, or one
    // if they take none
    let (from, to) = (src.width(s.line, s.col - 1), src.width(s.line, e.col));
    pad(&mut v, b' ', from);
    pad(&mut v, b'^', (to - from).max(1));
    v.push(b'\n');
    return v;
  }
  let w = digits(e.line).max(2);
  let gutter = |v: &mut Vec<u8>, n: u32| {
    number(v, n, w);
    v.extend_from_slice(b" | ");
  };
  pad(&mut v, b' ', w);
  v.extend_from_slice(b" |\n");
  gutter(&mut v, s.line);
  v.extend_from_slice(b"  ");
  v.extend(src.shown(s.line));
  v.push(b'\n');
  // the caret is below the last column of the start
  pad(&mut v, b' ', w);
  v.extend_from_slice(b" |  ");
  pad(&mut v, b'_', src.width(s.line, s.col));
  v.extend_from_slice(b"^\n");
  let mid: Vec<u32> = (s.line + 1..e.line).collect();
  let show = |v: &mut Vec<u8>, n: u32| {
    gutter(v, n);
    v.extend_from_slice(b"| ");
    v.extend(src.shown(n));
    v.push(b'\n');
  };
  if mid.len() <= 4 {
    for n in mid {
      show(&mut v, n);
    }
  } else {
    show(&mut v, mid[0]);
    show(&mut v, mid[1]);
    pad(&mut v, b'.', w);
    v.extend_from_slice(b" | |\n");
    show(&mut v, mid[mid.len() - 1]);
  }
  show(&mut v, e.line);
  let to = src.width(e.line, e.col);
  pad(&mut v, b' ', w);
  v.extend_from_slice(if to == 0 { b" |  " } else { b" | |" });
  pad(&mut v, b'_', to);
  v.extend_from_slice(b"^\n");
  v
}

/// Logs through a span and compares what is printed.  Nothing but the first
/// two lines is judged if the span has no text to be quoted.
fn logged(src: &Source, span: &Span, file: &str) {
  sym::output();
  let msg = sym::byte();
  sym::assume(within(msg, 0x20, 0x7e));
  let m = msg as char;
  let kind = match sym::range(0, 2) {
    0 => {
      log_error!(span, "m{{{m}}}");
      "error"
    }
    1 => {
      log_fatal_error!(span, "m{{{m}}}");
      "error"
    }
    _ => {
      log_warning!(span, "m{{{m}}}");
      "warning"
    }
  };
  let raw = sym::output();
  let out = crate::out::plain(&raw);
  let (s, e) = (span.start(), span.end());
  let mut want = format!("{kind}: m{{").into_bytes();
  want.push(msg);
  want.extend_from_slice(format!("}}\n  at {file}:{}:{}\n", s.line, s.col).as_bytes());
  check!(out.len() > want.len() && out[..want.len()] == want[..]);
  let rest = &out[want.len()..];
  check!(*rest.last().unwrap() == b'\n');
  let rest = &rest[..rest.len() - 1];
  sym::observe(rest.len() as u64);
  let n = src.lines.len() as u32;
  let there = |l: Location| l.line >= 1 && l.line <= n && l.col >= 1 && l.col as usize <= src.text.len();
  if file != "sym-file" || s.col == 0 || e.col == 0 {
    // there is nothing to quote, or nothing to mark
    check!(rest.is_empty());
    sym::cover(0);
  } else if there(s) && there(e) && (s.line, s.col) <= (e.line, e.col) {
    let want = quoted(src, s, e);
    check!(rest.len() == want.len());
    check!(rest == want);
    sym::cover(if s.line == e.line { 1 } else { 2 });
  } else {
    sym::cover(3);
  }
}

fn colors() {
  colored::control::set_override(sym::range(0, 1) == 1);
}

/// Spans from any character to any other one of any short text.
#[no_mangle]
pub extern "C" fn c21_read() {
  #[cfg(not(feature = "thorough"))]
  let max = 4;
  #[cfg(feature = "thorough")]
  let max = 5;
  colored::control::set_override(true);
  let n = sym::range(0, max);
  let text: Vec<Ch> = (0..n).map(|_| symbol(sym::range(0, 9))).collect();
  read(text);
}

fn read(text: Vec<Ch>) {
  let n = text.len();
  let src = Source::new(text);
  sym::file(&src.bytes());
  let mut r = match Reader::from_path("sym-file") {
    Ok(r) => r,
    Err(_) => fail!(),
  };
  let mut spans = vec![];
  let (mut line, mut col) = (1, 0);
  for c in &src.text {
    check!(matches!(r.next_char_loc(), Ok((Some(_), _))));
    if c.bytes == b"\n" {
      line += 1;
      col = 0;
    } else {
      col += 1;
    }
    let s = r.span().clone();
    check!(s.start().line == line && s.start().col == col);
    spans.push(s);
  }
  // the end of the file
  check!(matches!(r.next_char_loc(), Ok((None, _))));
  spans.push(r.span().clone());
  let i = sym::range(0, n);
  let j = sym::range(i, n);
  let span = spans[i].clone().into_end_updated(&spans[j]);
  logged(&src, &span, "sym-file");
  check!(span.error_num() + span.warning_num() == 1);
}

/// Longer lines, with any two characters among others.
#[no_mangle]
pub extern "C" fn c21_line() {
  colored::control::set_override(false);
  let a = symbol(sym::range(0, 9));
  let b = symbol(sym::range(0, 9));
  let at = |c: u8| Ch { bytes: vec![c], width: 1 };
  let wide = Ch { bytes: "\u{6f22}".into(), width: 2 };
  let tab = Ch { bytes: vec![b'\t'], width: TAB };
  read(match sym::range(0, 3) {
    0 => vec![a, at(b'x'), b, at(b'y'), tab],
    1 => vec![tab, a, wide, b, at(b'y')],
    2 => vec![at(b'x'), symbol(2), a, b, wide],
    _ => vec![wide, a, symbol(2), symbol(2), b, at(b'x')],
  });
}

/// A text of many lines.
fn lines(n: usize) -> Source {
  let mut v = vec![];
  for i in 1..=n {
    let k = [3, 0, 5, 1, 2][i % 5];
    for j in 0..k {
      v.push(match (i + j) % 4 {
        1 => symbol(1),
        3 if i % 2 == 0 => symbol(9),
        _ => Ch { bytes: vec![b'a' + (i % 26) as u8], width: 1 },
      });
    }
    if i < n {
      v.push(symbol(2));
    }
  }
  Source::new(v)
}
fn span_at(file: &str, s: Location, e: Location) -> Span {
  let mut a = Span::new(FileType::File(Box::from(Path::new(file))));
  let mut b = a.clone();
  a.update_loc(s);
  b.update_loc(e);
  a.into_end_updated(b)
}

/// Spans between any two lines of a longer text, and beyond its end.
#[no_mangle]
pub extern "C" fn c21_lines() {
  colored::control::set_override(false);
  let src = lines(13);
  sym::file(&src.bytes());
  let s = loc(sym::range(0, 14), sym::range(0, 3));
  let e = loc(sym::range(0, 14), sym::range(0, 3));
  logged(&src, &span_at("sym-file", s, e), "sym-file");
}

/// Line numbers with more digits.
#[no_mangle]
pub extern "C" fn c21_many() {
  colors();
  let src = lines(101);
  sym::file(&src.bytes());
  let from = [1, 2, 9, 10, 11, 95, 98, 99, 100, 101][sym::range(0, 9)];
  let s = loc(from, sym::range(1, 2));
  let to = [from, from + 1, 9, 10, 11, 96, 99, 100, 101][sym::range(0, 8)];
  let e = loc(to, sym::range(1, 4));
  logged(&src, &span_at("sym-file", s, e), "sym-file");
}

/// Any position whatever.
#[no_mangle]
pub extern "C" fn c21_anywhere() {
  colored::control::set_override(false);
  let text: Vec<Ch> = (0..2).map(|_| symbol(sym::range(0, 3))).collect();
  let src = Source::new(text);
  sym::file(&src.bytes());
  let mut l = || {
    let line = sym::any_u32();
    let col = sym::any_u32();
    // at most one digit, or far away
    let big = sym::range(0, 2);
    sym::assume(line == [line & 7, 0x7fff_fff0, 17][big] && col == [col & 7, 0x7fff_fff0, 17][big]);
    Location { line, col }
  };
  let span = span_at("sym-file", l(), l());
  logged(&src, &span, "sym-file");
}

/// Sources that are no file, or a file that is no longer there.
#[no_mangle]
pub extern "C" fn c21_other() {
  colors();
  let src = Source::new(vec![symbol(0)]);
  sym::file(&src.bytes());
  let (t, name) = match sym::range(0, 2) {
    0 => (FileType::Buffer, "<buffer>"),
    1 => (FileType::Stdin, "<stdin>"),
    _ => (FileType::File(Box::from(Path::new("dir/none"))), "dir/none"),
  };
  let mut span = Span::new(t);
  check!(format!("{}", span.file_type()) == name);
  span.update_loc(loc(sym::range(0, 12), sym::range(0, 12)));
  logged(&src, &span, name);
}

/// Text that is not UTF-8 after what is spanned: no panic, whatever is shown.
#[no_mangle]
pub extern "C" fn c21_invalid() {
  colored::control::set_override(false);
  // an ASCII character, the parts of a longer one, bytes that never occur
  let text: Vec<u8> = (0..3)
    .map(|_| {
      let b = sym::byte();
      let class = sym::range(0, 4);
      sym::assume([within(b, 0x20, 0x7e), b == b'\n', b == 0xc3, within(b, 0x80, 0xbf), b >= 0xf8][class]);
      b
    })
    .collect();
  sym::file(&text);
  let s = loc(sym::range(1, 3), sym::range(0, 3));
  let e = loc(sym::range(1, 3), sym::range(0, 3));
  let span = span_at("sym-file", s, e);
  sym::output();
  log_warning!(span, "m");
  let out = sym::output();
  let want = format!("warning: m\n  at sym-file:{}:{}\n", s.line, s.col);
  check!(out.starts_with(want.as_bytes()));
  sym::cover((out.len() > want.len() + 1) as u32);
}

/// Messages without a position: only the message.
#[no_mangle]
pub extern "C" fn c21_raw() {
  colors();
  let src = lines(2);
  sym::file(&src.bytes());
  let span = span_at("sym-file", loc(1, 1), loc(1, 2));
  let msg = sym::ascii(sym::range(0, 3));
  for b in msg.bytes() {
    sym::assume(b != 0x1b);
  }
  sym::output();
  let kind = match sym::range(0, 2) {
    0 => {
      log_raw_error!(span, "{msg}!");
      "error"
    }
    1 => {
      log_raw_fatal_error!(span, "{msg}!");
      "error"
    }
    _ => {
      log_raw_warning!(span, "{msg}!");
      "warning"
    }
  };
  let out = crate::out::plain(&sym::output());
  let want = format!("{kind}: {msg}!\n");
  check!(out == want.as_bytes());
  sym::cover(0);
}

