//! C08: readers decode every byte stream exactly, however it is chunked.
use crate::sym;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::FileType;
use std::io::{self, Read};

/// A source that returns its data in arbitrary pieces and may fail.
struct Source {
  data: Vec<u8>,
  pos: usize,
  /// the largest piece
  max: usize,
  /// where it fails, if it does
  fault: usize,
  /// how it fails, once it has
  kind: Option<usize>,
}
impl Read for Source {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if self.pos == self.fault {
      let k = *self.kind.get_or_insert_with(|| sym::range(0, KINDS.len() + 1));
      return Err(match KINDS.get(k) {
        Some(k) => (*k).into(),
        None if k == KINDS.len() => io::Error::new(io::ErrorKind::Other, "custom"),
        None => io::Error::from_raw_os_error(5),
      });
    }
    let left = (self.fault.min(self.data.len()) - self.pos).min(buf.len());
    if left == 0 {
      return Ok(0);
    }
    let n = if left > self.max { left - sym::range(0, self.max) } else { sym::range(1, left) };
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

/// What a decoder of `b` sees at its start: a character and its length,
/// nothing, or an error.
fn decode(b: &[u8]) -> Result<Option<(u32, usize)>, ()> {
  let cont = |k: usize, lo: u8, hi: u8| match b.get(k) {
    Some(c) if (*c >= lo) & (*c <= hi) => Ok((*c & 0x3f) as u32),
    _ => Err(()),
  };
  let Some(&f) = b.first() else { return Ok(None) };
  let r = if f < 0x80 {
    (f as u32, 1)
  } else if f < 0xc2 {
    return Err(());
  } else if f < 0xe0 {
    ((f as u32 & 0x1f) << 6 | cont(1, 0x80, 0xbf)?, 2)
  } else if f < 0xf0 {
    let (lo, hi) = (if f == 0xe0 { 0xa0 } else { 0x80 }, if f == 0xed { 0x9f } else { 0xbf });
    ((f as u32 & 0xf) << 12 | cont(1, lo, hi)? << 6 | cont(2, 0x80, 0xbf)?, 3)
  } else if f < 0xf5 {
    let (lo, hi) = (if f == 0xf0 { 0x90 } else { 0x80 }, if f == 0xf4 { 0x8f } else { 0xbf });
    ((f as u32 & 7) << 18 | cont(1, lo, hi)? << 12 | cont(2, 0x80, 0xbf)? << 6 | cont(3, 0x80, 0xbf)?, 4)
  } else {
    return Err(());
  };
  Ok(Some(r))
}

/// One more read in one of the ways there are.
fn next<I>(r: &mut I, how: usize) -> Result<Option<I::CharType>, ()>
where
  I: InputStream,
  I::CharType: Copy + PartialEq,
{
  match how {
    0 => r.next_char().map_err(|_| ()),
    1 => {
      let p = r.peek().map_err(|_| ());
      let n = r.next_char().map_err(|_| ());
      check!(p == n);
      n
    }
    2 => {
      let p = r.peek_with_span().map(|c| c.0).map_err(|_| ());
      let n = r.next_char_span().map(|c| c.0).map_err(|_| ());
      check!(p == n);
      n
    }
    _ => {
      // read, push back, read again
      match r.next_char_loc() {
        Ok(c) => {
          let s = c.0;
          r.unread(c);
          let n = r.next_char().map_err(|_| ());
          check!(Ok(s) == n);
          n
        }
        Err(_) => Err(()),
      }
    }
  }
}

fn expect_chars(r: &mut Reader<Source>, data: &[u8], faulty: bool, how: usize) {
  let mut i = 0;
  loop {
    let got = next(r, how);
    match decode(&data[i..]) {
      Ok(Some((c, n))) => {
        sym::observe(c as u64);
        check!(matches!(got, Ok(Some(_))));
        let Ok(Some(g)) = got else { return };
        check!(g as u32 == c);
        i += n;
        sym::cover(n as u32 - 1);
      }
      Ok(None) if faulty => {
        check!(got.is_err());
        sym::cover(4);
        return;
      }
      Ok(None) => {
        check!(got == Ok(None));
        check!(next(r, how) == Ok(None));
        sym::cover(5);
        return;
      }
      Err(()) => {
        check!(got.is_err());
        sym::cover(6);
        return;
      }
    }
  }
}

const KINDS: [io::ErrorKind; 20] = {
  use io::ErrorKind::*;
  [
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, BrokenPipe, AlreadyExists, WouldBlock,
    InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, IsADirectory, Other,
  ]
};

/// Characters: every short stream in every division into reads.
#[no_mangle]
pub extern "C" fn c08_chars() {
  #[cfg(not(feature = "thorough"))]
  let n = sym::range(0, 5);
  #[cfg(feature = "thorough")]
  let n = sym::range(0, 7);
  let data = sym::vec(n);
  let how = sym::range(0, 3);
  let fault = sym::range(0, n + 1);
  let s = Source { data: data.clone(), pos: 0, max: 8, fault, kind: None };
  let mut r = Reader::new(s, FileType::Buffer);
  expect_chars(&mut r, &data[..fault.min(n)], fault <= n, how);
}

/// Characters around the end of the reader's buffer.
#[no_mangle]
pub extern "C" fn c08_buffer() {
  let fill = sym::range(1020, 1025);
  let mut data = vec![b'-'; fill];
  data.extend(sym::bytes::<4>());
  data.extend(b"\xc3\xa9z");
  let fault = [usize::MAX, fill + 2, 1024][sym::range(0, 2)];
  let s = Source { data: data.clone(), pos: 0, max: 2, fault, kind: None };
  let mut r = Reader::new(s, FileType::Buffer);
  for _ in 0..1018 {
    check!(r.next_char() == Ok(Some('-')));
  }
  expect_chars(&mut r, &data[1018..fault.min(data.len())], fault < data.len(), 0);
}

/// Bytes.
#[no_mangle]
pub extern "C" fn c08_bytes() {
  let n = sym::range(0, 4);
  let data = sym::vec(n);
  let how = sym::range(0, 3);
  let fault = sym::range(0, n + 1);
  let s = Source { data: data.clone(), pos: 0, max: 8, fault, kind: None };
  let mut r = ByteReader::new(s, FileType::Buffer);
  for b in &data[..fault.min(n)] {
    let got = next(&mut r, how);
    sym::observe(*b as u64);
    check!(got == Ok(Some(*b)));
  }
  if fault <= n {
    check!(next(&mut r, how).is_err());
    sym::cover(1);
  } else {
    check!(next(&mut r, how) == Ok(None));
    check!(next(&mut r, how) == Ok(None));
    sym::cover(0);
  }
}
#[no_mangle]
pub extern "C" fn c08_bytes_buffer() {
  let fill = sym::range(1022, 1025);
  let mut data = vec![7; fill];
  data.extend(sym::bytes::<3>());
  let s = Source { data: data.clone(), pos: 0, max: 2, fault: usize::MAX, kind: None };
  let mut r = ByteReader::new(s, FileType::Buffer);
  for b in &data {
    check!(r.next_char() == Ok(Some(*b)));
  }
  check!(r.next_char() == Ok(None));
}

/// The readers made from strings and slices.
#[no_mangle]
pub extern "C" fn c08_from() {
  let s = sym::text(4);
  let mut a = Reader::from(s.as_str());
  let mut b = Reader::from(s.clone());
  let mut c = Reader::from(s.as_bytes());
  for ch in s.chars() {
    check!(a.next_char() == Ok(Some(ch)));
    check!(b.next_char() == Ok(Some(ch)));
    check!(c.next_char() == Ok(Some(ch)));
  }
  check!(a.next_char() == Ok(None));
  check!(b.next_char() == Ok(None));
  check!(c.next_char() == Ok(None));
  let mut a = ByteReader::from(s.as_str());
  let mut b = ByteReader::from(s.clone());
  let mut c = ByteReader::from(s.as_bytes());
  for ch in s.bytes() {
    check!(a.next_char() == Ok(Some(ch)));
    check!(b.next_char() == Ok(Some(ch)));
    check!(c.next_char() == Ok(Some(ch)));
  }
  check!(a.next_char() == Ok(None));
  check!(b.next_char() == Ok(None));
  check!(c.next_char() == Ok(None));
  sym::cover(0);
}
