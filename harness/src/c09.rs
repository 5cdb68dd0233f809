//! C09: the reader's position is that of the consumed text.
use crate::sym;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::Location;

#[cfg(not(feature = "thorough"))]
const STEPS: usize = 5;
#[cfg(feature = "thorough")]
const STEPS: usize = 7;

/// The position after walking over `text` from a position.
fn walk(base: (u32, u32), text: &[u32]) -> (u32, u32) {
  let (mut line, mut col) = base;
  for c in text {
    let nl = *c == '\n' as u32;
    col = sym::ite(nl, 0, col as u64 + 1) as u32;
    line += nl as u32;
  }
  (line, col)
}

fn lc(l: Location) -> (u32, u32) {
  (l.line, l.col)
}

/// Any history of calls. `all` is the whole input.
fn history<I>(r: &mut I, all: &[u32], val: fn(I::CharType) -> u32, make: fn(u8) -> I::CharType)
where
  I: InputStream,
  I::CharType: Copy,
{
  // what is still to come, last first
  let mut rest: Vec<u32> = all.iter().rev().copied().collect();
  // the last explicit position, and what was consumed since
  let mut base = (1, 0);
  let mut since: Vec<u32> = vec![];
  // what was read and can be pushed back: the character, its returned
  // location, and the base and the number of characters before it
  let mut reads: Vec<(Option<I::CharType>, Location, (u32, u32), Vec<u32>)> = vec![];
  for _ in 0..STEPS {
    let here = walk(base, &since);
    let k = sym::range(0, 6);
    match k {
      // reads
      0 | 1 | 2 => {
        let want = rest.pop();
        let after = {
          let mut s = since.clone();
          s.extend(want);
          s
        };
        match k {
          0 => {
            let (c, loc) = match r.next_char_loc() {
              Ok(x) => x,
              Err(_) => fail!(),
            };
            check!(c.map(val) == want);
            check!(lc(loc) == here);
            reads.push((c, loc, base, since.clone()));
          }
          1 => {
            let (c, sp) = match r.next_char_span() {
              Ok(x) => x,
              Err(_) => fail!(),
            };
            check!(c.map(val) == want);
            check!(lc(sp.start()) == walk(base, &after) && lc(sp.end()) == walk(base, &after));
          }
          _ => {
            let sp = match r.next_span() {
              Ok(x) => x,
              Err(_) => fail!(),
            };
            check!(lc(sp.start()) == walk(base, &after) && lc(sp.end()) == walk(base, &after));
          }
        }
        if k != 0 {
          // not pushed back any more, nor what was read before
          reads.clear();
        }
        since = after;
        sym::cover(0);
      }
      // push back the last read
      3 => {
        let Some((c, loc, b, s)) = reads.pop() else {
          // a character that was not read, back to an arbitrary position
          let to = (sym::any_u32(), sym::any_u32());
          sym::assume((to.0 < 1000) & (to.1 < 1000));
          let ch = make(b'?');
          r.unread((Some(ch), Location { line: to.0, col: to.1 }));
          rest.push(val(ch));
          base = to;
          since = vec![];
          continue;
        };
        r.unread((c, loc));
        rest.extend(c.map(val));
        base = b;
        since = s;
        sym::cover(1);
      }
      4 => {
        let c = match r.peek() {
          Ok(c) => c,
          Err(_) => fail!(),
        };
        check!(c.map(val) == rest.last().copied());
        sym::cover(2);
      }
      5 => {
        let (c, sp) = match r.peek_with_span() {
          Ok(c) => c,
          Err(_) => fail!(),
        };
        check!(c.map(val) == rest.last().copied());
        let mut s = since.clone();
        s.extend(rest.last());
        check!(lc(sp.start()) == walk(base, &s) && lc(sp.end()) == walk(base, &s));
        sym::cover(3);
      }
      _ => {
        let to = (sym::any_u32(), sym::any_u32());
        sym::assume((to.0 < 1 << 31) & (to.1 < 1 << 31));
        r.set_line_col(to.0, to.1);
        base = to;
        since.clear();
        sym::cover(4);
      }
    }
    let now = walk(base, &since);
    check!(lc(r.span().start()) == now && lc(r.span().end()) == now);
  }
}

#[no_mangle]
pub extern "C" fn c09_chars() {
  let s = sym::text(3);
  let all: Vec<u32> = s.chars().map(|c| c as u32).collect();
  let mut r = Reader::from(s.as_str());
  history(&mut r, &all, |c| c as u32, |c| c as char);
}

#[no_mangle]
pub extern "C" fn c09_bytes() {
  let n = sym::range(0, 3);
  let s = sym::vec(n);
  let all: Vec<u32> = s.iter().map(|c| *c as u32).collect();
  let mut r = ByteReader::from(s.as_slice());
  history(&mut r, &all, |c| c as u32, |c| c);
}

/// Longer texts, read to the end and pushed back to the start.
#[no_mangle]
pub extern "C" fn c09_text() {
  let n = sym::range(0, 5);
  let s = sym::ascii(n);
  let all: Vec<u32> = s.bytes().map(|c| c as u32).collect();
  let mut r = Reader::from(s);
  let mut reads = vec![];
  for i in 0..=n {
    let (c, loc) = match r.next_char_loc() {
      Ok(c) => c,
      Err(_) => fail!(),
    };
    check!(c.map(|c| c as u32) == all.get(i).copied());
    check!(lc(loc) == walk((1, 0), &all[..i]));
    check!(lc(r.span().end()) == walk((1, 0), &all[..(i + 1).min(n)]));
    reads.push((c, loc));
  }
  for i in (0..=n).rev() {
    r.unread(reads.pop().unwrap());
    check!(lc(r.span().start()) == walk((1, 0), &all[..i]));
  }
  for i in 0..=n {
    match r.next_char() {
      Ok(c) => check!(c.map(|c| c as u32) == all.get(i).copied()),
      Err(_) => fail!(),
    }
    check!(lc(r.span().end()) == walk((1, 0), &all[..(i + 1).min(n)]));
  }
  sym::cover(0);
}
