//! C13: a token buffer is a queue over its tokenizer.
use crate::sym;
use crate::tok::*;
use laps::token::{TokenStream, Tokenizer};
use std::collections::VecDeque;

/// The reference: tokens taken from the script but not delivered, and the
/// next entry.
struct Queue {
  buf: VecDeque<(u8, u32)>,
  at: usize,
  script: Shared,
}
impl Queue {
  fn fetch(&mut self) -> Result<(u8, u32), ()> {
    let i = self.at;
    self.at += 1;
    let k = self.script.borrow_mut().get(i)?;
    Ok((k, i as u32))
  }
  fn next(&mut self) -> Result<(u8, u32), ()> {
    match self.buf.pop_front() {
      Some(t) => Ok(t),
      None => self.fetch(),
    }
  }
  fn peek(&mut self, n: usize) -> Result<Vec<(u8, u32)>, ()> {
    while self.buf.len() < n {
      let t = self.fetch()?;
      self.buf.push_back(t);
    }
    Ok(self.buf.iter().take(n).copied().collect())
  }
}
fn same(t: &Token, w: &(u8, u32)) -> bool {
  t.kind.0 == w.0 && id(t) == w.1
}

#[cfg(not(feature = "thorough"))]
const STEPS: usize = 5;
#[cfg(feature = "thorough")]
const STEPS: usize = 6;

fn history<TS: TokenStream<Token = Token>>(ts: &mut TS, s: Shared) {
  let n = s.borrow().len();
  let mut q = Queue { buf: VecDeque::new(), at: 0, script: s.clone() };
  // tokens that can be pushed back
  let mut read: Vec<Token> = vec![];
  for _ in 0..STEPS {
    match sym::range(0, 7) {
      0 => match (ts.next_token(), q.next()) {
        (Ok(t), Ok(w)) => {
          check!(same(&t, &w));
          read.push(t);
        }
        (Err(_), Err(())) => sym::cover(0),
        _ => fail!(),
      },
      1 => {
        // the last token read, or one that never was
        let t = match read.pop() {
          Some(t) => t,
          None => s.borrow().token(77, sym::byte()),
        };
        q.buf.push_front((t.kind.0, id(&t)));
        ts.unread(t);
      }
      2 => match (ts.peek(), q.peek(1)) {
        (Ok(t), Ok(w)) => check!(same(&t, &w[0])),
        (Err(_), Err(())) => sym::cover(1),
        _ => fail!(),
      },
      3 => match (ts.peek2(), q.peek(2)) {
        (Ok((t, u)), Ok(w)) => check!(same(&t, &w[0]) && same(&u, &w[1])),
        (Err(_), Err(())) => sym::cover(2),
        _ => fail!(),
      },
      4 => {
        let k = [0, 1, 3][sym::range(0, 2)];
        match (ts.peek_n(k), q.peek(k)) {
          (Ok(t), Ok(w)) => {
            check!(t.len() == k);
            for (t, w) in t.iter().zip(&w) {
              check!(same(t, w));
            }
          }
          (Err(_), Err(())) => sym::cover(3),
          _ => fail!(),
        }
      }
      5 => {
        let k = Kind(sym::byte());
        match (ts.expect(k), q.next()) {
          (Ok(t), Ok(w)) => {
            check!(w.0 == k.0);
            check!(same(&t, &w));
            read.push(t);
            sym::cover(4);
          }
          (Err(_), Ok(w)) => {
            check!(w.0 != k.0);
            // an unexpected token stays
            q.buf.push_front(w);
            sym::cover(5);
          }
          (Err(_), Err(())) => {}
          _ => fail!(),
        }
      }
      k => {
        let stop = sym::byte();
        let f = |t: &Token| t.kind.0 == stop || t.kind.0 == EOF;
        let (ok, v) = if k == 6 {
          (ts.skip_until(f).is_ok(), None)
        } else {
          match ts.collect_until(f) {
            Ok(v) => (true, Some(v)),
            Err(_) => (false, None),
          }
        };
        let mut w = vec![];
        let r = loop {
          match q.next() {
            Ok(t) if t.0 == stop || t.0 == EOF => {
              q.buf.push_front(t);
              break true;
            }
            Ok(t) => w.push(t),
            Err(()) => break false,
          }
        };
        check!(ok == r);
        if let Some(v) = v {
          check!(v.len() == w.len());
          for (t, w) in v.iter().zip(&w) {
            check!(same(t, w));
          }
        }
        read.clear();
        sym::cover(6);
      }
    }
  }
  // what is left
  for _ in 0..n + STEPS + 2 {
    match (ts.next_token(), q.next()) {
      (Ok(t), Ok(w)) => check!(same(&t, &w)),
      (Err(_), Err(())) => {}
      _ => fail!(),
    }
  }
  sym::cover(7);
}

#[no_mangle]
pub extern "C" fn c13_buffer() {
  let s = script(3, true);
  history(&mut buffer(&s), s);
}

/// The trait's own methods.
#[no_mangle]
pub extern "C" fn c13_default() {
  let s = script(3, true);
  history(&mut plain(&s), s);
}

/// Peeking far, with an error anywhere.
#[no_mangle]
pub extern "C" fn c13_far() {
  let s = script(6, true);
  let mut ts = buffer(&s);
  let mut p = plain(&s);
  let mut q = Queue { buf: VecDeque::new(), at: 0, script: s.clone() };
  let n = sym::range(0, 7);
  let m = sym::range(0, 7);
  for n in [n, m] {
    let (a, b, w) = (ts.peek_n(n), p.peek_n(n), q.peek(n));
    for g in [a, b] {
      match (g, &w) {
        (Ok(t), Ok(w)) => {
          check!(t.len() == n);
          for (t, w) in t.iter().zip(w) {
            check!(same(t, w));
          }
        }
        (Err(_), Err(())) => {}
        _ => fail!(),
      }
    }
  }
  for _ in 0..8 {
    let w = q.next();
    for g in [ts.next_token(), p.next_token()] {
      match (g, &w) {
        (Ok(t), Ok(w)) => check!(same(&t, w)),
        (Err(_), Err(())) => {}
        _ => fail!(),
      }
    }
  }
  sym::cover(0);
}
