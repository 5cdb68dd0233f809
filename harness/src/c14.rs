//! C14: lookahead.
use crate::sym;
use crate::tok::*;
use laps::token::TokenStream;

#[cfg(not(feature = "thorough"))]
const STEPS: usize = 5;
#[cfg(feature = "thorough")]
const STEPS: usize = 7;

/// One chain of queries on `ts`, whose next token is entry `at`; an item of
/// the chain also may be a plain look at the next token.
fn chain<TS: TokenStream<Token = Token>>(ts: &mut TS, s: &Shared, at: usize, peeks: bool) {
  let n = sym::range(0, STEPS);
  let mut la = ts.lookahead();
  // the answer so far
  let mut want = true;
  for i in 0..n {
    let e = s.borrow_mut().get(at + i);
    let k = sym::range(0, if peeks { 4 } else { 3 });
    if k == 4 {
      match (la.peek_next(), e) {
        (Ok(t), Ok(k)) => check!(t.kind.0 == k && id(&t) as usize == at + i),
        (Err(_), Err(())) => return,
        _ => fail!(),
      }
      sym::cover(3);
      continue;
    }
    let r = match k {
      0 => la.maybe(Tk![a]),
      1 => la.maybe(Tk![b]),
      2 => la.maybe(Tk![l]),
      _ => la.maybe(Tk![r]),
    };
    match e {
      Ok(c) => {
        want &= match k {
          0 => c == 0,
          1 => c == 1,
          2 => c == 4 || c == 5,
          _ => c > 5 && c < 200,
        };
        la = match r {
          Ok(l) => l,
          Err(_) => fail!(),
        };
      }
      Err(()) => {
        // it may give up, or already know that the answer is no
        match r {
          Err(_) => {
            sym::cover(2);
            return;
          }
          Ok(l) => {
            check!(!want);
            let _ = l;
            return;
          }
        }
      }
    }
  }
  if sym::range(0, 1) == 0 {
    match la.result() {
      Ok(g) => {
        sym::observe(g as u64);
        check!(g == want);
        sym::cover(g as u32);
      }
      Err(_) => fail!(),
    }
  } else {
    drop(la);
  }
}

fn run<TS: TokenStream<Token = Token>>(ts: &mut TS, s: Shared) {
  // tokens read before, and perhaps pushed back
  let mut at = 0;
  if sym::range(0, 1) == 1 {
    match ts.next_token() {
      Ok(t) => {
        if sym::range(0, 1) == 1 {
          ts.unread(t);
        } else {
          at = 1;
        }
      }
      Err(_) => at = 1,
    }
  }
  chain(ts, &s, at, false);
  drain(ts, &s, at);
}
#[no_mangle]
pub extern "C" fn c14_buffer() {
  let s = script(5, true);
  run(&mut buffer(&s), s);
}
#[no_mangle]
pub extern "C" fn c14_default() {
  let s = script(5, true);
  run(&mut plain(&s), s);
}

/// Looks at tokens between the queries.
#[no_mangle]
pub extern "C" fn c14_peek() {
  let s = script(3, true);
  let mut ts = buffer(&s);
  chain(&mut ts, &s, 0, true);
  drain(&mut ts, &s, 0);
}

/// Several chains, one after another, with a peek before.
#[no_mangle]
pub extern "C" fn c14_twice() {
  let s = script(3, false);
  let mut ts = buffer(&s);
  let k = sym::range(0, 3);
  check!(ts.peek_n(k).is_ok());
  for _ in 0..2 {
    let (x, y) = (sym::range(0, 1), sym::range(0, 1));
    let la = ts.lookahead();
    let la = match if x == 0 { la.maybe(Tk![a]) } else { la.maybe(Tk![b]) } {
      Ok(l) => l,
      Err(_) => fail!(),
    };
    let la = match if y == 0 { la.maybe(Tk![a]) } else { la.maybe(Tk![b]) } {
      Ok(l) => l,
      Err(_) => fail!(),
    };
    let e0 = s.borrow_mut().get(0);
    let e1 = s.borrow_mut().get(1);
    check!(la.result() == Ok(e0 == Ok(x as u8) && e1 == Ok(y as u8)));
  }
  drain(&mut ts, &s, 0);
}
