//! C03: derived lexers built serially and in parallel (by the macro, when the
//! harness is compiled).
use crate::lexers::Tap;
use crate::reref::*;
use crate::sym;
use laps::lexer::{int_literal, Tokenize};

macro_rules! three {
  ($c:ident, $($t:tt)*) => {
    pub mod serial {
      use super::*;
      #[derive(Tokenize, Debug, PartialEq)]
      #[char_type($c)]
      #[enable_par(false)]
      pub enum Tok { $($t)* }
    }
    pub mod parallel {
      use super::*;
      #[derive(Tokenize, Debug, PartialEq)]
      #[char_type($c)]
      #[enable_par(true)]
      pub enum Tok { $($t)* }
    }
    pub mod auto {
      use super::*;
      #[derive(Tokenize, Debug, PartialEq)]
      #[char_type($c)]
      pub enum Tok { $($t)* }
    }
  };
}

mod lang {
  use super::*;
  three! { char,
    #[skip(r"[ \n]+|//[^\n]*")]
    _Skip,
    #[regex(r"if|else")]
    Keyword,
    #[regex(r"[a-z_][a-z0-9_]*")]
    Ident(String),
    #[regex(r"[0-9]+", int_literal)]
    Int(u32),
    #[regex(r"[+\-*/]|<=?|=+")]
    Op,
    #[regex(r"a.|\u{6f22}+")]
    Other,
    #[eof]
    Eof,
  }
}
mod bytes {
  use super::*;
  three! { u8,
    #[skip(r"(?-u:[ \n])+")]
    _Skip,
    #[regex(r"ab|a(?:ba)*c")]
    First,
    #[regex(r"(?-u:[a-c])+d?")]
    Second,
    #[regex(r"0x(?-u:[0-9a-f])*|(?-u:[0-9])+")]
    Number,
    #[eof]
    Eof,
  }
}

macro_rules! compare {
  ($m:ident, $c:ty, $input:expr) => {{
    let input: Vec<$c> = $input;
    let mut a = Tap::new(input.clone());
    let mut b = Tap::new(input.clone());
    let mut c = Tap::new(input);
    for _ in 0..a.all.len() + 1 {
      let x = $m::serial::Tok::next_token(&mut a);
      let y = $m::parallel::Tok::next_token(&mut b);
      let z = $m::auto::Tok::next_token(&mut c);
      check!(a.at == b.at && a.at == c.at);
      sym::observe(a.at as u64);
      match (x, y, z) {
        (Ok(x), Ok(y), Ok(z)) => {
          check!(format!("{:?}", x.kind) == format!("{:?}", y.kind));
          check!(format!("{:?}", x.kind) == format!("{:?}", z.kind));
          check!(format!("{}{}", x.span, x.span) == format!("{}{}", y.span, z.span));
          sym::cover(0);
        }
        (Err(_), Err(_), Err(_)) => sym::cover(1),
        _ => fail!(),
      }
    }
  }};
}

fn sets(res: &[&str], mode: Mode) -> Vec<Vec<(u32, u32)>> {
  let hs: Vec<_> = res.iter().map(|re| (parse(re, mode).unwrap(), 0)).collect();
  classes(&hs, mode, &['\n' as u32])
}

#[no_mangle]
pub extern "C" fn c03_lexer() {
  #[cfg(not(feature = "thorough"))]
  let max = 3;
  #[cfg(feature = "thorough")]
  let max = 4;
  let cs = sets(&[r"[ \n]+|//[^\n]*", r"if|else", r"[a-z_][a-z0-9_]*", r"[0-9]+", r"[+\-*/]|<=?|=+", r"a.|\u{6f22}+"], Mode::Chars);
  compare!(lang, char, (0..sym::range(0, max)).map(|_| unsafe { char::from_u32_unchecked(symbol(&cs).0) }).collect());
}

#[no_mangle]
pub extern "C" fn c03_lexer_bytes() {
  #[cfg(not(feature = "thorough"))]
  let max = 3;
  #[cfg(feature = "thorough")]
  let max = 4;
  let cs = sets(&[r"(?-u:[ \n])+", r"ab|a(?:ba)*c", r"(?-u:[a-c])+d?", r"0x(?-u:[0-9a-f])*|(?-u:[0-9])+"], Mode::Bytes);
  compare!(bytes, u8, (0..sym::range(0, max)).map(|_| { let c = symbol(&cs).0; c as u8 }).collect());
}
