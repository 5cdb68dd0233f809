//! C07: nothing is lost, and spans cover exactly the text.
use crate::lexers::*;
use crate::sym;
use laps::lexer::Tokenize;
use laps::reader::{ByteReader, Reader};

#[cfg(not(feature = "thorough"))]
const N: usize = 3;
#[cfg(feature = "thorough")]
const N: usize = 4;

fn chars<K: Kind + Tokenize<CharType = char>>(n: usize) {
  run::<K, char>(sym::range(0, n), to_char, true);
}
#[no_mangle]
pub extern "C" fn c07_lang() {
  chars::<Lang>(N);
}
#[no_mangle]
pub extern "C" fn c07_other() {
  match sym::range(0, 3) {
    0 => chars::<Overlap>(N),
    1 => chars::<Nullable>(N),
    2 => chars::<Literals>(N),
    _ => chars::<Wide>(N - 1),
  }
}
#[no_mangle]
pub extern "C" fn c07_bytes() {
  run::<Bytes, u8>(sym::range(0, N), |c| c as u8, true);
}

/// Tokens and skipped text with line breaks anywhere in them.
#[no_mangle]
pub extern "C" fn c07_lines() {
  match sym::range(0, 3) {
    0 => chars::<Lines>(N),
    1 => run::<ByteLines, u8>(sym::range(0, N), |c| c as u8, true),
    2 => {
      let t = ["#¿\n¿", "#a\n¿\n¿", "a\\\n¿b\n¿", "\n\n ¿\n¿", ";¿\n¿#\n", "#\n#\n¿"];
      run_text::<Lines, char>(t[sym::range(0, 5)], to_char, true)
    }
    _ => {
      let t = ["#¿\n¿", "a\n¿\n¿", "\n\r\n¿¿", "#ab\n#¿\n"];
      run_text::<ByteLines, u8>(t[sym::range(0, 3)], |c| c as u8, true)
    }
  }
}

/// Texts of several lines with arbitrary characters in them.
#[no_mangle]
pub extern "C" fn c07_text() {
  let lang = ["if\n¿\n in¿", "a\n\n  b1¿\n¿", "// c¿\nif¿//", "12.¿\n¿3", "\n\n\n¿", "a b\n¿c\n d¿"];
  let lits = ["\"a\n¿\" ¿", "'\n¿'\n¿", "\"\\\n¿\n\"\n¿"];
  let k = sym::range(0, 10);
  match k {
    0..=5 => run_text::<Lang, char>(lang[k], to_char, true),
    6..=8 => run_text::<Literals, char>(lits[k - 6], to_char, true),
    9 => run_text::<Nullable, char>("12\n¿ \n xyx¿", to_char, true),
    _ => run_text::<Bytes, u8>("a¿\n b¿\n\n0¿", |c| c as u8, true),
  }
}

/// Through the readers.
#[no_mangle]
pub extern "C" fn c07_reader() {
  let n = sym::range(0, N - 1);
  if sym::range(0, 1) == 0 {
    let rules = Rules::of::<Lang>();
    let (us, rs) = rules.input(n);
    let s: String = us.iter().map(|c| to_char(*c)).collect();
    check_all(&rules, Lang::lexer(Reader::from(s)), &us, &rs, true);
  } else {
    let rules = Rules::of::<Bytes>();
    let (us, rs) = rules.input(n);
    let s: Vec<u8> = us.iter().map(|c| *c as u8).collect();
    check_all(&rules, Bytes::lexer(ByteReader::from(&s[..])), &us, &rs, true);
  }
}
