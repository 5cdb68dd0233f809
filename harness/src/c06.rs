//! C06: maximal viable runs, first rule, skip rules.
use crate::lexers::*;
use crate::sym;

#[cfg(not(feature = "thorough"))]
const N: usize = 3;
#[cfg(feature = "thorough")]
const N: usize = 4;

fn chars<K: Kind + laps::lexer::Tokenize<CharType = char>>(n: usize) {
  run::<K, char>(sym::range(0, n), to_char, false);
}
#[no_mangle]
pub extern "C" fn c06_lang() {
  chars::<Lang>(N);
}
#[no_mangle]
pub extern "C" fn c06_overlap() {
  chars::<Overlap>(N + 1);
}
#[no_mangle]
pub extern "C" fn c06_nullable() {
  chars::<Nullable>(N);
}
#[no_mangle]
pub extern "C" fn c06_wide() {
  chars::<Wide>(N);
}
#[no_mangle]
pub extern "C" fn c06_literals() {
  chars::<Literals>(N);
}
#[no_mangle]
pub extern "C" fn c06_bytes() {
  run::<Bytes, u8>(sym::range(0, N), |c| c as u8, false);
}
#[no_mangle]
pub extern "C" fn c06_lines() {
  match sym::range(0, 1) {
    0 => chars::<Lines>(N),
    _ => run::<ByteLines, u8>(sym::range(0, N), |c| c as u8, false),
  }
}
/// Tables with about as many states as an element can tell apart.
#[no_mangle]
pub extern "C" fn c06_long() {
  macro_rules! long {
    ($t:ident, $n:expr) => {
      run_long::<$t>(
        $n,
        |k| match k {
          $t::Long(s) => Some(s.len()),
          _ => None,
        },
        |k| matches!(k, $t::Eof),
      )
    };
  }
  match sym::range(0, 3) {
    0 => long!(Long254, 253),
    1 => long!(Long255, 254),
    2 => long!(Long256, 255),
    _ => long!(Long257, 256),
  }
}

/// Longer texts with arbitrary characters in them.
#[no_mangle]
pub extern "C" fn c06_text() {
  let lang = ["if¿", "in¿n if", "a1¿ = ¿", "12.¿¿", "25¿ ¿", "// if¿\n¿", "if(x¿=1){¿", "<¿ !¿", "_¿0.5/¿/"];
  let lits = ["'¿'¿", "'\\¿'", "\"a¿\\¿\"", "0x¿¿ 1", "6553¿¿", "\"\\x4¿\"\"¿", "'\\u{1¿}'"];
  let over = ["aab¿¿", "bbb¿d", "ac¿bb", "abcab¿d", "dcabd¿"];
  let bytes = ["do¿", "abc¿ \n¿", "0.¿."];
  let k = sym::range(0, 23);
  match k {
    0..=8 => run_text::<Lang, char>(lang[k], to_char, false),
    9..=15 => run_text::<Literals, char>(lits[k - 9], to_char, false),
    16..=20 => run_text::<Overlap, char>(over[k - 16], to_char, false),
    _ => run_text::<Bytes, u8>(bytes[k - 21], |c| c as u8, false),
  }
}
