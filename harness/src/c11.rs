//! C11: integer literals.
use crate::sym;
use laps::lexer::{int_literal, signed_int_literal};

/// Reference: sign-magnitude value of the literal, `None` if it is not one or
/// if its magnitude does not fit 128 bits.
/// `None` = not a literal, `Some(None)` = magnitude above 128 bits.
fn digit(b: u8, radix: u32) -> (bool, u32) {
  let d = b.wrapping_sub(b'0') as u32;
  let l = (b | 0x20).wrapping_sub(b'a') as u32;
  let is_d = d < 10;
  let is_l = l < 6;
  let v = sym::ite(is_d, d as u64, l as u64 + 10) as u32;
  ((is_d | is_l) & (v < radix), v)
}

fn magnitude(s: &[u8]) -> Option<Option<u128>> {
  let (radix, digits) = if s.len() >= 2 && s[0] == b'0' && (s[1] == b'b' || s[1] == b'o' || s[1] == b'x') {
    (sym::concrete(if s[1] == b'b' { 2 } else if s[1] == b'o' { 8 } else { 16 }) as u32, &s[2..])
  } else {
    (10, s)
  };
  if digits.is_empty() {
    return None;
  }
  let mut ok = true;
  for b in digits {
    ok &= digit(*b, radix).0;
  }
  if !ok {
    return None;
  }
  let mut v = 0u128;
  for b in digits {
    let d = digit(*b, radix).1;
    match v.checked_mul(radix as u128).and_then(|v| v.checked_add(d as u128)) {
      Some(n) => v = n,
      None => return Some(None),
    }
  }
  Some(Some(v))
}

fn cov<T>(base: u32, r: &Option<T>, m: &Option<Option<u128>>) {
  match (r, m) {
    (Some(_), _) => sym::cover(base),
    (None, Some(_)) => sym::cover(base + 1),
    (None, None) => sym::cover(base + 2),
  }
}

macro_rules! harness {
  ($un:ident, $si:ident, $t:ty, $signed:expr, $len:expr) => {
    fn $un(s: &str) {
      let m = magnitude(s.as_bytes());
      let r: Option<$t> = int_literal::<$t>(s);
      cov(0, &r, &m);
      match (r, m) {
        (Some(v), Some(Some(m))) => {
          check!(v >= 0 as $t);
          check!(v as u128 == m);
        }
        (Some(_), _) => fail!(),
        (None, Some(Some(m))) => check!(m > <$t>::MAX as u128),
        (None, _) => {}
      }
      sym::observe(r.is_some() as u64);
    }
    fn $si(s: &str) {
      let b = s.as_bytes();
      let (neg, rest) = match b.first() {
        Some(b'+') => (false, &b[1..]),
        Some(b'-') => (true, &b[1..]),
        _ => (false, b),
      };
      let m = magnitude(rest);
      let r: Option<$t> = signed_int_literal::<$t>(s);
      cov(3, &r, &m);
      // the largest magnitude that can be represented
      let limit = if neg && $signed { (<$t>::MAX as u128) + 1 } else { <$t>::MAX as u128 };
      match (r, m) {
        (Some(v), Some(Some(m))) => {
          check!(m <= limit);
          if neg {
            check!(v == (m as $t).wrapping_neg());
          } else {
            check!(v == m as $t);
          }
        }
        (Some(_), _) => fail!(),
        (None, Some(Some(m))) => check!(m > limit),
        (None, _) => {}
      }
      sym::observe(r.is_some() as u64);
    }
  };
}

harness!(u_i8, s_i8, i8, true, 5);
harness!(u_u8, s_u8, u8, false, 5);
harness!(u_i16, s_i16, i16, true, 5);
harness!(u_u16, s_u16, u16, false, 5);
harness!(u_i32, s_i32, i32, true, 5);
harness!(u_u32, s_u32, u32, false, 5);
harness!(u_i64, s_i64, i64, true, 5);
harness!(u_u64, s_u64, u64, false, 5);
harness!(u_isize, s_isize, isize, true, 5);
harness!(u_usize, s_usize, usize, false, 5);
harness!(u_i128, s_i128, i128, true, 5);
harness!(u_u128, s_u128, u128, false, 5);

#[cfg(not(feature = "thorough"))]
const ANY: usize = 5;
#[cfg(feature = "thorough")]
const ANY: usize = 6;

/// Every type, every text of at most `ANY` bytes.
#[no_mangle]
pub extern "C" fn c11_any() {
  let k = sym::range(0, 11);
  let s = sym::text(ANY);
  pick(k, &s);
}

fn pick(k: usize, s: &str) {
  match k {
    0 => u_i8(s),
    1 => u_u8(s),
    2 => u_i16(s),
    3 => u_u16(s),
    4 => u_i32(s),
    5 => u_u32(s),
    6 => u_i64(s),
    7 => u_u64(s),
    8 => u_isize(s),
    9 => u_usize(s),
    10 => u_i128(s),
    11 => u_u128(s),
    12 => s_i8(s),
    13 => s_u8(s),
    14 => s_i16(s),
    15 => s_u16(s),
    16 => s_i32(s),
    17 => s_u32(s),
    18 => s_i64(s),
    19 => s_u64(s),
    20 => s_isize(s),
    21 => s_usize(s),
    22 => s_i128(s),
    _ => s_u128(s),
  }
}
#[no_mangle]
pub extern "C" fn c11_signed_any() {
  let k = sym::range(12, 23);
  let s = sym::text(ANY);
  pick(k, &s);
}

/// The digits of `v` in the given radix.
fn digits(mut v: u128, radix: u128) -> Vec<u8> {
  let mut d = vec![];
  loop {
    d.push(b"0123456789abcdef"[(v % radix) as usize]);
    v /= radix;
    if v == 0 {
      break;
    }
  }
  d.reverse();
  d
}

/// Literals as long as the largest magnitudes of the type: the digits of the
/// maximum (or of the minimum's magnitude) of which the first, the middle and
/// the last are replaced by arbitrary ASCII characters, optionally with one more
/// arbitrary character in front.
#[no_mangle]
pub extern "C" fn c11_long() {
  let k = sym::range(0, 23);
  let t = k % 12;
  let bits = [8, 16, 32, 64, 64, 128][t / 2];
  let signed = t % 2 == 0;
  let max = if signed { u128::MAX >> (129 - bits) } else { u128::MAX >> (128 - bits) };
  let radix = [2, 8, 10, 16][sym::range(0, 3)];
  let sign = if k >= 12 { ["", "-", "+"][sym::range(0, 2)] } else { "" };
  let neg_limit = sign == "-" && signed && sym::range(0, 1) == 1;
  let mut d = digits(if neg_limit { max + 1 } else { max }, radix);
  if sym::range(0, 1) == 1 {
    d.insert(0, b'0');
  }
  let (n, c) = (d.len(), sym::bytes::<3>());
  d[n - 1] = c[0];
  d[0] = c[1];
  #[cfg(feature = "thorough")]
  {
    d[n / 2] = c[2];
  }
  sym::assume((c[0] | c[1] | c[2]) < 0x80);
  let mut s = String::from(sign);
  s += match radix {
    2 => "0b",
    8 => "0o",
    10 => "",
    _ => "0x",
  };
  s += unsafe { std::str::from_utf8_unchecked(&d) };
  pick(k, &s);
}
