//! The harness side of the symbolic executor: requests for symbolic data,
//! assumptions and assertions.
#![allow(dead_code)]

extern "C" {
  fn sym_bytes(p: *mut u8, n: usize);
  fn sym_u32() -> u32;
  fn sym_u64() -> u64;
  fn sym_range(lo: u64, hi: u64) -> u64;
  fn sym_assume(c: bool);
  fn sym_assert(c: bool, id: u32);
  fn sym_fail(id: u32) -> !;
  fn sym_cover(id: u32);
  fn sym_observe(v: u64);
  fn sym_concrete(v: u64) -> u64;
  fn sym_ite(c: bool, a: u64, b: u64) -> u64;
  fn sym_file(p: *const u8, n: usize);
  fn sym_cpus(n: usize);
  fn sym_out_len() -> usize;
  fn sym_out_take(p: *mut u8, cap: usize) -> usize;
}

/// A symbolic byte array.
pub fn bytes<const N: usize>() -> [u8; N] {
  let mut b = [0u8; N];
  unsafe { sym_bytes(b.as_mut_ptr(), N) };
  b
}
/// A symbolic byte vector of (concrete) length `n`.
pub fn vec(n: usize) -> Vec<u8> {
  let mut b = vec![0u8; n];
  if n > 0 {
    unsafe { sym_bytes(b.as_mut_ptr(), n) };
  }
  b
}
pub fn byte() -> u8 {
  bytes::<1>()[0]
}
pub fn any_u32() -> u32 {
  unsafe { sym_u32() }
}
pub fn any_u64() -> u64 {
  unsafe { sym_u64() }
}
/// A value in `lo..=hi`, concrete on every path (one path per value).
pub fn range(lo: usize, hi: usize) -> usize {
  unsafe { sym_range(lo as u64, hi as u64) as usize }
}
pub fn assume(c: bool) {
  unsafe { sym_assume(c) }
}
pub fn assert_at(c: bool, id: u32) {
  unsafe { sym_assert(c, id) }
}
pub fn fail_at(id: u32) -> ! {
  unsafe { sym_fail(id) }
}
pub fn cover(id: u32) {
  unsafe { sym_cover(id) }
}
pub fn observe(v: u64) {
  unsafe { sym_observe(v) }
}
/// Makes a symbolic value concrete (one path per feasible value).
pub fn concrete(v: u64) -> u64 {
  unsafe { sym_concrete(v) }
}
/// `if c { a } else { b }` without a branch.
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
  unsafe { sym_ite(c, a, b) }
}
/// Takes what was written to standard output and standard error so far.
pub fn output() -> Vec<u8> {
  unsafe {
    let n = sym_out_len();
    let mut v = vec![0u8; n];
    if n > 0 {
      let m = sym_out_take(v.as_mut_ptr(), n);
      v.truncate(m);
    }
    v
  }
}
/// The contents of the file named `sym-file` from now on.
pub fn file(b: &[u8]) {
  unsafe { sym_file(b.as_ptr(), b.len()) }
}
/// The number of processors there are from now on.
pub fn cpus(n: usize) {
  unsafe { sym_cpus(n) }
}
/// A symbolic Unicode scalar value.
pub fn any_char() -> char {
  let c = any_u32();
  assume(c < 0x110000 && !(c >= 0xd800 && c < 0xe000));
  unsafe { char::from_u32_unchecked(c) }
}
/// A symbolic string of at most `max` bytes (any valid UTF-8).
pub fn text(max: usize) -> String {
  let n = range(0, max);
  match String::from_utf8(vec(n)) {
    Ok(s) => s,
    Err(_) => {
      assume(false);
      unreachable!()
    }
  }
}
/// A symbolic string of exactly `n` characters.
pub fn chars(n: usize) -> Vec<char> {
  (0..n).map(|_| any_char()).collect()
}
/// A symbolic string of exactly `n` ASCII characters.
pub fn ascii(n: usize) -> String {
  let b = vec(n);
  for x in &b {
    assume(*x < 0x80);
  }
  unsafe { String::from_utf8_unchecked(b) }
}

#[macro_export]
macro_rules! check {
  ($c:expr) => {
    $crate::sym::assert_at($c, line!())
  };
}
#[macro_export]
macro_rules! fail {
  () => {
    $crate::sym::fail_at(line!())
  };
}

/// Runs `f` in `n` threads, with the number of each. The symbolic executor
/// lets them interleave in every way in which a running thread is interrupted
/// at most `preempt` times in all, before an atomic operation.
/// Nothing in `f` may be symbolic or observed.
pub fn threads<F: Fn(usize) + Sync>(n: usize, preempt: usize, f: F) {
  extern "C" {
    fn sym_threads(n: usize, f: extern "C" fn(*const (), usize), data: *const (), preempt: usize);
  }
  extern "C" fn run<F: Fn(usize) + Sync>(f: *const (), i: usize) {
    (unsafe { &*(f as *const F) })(i)
  }
  unsafe { sym_threads(n, run::<F>, &f as *const F as *const (), preempt) };
}

/// How often a thread repeats what it does: once, or often in a replay, where
/// the threads interleave by chance.
pub fn reps() -> usize {
  extern "C" {
    fn sym_reps() -> usize;
  }
  unsafe { sym_reps() }
}
