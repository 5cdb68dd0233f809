//! C20: errors and warnings are counted exactly across all sharing spans.
use crate::sym;
use laps::input::InputStream;
use laps::prelude::*;
use laps::reader::Reader;
use laps::span::{FileType, Location, Span, TrySpan};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error};

fn returns(s: &Span) -> laps::span::Result<()> {
  return_error!(s, "five")
}

/// What each kind of logging adds to the errors and the warnings.
fn log(kind: usize, s: &Span) -> (usize, usize) {
  match kind {
    0 => {
      let e = log_raw_error!(s, "one");
      check!(!e.is_fatal());
      (1, 0)
    }
    1 => {
      let e = log_raw_fatal_error!(s, "two");
      check!(e.is_fatal());
      (1, 0)
    }
    2 => {
      log_raw_warning!(s, "three");
      (0, 1)
    }
    3 => {
      let e = log_error!(s, "four");
      check!(!e.is_fatal());
      (1, 0)
    }
    4 => {
      let e = log_fatal_error!(s, "five");
      check!(e.is_fatal());
      (1, 0)
    }
    5 => {
      log_warning!(s, "six");
      (0, 1)
    }
    6 => {
      check!(matches!(returns(s), Err(e) if !e.is_fatal()));
      (1, 0)
    }
    _ => {
      s.log_summary();
      (0, 0)
    }
  }
}

fn counts(s: &Span, want: (usize, usize)) {
  check!(s.error_num() == want.0);
  check!(s.warning_num() == want.1);
}

/// Every history of logging through spans of two sources.
#[no_mangle]
pub extern "C" fn c20_histories() {
  #[cfg(feature = "thorough")]
  let steps = 4;
  #[cfg(not(feature = "thorough"))]
  let steps = 3;
  let a = Span::new(FileType::Buffer);
  let b = Span::new(FileType::Stdin);
  // copies of both; the last ones come to an end at the other's end
  let sa = [a.clone(), a.clone().into_updated(&'x'), a.clone().into_end_updated(&b)];
  let sb = [b.clone(), b.clone().into_updated(&b'\n'), b.clone().into_end_updated(&a)];
  let (mut wa, mut wb) = ((0, 0), (0, 0));
  let mut drop_one = Some(a.clone());
  for i in 0..steps {
    let kind = sym::range(0, 7);
    let which = sym::range(0, 5);
    let (s, w) = if which < 3 { (&sa[which], &mut wa) } else { (&sb[which - 3], &mut wb) };
    let n = log(kind, s);
    w.0 += n.0;
    w.1 += n.1;
    if i == 1 {
      drop_one = None;
    }
    for s in &sa {
      counts(s, wa);
    }
    for s in &sb {
      counts(s, wb);
    }
  }
  check!(drop_one.is_none());
  counts(&a, wa);
  counts(&b, wb);
  counts(&a.clone().into_updated(&'\n'), wa);
  sym::observe((wa.0 * 1000 + wa.1 * 100 + wb.0 * 10 + wb.1) as u64);
  sym::cover((wa.0 > 0 && wb.1 > 0) as u32);
}

struct Sp(Span);
impl Spanned for Sp {
  fn span(&self) -> Span {
    self.0.clone()
  }
}

/// Ways of deriving a span from a span; each shares its counts.
fn derive(how: usize, s: &Span, other: &Span) -> Span {
  let mut t = s.clone();
  match how {
    0 => (),
    1 => t.update(&if sym::byte() == 0 { '\n' } else { 'x' }),
    2 => t = t.into_updated(&b'x'),
    3 => t.update_end(other),
    4 => t = t.into_end_updated(other),
    5 => t.update_loc(Location { line: 3, col: 12 }),
    6 => t = (Sp(t), Sp(other.clone())).span(),
    7 => t = Box::new((Sp(t), Sp(other.clone()), Sp(other.clone()))).span(),
    8 => t = vec![Sp(t), Sp(other.clone())].try_span().unwrap(),
    9 => t = Some(Sp(t)).try_span().unwrap(),
    _ => {
      t = laps::token::Token { kind: 'x', span: t }.span();
    }
  }
  t
}

/// Counts are shared by every kind of copy, of copies too, and with the
/// source itself while it is read.
#[no_mangle]
pub extern "C" fn c20_derived() {
  let a = Span::new(FileType::Stdin);
  let b = Span::new(FileType::Buffer);
  let h = sym::range(0, 10);
  let t = derive(h, &a, &b);
  let u = derive(sym::range(0, 10), &t, &b);
  let k = sym::range(0, 6);
  // through the last copy, or through the first with the others gone
  let (n, m) = if sym::range(0, 1) == 0 {
    let n = log(k, &u);
    counts(&t, n);
    (n, log(k, &a))
  } else {
    let n = log(k, &a);
    counts(&u, n);
    drop(a);
    (n, log(k, &t))
  };
  drop(t);
  counts(&u, (n.0 + m.0, n.1 + m.1));
  counts(&b, (0, 0));
  sym::observe((n.0 + 10 * n.1) as u64);
  sym::cover((n.0 == 1) as u32);
}

/// What the readers report is counted, too.
#[no_mangle]
pub extern "C" fn c20_reader() {
  let text = sym::vec(3);
  let mut r = Reader::new(&text[..], FileType::Buffer);
  let mut seen = vec![r.span().clone()];
  let mut errors = 0;
  for _ in 0..4 {
    match r.next_char_loc() {
      Ok((Some(_), _)) => {
        seen.push(r.span().clone());
        if sym::range(0, 2) == 1 {
          log(3, r.span());
          errors += 1;
        }
      }
      Ok((None, _)) => break,
      Err(_) => {
        errors += 1;
        check!(r.span().error_num() == errors);
        sym::cover(0);
        break;
      }
    }
  }
  for s in &seen {
    counts(s, (errors, 0));
  }
  check!(Span::new(FileType::Buffer).error_num() == 0);
  sym::cover(1);
  sym::observe(errors as u64);
}

fn number(v: &[u8], i: &mut usize) -> usize {
  let mut n = 0;
  let at = *i;
  while *i < v.len() && v[*i].is_ascii_digit() {
    n = n * 10 + (v[*i] - b'0') as usize;
    *i += 1;
  }
  check!(*i > at);
  n
}
fn word(v: &[u8], i: &mut usize, w: &[u8]) -> bool {
  if v[*i..].starts_with(w) {
    *i += w.len();
    true
  } else {
    false
  }
}

/// The summary states the totals (which it leaves out if nothing was logged).
#[cfg(feature = "logger")]
#[no_mangle]
pub extern "C" fn c20_summary() {
  colored::control::set_override(sym::range(0, 1) == 1);
  let a = Span::new(FileType::Buffer);
  let b = a.clone().into_updated(&'x');
  let (n, m) = (sym::range(0, 12), sym::range(0, 12));
  for i in 0..n {
    log(if i % 2 == 0 { 0 } else { 1 }, &b);
  }
  for _ in 0..m {
    log(2, &a);
  }
  sym::output();
  b.log_summary();
  let out = crate::out::plain(&sym::output());
  sym::observe(out.len() as u64);
  let mut i = 0;
  let (mut errors, mut warnings) = (0, 0);
  if n > 0 {
    errors = number(&out, &mut i);
    check!(word(&out, &mut i, if errors > 1 { b" errors" } else { b" error" }));
  }
  if n > 0 && m > 0 {
    check!(word(&out, &mut i, b" and "));
  }
  if m > 0 {
    warnings = number(&out, &mut i);
    check!(word(&out, &mut i, if warnings > 1 { b" warnings" } else { b" warning" }));
  }
  check!(word(&out, &mut i, b" emitted\n"));
  check!(i == out.len());
  check!(errors == n && warnings == m);
  counts(&a, (n, m));
  sym::cover(0);
}

/// Counts are exact too when threads log at the same time, however they
/// interleave.
#[no_mangle]
pub extern "C" fn c20_threads() {
  #[cfg(feature = "thorough")]
  let preempt = 3;
  #[cfg(not(feature = "thorough"))]
  let preempt = 2;
  let a = Span::new(FileType::Buffer);
  let kinds = [sym::range(0, 6), sym::range(0, 6)];
  let spans = [a.clone(), if sym::byte() == 0 { a.clone() } else { a.clone().into_updated(&'x') }];
  let reps = sym::reps();
  sym::threads(2, preempt, |i| {
    for _ in 0..reps {
      log(kinds[i], &spans[i]);
    }
  });
  let (n, m) = (once(kinds[0]), once(kinds[1]));
  counts(&a, ((n.0 + m.0) * reps, (n.1 + m.1) * reps));
  counts(&spans[1], ((n.0 + m.0) * reps, (n.1 + m.1) * reps));
  sym::observe((n.0 * 1000 + m.0 * 100 + n.1 * 10 + m.1) as u64);
  sym::cover((n.0 > 0 && m.0 > 0) as u32);
}

fn once(kind: usize) -> (usize, usize) {
  match kind {
    2 | 5 => (0, 1),
    _ => (1, 0),
  }
}
