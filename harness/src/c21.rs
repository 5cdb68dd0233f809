//! C21: rendering a diagnostic shows the spanned source text and never
//! panics.
#![allow(unused_imports, dead_code)]
use crate::sym;
use laps::input::InputStream;
use laps::reader::Reader;
use laps::span::{Error, FileType, Location, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning};
use std::path::Path;

#[cfg(feature = "logger")]
mod rendered;

fn loc(l: usize, c: usize) -> Location {
  Location { line: l as u32, col: c as u32 }
}

/// Without the logger, errors carry the message.
#[cfg(not(feature = "logger"))]
#[no_mangle]
pub extern "C" fn c21_message() {
  let (t, name) = match sym::range(0, 2) {
    0 => (FileType::Buffer, "<buffer>"),
    1 => (FileType::Stdin, "<stdin>"),
    _ => (FileType::File(Box::from(Path::new("dir/none"))), "dir/none"),
  };
  let mut span = Span::new(t);
  let (l, c) = (sym::range(0, 12), sym::range(0, 12));
  span.update_loc(loc(l, c));
  let mut end = span.clone();
  end.update_loc(loc(13, 14));
  span.update_end(&end);
  let msg = sym::ascii(sym::range(0, 3));
  let at = format!("{name}:{l}:{c}: {msg}!");
  match sym::range(0, 3) {
    0 => check!(log_error!(span, "{msg}!") == Error::Normal(at)),
    1 => check!(log_fatal_error!(span, "{msg}!") == Error::Fatal(at)),
    2 => check!(log_raw_error!(span, "{msg}!") == Error::Normal(format!("{msg}!"))),
    _ => check!(log_raw_fatal_error!(span, "{msg}!") == Error::Fatal(format!("{msg}!"))),
  }
  log_warning!(span, "{msg}");
  log_raw_warning!(span, "{msg}");
  check!(span.error_num() == 1 && span.warning_num() == 2);
  sym::observe(l as u64);
  sym::cover(0);
}
