//! Reading what was printed.
/// The text without colours.
pub fn plain(v: &[u8]) -> Vec<u8> {
  let mut out = vec![];
  let mut i = 0;
  while i < v.len() {
    if v[i] == 0x1b {
      while v[i] != b'm' {
        i += 1;
      }
      i += 1;
    } else {
      out.push(v[i]);
      i += 1;
    }
  }
  out
}
