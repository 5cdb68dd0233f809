//! Takes the crate of the macros as it is now, without what makes it a crate
//! of macros: its functions become ordinary ones.
use std::{env, fs, path::Path};

fn main() {
  let dir = Path::new("/repo/laps_macros/src");
  println!("cargo:rerun-if-changed={}", dir.display());
  let text = fs::read_to_string(dir.join("lib.rs")).unwrap();
  let mut out = String::new();
  let b = text.as_bytes();
  let mut i = 0;
  // the derive whose function comes next, and the names of all of them
  let mut derive: Option<String> = None;
  let mut entries = String::new();
  while i < b.len() {
    let rest = &text[i..];
    if rest.starts_with("//") {
      i += rest.find('\n').unwrap_or(rest.len());
    } else if rest.starts_with("#[proc_macro") || rest.starts_with("#!") {
      if let Some(d) = rest.strip_prefix("#[proc_macro_derive(") {
        derive = Some(d[..d.find([',', ')']).unwrap()].trim().to_string());
      }
      // up to the bracket's end
      let mut depth = 0;
      loop {
        match b[i] {
          b'[' => depth += 1,
          b']' => depth -= 1,
          _ => {}
        }
        i += 1;
        if depth == 0 && b[i - 1] == b']' {
          break;
        }
      }
    } else if rest.starts_with("mod ") && (i == 0 || !b[i - 1].is_ascii_alphanumeric() && b[i - 1] != b'_') {
      let end = rest.find([';', '{']).unwrap();
      if rest.as_bytes()[end] == b';' {
        let name = rest[4..end].trim();
        let file = [format!("{name}.rs"), format!("{name}/mod.rs")].into_iter().map(|f| dir.join(f)).find(|f| f.exists()).unwrap();
        out += &format!("#[path = {file:?}] ");
      }
      out += "mod ";
      i += 4;
    } else if rest.starts_with("fn ") && derive.is_some() {
      let name = rest[3..rest.find(['(', '<']).unwrap()].trim();
      entries += &format!("pub use crate::{name} as {};\n", derive.take().unwrap());
      out += "fn ";
      i += 3;
    } else {
      let c = rest.chars().next().unwrap();
      out.push(c);
      i += c.len_utf8();
    }
  }
  out += &format!("\n#[allow(non_snake_case)]\npub mod derives {{\n{entries}}}\n");
  fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("macros.rs"), out).unwrap();
}
