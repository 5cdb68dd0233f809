//! The reference meaning of regular expressions, over `regex_syntax`'s HIR and
//! computed without branching on the (symbolic) input.
#![allow(dead_code)]
use crate::sym;
use regex_syntax::hir::{Class, Hir, HirKind};
use regex_syntax::ParserBuilder;
use std::collections::BTreeMap;

/// How text is parsed and what a symbol is.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
  Chars,
  Bytes,
}

pub fn parse(re: &str, mode: Mode) -> Option<Hir> {
  match mode {
    Mode::Chars => regex_syntax::parse(re).ok(),
    Mode::Bytes => ParserBuilder::new().utf8(false).build().parse(re).ok(),
  }
}

/// Is the expression a regular one that the mode can represent (and one in
/// which every part matches something)?
pub fn supported(h: &Hir, mode: Mode) -> bool {
  match h.kind() {
    HirKind::Empty => true,
    HirKind::Literal(l) => mode == Mode::Bytes || std::str::from_utf8(&l.0).is_ok(),
    HirKind::Class(Class::Unicode(c)) => mode == Mode::Chars && !c.ranges().is_empty(),
    HirKind::Class(Class::Bytes(c)) => !c.ranges().is_empty(),
    HirKind::Look(_) => false,
    HirKind::Repetition(r) => r.greedy && supported(&r.sub, mode),
    HirKind::Capture(c) => supported(&c.sub, mode),
    HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().all(|h| supported(h, mode)),
  }
}

fn within(c: u32, lo: u32, hi: u32) -> u32 {
  ((c >= lo) & (c <= hi)) as u32
}
fn spread(bit: u32) -> u32 {
  0u32.wrapping_sub(bit & 1)
}

/// What is known of the parts of an expression at each position of an input.
#[derive(Default)]
struct Memo {
  ends: BTreeMap<(usize, usize), u32>,
  live: BTreeMap<(usize, usize), u32>,
}
fn key(h: &Hir, i: usize) -> (usize, usize) {
  (h as *const Hir as usize, i)
}

/// The end positions (as a bit set) of matches of `h` that start at `i`.
fn ends(h: &Hir, mode: Mode, s: &[u32], i: usize, memo: &mut Memo) -> u32 {
  match h.kind() {
    HirKind::Empty | HirKind::Literal(_) | HirKind::Class(_) => return ends_of(h, mode, s, i, memo),
    _ => {}
  }
  if let Some(e) = memo.ends.get(&key(h, i)) {
    return *e;
  }
  let e = ends_of(h, mode, s, i, memo);
  memo.ends.insert(key(h, i), e);
  e
}
fn ends_of(h: &Hir, mode: Mode, s: &[u32], i: usize, memo: &mut Memo) -> u32 {
  let n = s.len();
  match h.kind() {
    HirKind::Empty => 1 << i,
    HirKind::Literal(l) => {
      let lit: Vec<u32> = match mode {
        Mode::Chars => std::str::from_utf8(&l.0).unwrap().chars().map(|c| c as u32).collect(),
        Mode::Bytes => l.0.iter().map(|b| *b as u32).collect(),
      };
      if i + lit.len() > n {
        return 0;
      }
      let mut ok = 1;
      for (k, c) in lit.iter().enumerate() {
        ok &= (s[i + k] == *c) as u32;
      }
      ok << (i + lit.len())
    }
    HirKind::Class(c) => {
      if i >= n {
        return 0;
      }
      let mut ok = 0;
      match c {
        Class::Unicode(c) => {
          for r in c.ranges() {
            ok |= within(s[i], r.start() as u32, r.end() as u32);
          }
        }
        Class::Bytes(c) => {
          for r in c.ranges() {
            ok |= within(s[i], r.start() as u32, r.end() as u32);
          }
        }
      }
      ok << (i + 1)
    }
    HirKind::Look(_) => unreachable!(),
    HirKind::Capture(c) => ends(&c.sub, mode, s, i, memo),
    HirKind::Concat(v) => {
      let mut cur = 1 << i;
      for h in v {
        cur = step(h, mode, s, cur, i, memo);
      }
      cur
    }
    HirKind::Alternation(v) => v.iter().fold(0, |m, h| m | ends(h, mode, s, i, memo)),
    HirKind::Repetition(r) => {
      let last = r.max.unwrap_or(u32::MAX).min(r.min + n as u32 + 1);
      let mut cur = 1 << i;
      let mut out = 0;
      for k in 0..=last {
        if k >= r.min {
          out |= cur;
        }
        if k < last {
          cur = step(&r.sub, mode, s, cur, i, memo);
        }
      }
      out
    }
  }
}
/// One `h` after any of the positions `from` on of `cur`.
fn step(h: &Hir, mode: Mode, s: &[u32], cur: u32, from: usize, memo: &mut Memo) -> u32 {
  let mut m = 0;
  for j in from..=s.len() {
    m |= spread(cur >> j) & ends(h, mode, s, j, memo);
  }
  m
}

/// 1 if the whole input matches.
pub fn matches(h: &Hir, mode: Mode, s: &[u32]) -> u32 {
  ends(h, mode, s, 0, &mut Memo::default()) >> s.len() & 1
}

/// 1 if the input from `i` on is a prefix of something `h` matches
/// (every part of `h` matches something).
pub fn live(h: &Hir, mode: Mode, s: &[u32], i: usize) -> u32 {
  live_at(h, mode, s, i, &mut Memo::default())
}
fn live_at(h: &Hir, mode: Mode, s: &[u32], i: usize, memo: &mut Memo) -> u32 {
  if let Some(e) = memo.live.get(&key(h, i)) {
    return *e;
  }
  let e = live_of(h, mode, s, i, memo);
  memo.live.insert(key(h, i), e);
  e
}
fn live_of(h: &Hir, mode: Mode, s: &[u32], i: usize, memo: &mut Memo) -> u32 {
  let n = s.len();
  if i == n {
    return 1;
  }
  match h.kind() {
    HirKind::Empty => 0,
    HirKind::Literal(l) => {
      let lit: Vec<u32> = match mode {
        Mode::Chars => std::str::from_utf8(&l.0).unwrap().chars().map(|c| c as u32).collect(),
        Mode::Bytes => l.0.iter().map(|b| *b as u32).collect(),
      };
      if n - i > lit.len() {
        return 0;
      }
      let mut ok = 1;
      for k in 0..n - i {
        ok &= (s[i + k] == lit[k]) as u32;
      }
      ok
    }
    HirKind::Class(_) => {
      if i + 1 == n {
        ends(h, mode, s, i, memo) >> n & 1
      } else {
        0
      }
    }
    HirKind::Look(_) => unreachable!(),
    HirKind::Capture(c) => live_at(&c.sub, mode, s, i, memo),
    HirKind::Alternation(v) => v.iter().fold(0, |m, h| m | live_at(h, mode, s, i, memo)),
    HirKind::Concat(v) => {
      let mut cur = 1u32 << i;
      let mut out = 0;
      for h in v {
        out |= live_from(h, mode, s, cur, i, memo);
        cur = step(h, mode, s, cur, i, memo);
      }
      out | cur >> n & 1
    }
    HirKind::Repetition(r) => {
      let last = r.max.unwrap_or(u32::MAX).min(r.min + n as u32 + 1);
      let mut cur = 1u32 << i;
      let mut out = 0;
      for k in 0..=last {
        out |= cur >> n & 1;
        if k < last {
          out |= live_from(&r.sub, mode, s, cur, i, memo);
          cur = step(&r.sub, mode, s, cur, i, memo);
        }
      }
      out
    }
  }
}
fn live_from(h: &Hir, mode: Mode, s: &[u32], cur: u32, from: usize, memo: &mut Memo) -> u32 {
  let mut m = 0;
  for j in from..=s.len() {
    m |= (cur >> j & 1) & live_at(h, mode, s, j, memo);
  }
  m
}

/// 1 + the smallest tag of the matching expressions, 0 if none matches.
pub fn best_tag(hs: &[(Hir, usize)], mode: Mode, s: &[u32]) -> u64 {
  let mut order: Vec<&(Hir, usize)> = hs.iter().collect();
  order.sort_by_key(|h| std::cmp::Reverse(h.1));
  let mut best = 0;
  for (h, tag) in order {
    best = sym::ite(matches(h, mode, s) == 1, *tag as u64 + 1, best);
  }
  best
}

/// A regular expression over the given atoms with exactly `ops` operators,
/// one path per expression.
pub fn gen(ops: usize, atoms: &[&str], unary: &[&str]) -> String {
  if ops == 0 {
    return atoms[sym::range(0, atoms.len() - 1)].into();
  }
  // the number of operators on the left of a binary operator
  let k = sym::range(0, unary.len() + 2 * ops - 1);
  if k < unary.len() {
    return format!("(?:{}){}", gen(ops - 1, atoms, unary), unary[k]);
  }
  let k = k - unary.len();
  let (l, alt) = (k / 2, k % 2 == 1);
  let a = gen(l, atoms, unary);
  let b = gen(ops - 1 - l, atoms, unary);
  if alt {
    format!("(?:{a}|{b})")
  } else {
    format!("{a}{b}")
  }
}

/// The sets of symbols the expression tells apart.
fn sets(h: &Hir, mode: Mode, out: &mut Vec<Vec<(u32, u32)>>) {
  match h.kind() {
    HirKind::Literal(l) => {
      let lit: Vec<u32> = match mode {
        Mode::Chars => std::str::from_utf8(&l.0).unwrap().chars().map(|c| c as u32).collect(),
        Mode::Bytes => l.0.iter().map(|b| *b as u32).collect(),
      };
      out.extend(lit.into_iter().map(|c| vec![(c, c)]));
    }
    HirKind::Class(Class::Unicode(c)) => out.push(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect()),
    HirKind::Class(Class::Bytes(c)) => out.push(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect()),
    HirKind::Capture(c) => sets(&c.sub, mode, out),
    HirKind::Repetition(r) => sets(&r.sub, mode, out),
    HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().for_each(|h| sets(h, mode, out)),
    _ => {}
  }
}

/// Symbols that no expression tells apart, as unions of intervals.
pub fn classes(hs: &[(Hir, usize)], mode: Mode, extra: &[u32]) -> Vec<Vec<(u32, u32)>> {
  let mut ss: Vec<Vec<(u32, u32)>> = extra.iter().map(|c| vec![(*c, *c)]).collect();
  for (h, _) in hs {
    sets(h, mode, &mut ss);
  }
  ss.sort();
  ss.dedup();
  let end = match mode {
    Mode::Chars => 0x110000,
    Mode::Bytes => 0x100,
  };
  let mut cuts = vec![0];
  for (l, r) in ss.iter().flatten() {
    cuts.push(*l);
    cuts.push(*r + 1);
  }
  if mode == Mode::Chars {
    cuts.extend([0xd800, 0xe000]);
  }
  cuts.retain(|c| *c < end);
  cuts.sort();
  cuts.dedup();
  let mut groups: Vec<(Vec<bool>, Vec<(u32, u32)>)> = vec![];
  for (i, c) in cuts.iter().enumerate() {
    if mode == Mode::Chars && *c == 0xd800 {
      continue;
    }
    let last = cuts.get(i + 1).copied().unwrap_or(end) - 1;
    let sig: Vec<bool> = ss.iter().map(|s| s.iter().any(|(l, r)| l <= c && c <= r)).collect();
    match groups.iter_mut().find(|g| g.0 == sig) {
      Some(g) => g.1.push((*c, last)),
      None => groups.push((sig, vec![(*c, last)])),
    }
  }
  groups.into_iter().map(|g| g.1).collect()
}

/// An arbitrary symbol of one of the classes (one path per class), and a
/// symbol that stands for it.
pub fn symbol(cs: &[Vec<(u32, u32)>]) -> (u32, u32) {
  let k = &cs[sym::range(0, cs.len() - 1)];
  let c = sym::any_u32();
  // one interval for the solver to start with
  sym::assume((c >= k[0].0) & (c <= k[k.len() - 1].1));
  let mut ok = false;
  for (l, r) in k {
    ok |= (c >= *l) & (c <= *r);
  }
  sym::assume(ok);
  (c, k[0].0)
}
