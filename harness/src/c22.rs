//! C22: all forms of a compiled set of expressions are the same automaton.
use crate::reref::*;
use crate::sym;
use laps_regex::dfa::DFA;
use laps_regex::fa::ClosureBuilder;
use laps_regex::mir::{Mir, MirBuilder, SymbolOp};
use laps_regex::nfa::NFA;
use laps_regex::re::{RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

/// What a symbol type needs here.
trait Sym: Copy + Ord + Hash + Eq + SymbolOp + Sync + Send + Debug {
  const MODE: Mode;
  fn code(self) -> u32;
  fn any() -> Self;
}
impl Sym for char {
  const MODE: Mode = Mode::Chars;
  fn code(self) -> u32 {
    self as u32
  }
  fn any() -> Self {
    sym::any_char()
  }
}
impl Sym for u8 {
  const MODE: Mode = Mode::Bytes;
  fn code(self) -> u32 {
    self as u32
  }
  fn any() -> Self {
    sym::byte()
  }
}

/// 0 - 1 if `b` is 1.
fn mask(b: bool) -> u128 {
  0u128.wrapping_sub(b as u128)
}
fn inside<S: Sym>(rs: &[(S, S)], c: S) -> bool {
  rs.iter().fold(false, |ok, (l, r)| ok | ((c.code() >= l.code()) & (c.code() <= r.code())))
}

/// The smallest number of states and of classes of symbols of any
/// deterministic automaton for the expressions (without a dead state).
fn smallest(hs: &[(regex_syntax::hir::Hir, usize)], mode: Mode) -> (usize, usize) {
  use regex_syntax::hir::{Class, Hir, HirKind};
  // one symbol of every class
  let reps: Vec<u32> = classes(hs, mode, &[]).iter().map(|c| c[0].0).collect();
  // a nondeterministic automaton over the representatives
  #[derive(Default)]
  struct N {
    eps: Vec<Vec<usize>>,
    edges: Vec<Vec<(usize, usize)>>,
  }
  impl N {
    fn state(&mut self) -> usize {
      self.eps.push(vec![]);
      self.edges.push(vec![]);
      self.eps.len() - 1
    }
    /// Adds `h` from state `s`, and returns where it ends.
    fn add(&mut self, h: &Hir, mode: Mode, reps: &[u32], s: usize) -> usize {
      match h.kind() {
        HirKind::Empty => s,
        HirKind::Look(_) => unreachable!(),
        HirKind::Literal(l) => {
          let lit: Vec<u32> = match mode {
            Mode::Chars => std::str::from_utf8(&l.0).unwrap().chars().map(|c| c as u32).collect(),
            Mode::Bytes => l.0.iter().map(|b| *b as u32).collect(),
          };
          let mut s = s;
          for c in lit {
            let e = self.state();
            for (k, r) in reps.iter().enumerate() {
              if *r == c {
                self.edges[s].push((k, e));
              }
            }
            s = e;
          }
          s
        }
        HirKind::Class(c) => {
          let rs: Vec<(u32, u32)> = match c {
            Class::Unicode(c) => c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
            Class::Bytes(c) => c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
          };
          let e = self.state();
          for (k, c) in reps.iter().enumerate() {
            if rs.iter().any(|(l, r)| l <= c && c <= r) {
              self.edges[s].push((k, e));
            }
          }
          e
        }
        HirKind::Capture(c) => self.add(&c.sub, mode, reps, s),
        HirKind::Concat(v) => v.iter().fold(s, |s, h| self.add(h, mode, reps, s)),
        HirKind::Alternation(v) => {
          let e = self.state();
          for h in v {
            let b = self.state();
            self.eps[s].push(b);
            let t = self.add(h, mode, reps, b);
            self.eps[t].push(e);
          }
          e
        }
        HirKind::Repetition(r) => {
          let mut s = s;
          for _ in 0..r.min {
            s = self.add(&r.sub, mode, reps, s);
          }
          let e = self.state();
          match r.max {
            None => {
              let b = self.state();
              self.eps[s].push(b);
              let t = self.add(&r.sub, mode, reps, b);
              self.eps[t].push(b);
              self.eps[b].push(e);
            }
            Some(max) => {
              self.eps[s].push(e);
              for _ in r.min..max {
                let b = self.state();
                self.eps[s].push(b);
                s = self.add(&r.sub, mode, reps, b);
                self.eps[s].push(e);
              }
            }
          }
          e
        }
      }
    }
    fn close(&self, mut todo: Vec<usize>) -> BTreeSet<usize> {
      let mut set: BTreeSet<usize> = todo.iter().copied().collect();
      while let Some(s) = todo.pop() {
        for e in &self.eps[s] {
          if set.insert(*e) {
            todo.push(*e);
          }
        }
      }
      set
    }
  }
  let mut n = N::default();
  let init = n.state();
  let mut ends = vec![];
  for (h, tag) in hs {
    let b = n.state();
    n.eps[init].push(b);
    ends.push((*tag, n.add(h, mode, &reps, b)));
  }
  // all sets of states
  let start = n.close(vec![init]);
  let mut ids = BTreeMap::from([(start.clone(), 0)]);
  let mut sets = vec![start];
  let mut next: Vec<Vec<Option<usize>>> = vec![];
  while next.len() < sets.len() {
    let cur = sets[next.len()].clone();
    let mut row = vec![];
    for k in 0..reps.len() {
      let to: Vec<usize> = cur.iter().flat_map(|s| n.edges[*s].iter().filter(|e| e.0 == k).map(|e| e.1)).collect();
      row.push(if to.is_empty() {
        None
      } else {
        let set = n.close(to);
        let id = match ids.get(&set) {
          Some(id) => *id,
          None => {
            ids.insert(set.clone(), sets.len());
            sets.push(set);
            sets.len() - 1
          }
        };
        Some(id)
      });
    }
    next.push(row);
  }
  // told apart by their tags, then by where they lead
  let tag = |s: &BTreeSet<usize>| ends.iter().filter(|e| s.contains(&e.1)).map(|e| e.0 + 1).min().unwrap_or(0);
  let mut part: Vec<usize> = sets.iter().map(tag).collect();
  let mut count = part.iter().collect::<BTreeSet<_>>().len();
  loop {
    let mut keys: BTreeMap<(usize, Vec<Option<usize>>), usize> = BTreeMap::new();
    let mut new = vec![];
    for s in 0..sets.len() {
      let key = (part[s], next[s].iter().map(|t| t.map(|t| part[t])).collect());
      let fresh = keys.len();
      new.push(*keys.entry(key).or_insert(fresh));
    }
    part = new;
    if keys.len() == count {
      break;
    }
    count = keys.len();
  }
  let mut columns = BTreeSet::new();
  for k in 0..reps.len() {
    let column: BTreeMap<usize, usize> = (0..sets.len()).filter_map(|s| next[s][k].map(|t| (part[s], part[t]))).collect();
    if !column.is_empty() {
      columns.insert(column);
    }
  }
  (count, columns.len())
}

/// What the table's parts, read as documented, say of a symbol in a state.
fn by_hand<S: Sym>(t: &StateTransTable<S, usize>, id: usize, c: S) -> u64 {
  let n = t.num_states();
  let mut out = 0;
  for (r, (l, e)) in t.sym_map() {
    let next = t.table()[e * n + id];
    if next < n {
      let hit = (c.code() >= l.code()) & (c.code() <= r.code());
      out = sym::ite(hit, next as u64 + 1, out);
    }
  }
  out
}

fn table_of<S: Sym>(hs: &[(&str, usize)], mode: Mode) -> StateTransTable<S, usize>
where
  Mir<S, usize>: MirBuilder,
{
  let mut b = RegexBuilder::new();
  for (re, tag) in hs {
    b = b.add(re, *tag);
  }
  let b = b.enable_par(Some(false));
  let m: Result<RegexMatcher<S, usize>, _> = match mode {
    Mode::Chars => b.build(),
    Mode::Bytes => b.build_bytes(),
  };
  match m {
    Ok(m) => m.into(),
    Err(_) => fail!(),
  }
}

/// The table: its parts agree with its lookups, and it is the smallest one.
fn table<S: Sym>(res: &[(&str, usize)])
where
  Mir<S, usize>: MirBuilder,
{
  let mut hs = vec![];
  for (re, tag) in res {
    match parse(re, S::MODE) {
      Some(h) if supported(&h, S::MODE) => hs.push((h, *tag)),
      _ => return,
    }
  }
  let t = table_of::<S>(res, S::MODE);
  let n = t.num_states();
  let (states, equivs) = smallest(&hs, S::MODE);
  check!(n == states);
  check!(t.table().len() == n * equivs);
  check!(t.init_id() < n);
  // ranges in order, apart from each other, of all classes
  let mut last: Option<u32> = None;
  let mut used = vec![false; equivs];
  for (r, (l, e)) in t.sym_map() {
    check!(l <= r);
    check!(last.map_or(true, |x| x < l.code()));
    last = Some(r.code());
    check!(*e < equivs);
    used[*e] = true;
  }
  check!(used.iter().all(|u| *u));
  for (id, tag) in t.tags() {
    check!(*id < n);
    check!(res.iter().any(|r| r.1 == *tag));
  }
  // every state, every symbol
  let id = sym::range(0, n);
  let c = S::any();
  let got = t.next_state(id, &c).map_or(0, |s| s as u64 + 1);
  sym::observe(got);
  if id == n {
    check!(got == 0);
    check!(t.is_final(id).is_none());
    return;
  }
  check!(got == by_hand(&t, id, c));
  check!(t.is_final(id) == t.tags().get(&id));
  sym::cover((got != 0) as u32);
}

#[no_mangle]
pub extern "C" fn c22_table() {
  #[cfg(not(feature = "thorough"))]
  let ops = sym::range(0, 3);
  #[cfg(feature = "thorough")]
  let ops = sym::range(0, 4);
  let re = gen(ops, &["a", "b", "[ab]"], &["*", "?"]);
  table::<char>(&[(&re, 0)]);
}

const SETS: [&[(&str, usize)]; 18] = [
  &[("if", 0), ("[a-z]+", 1)],
  &[("[a-z]+", 0), ("if", 1)],
  &[("a", 0), ("a", 1)],
  &[("a", 3), ("b", 3), ("c", 2)],
  &[("(?:a|b)*abb", 0)],
  &[("a{2,3}", 0), ("a{3,4}", 1)],
  &[("[a-c]x|[b-d]x", 0), ("[c-e]y", 1)],
  &[("ab|cb|[^ac]b", 5)],
  &[(".", 0), (r"\n", 1)],
  &[("[0-9]+", 0), (r"[0-9]+\.[0-9]+", 1), (r"\.", 2)],
  &[("(?:a*b*)*", 0)],
  &[("(?:a|b)(?:a|b)(?:a|b)", 0), ("aaa", 1)],
  &[("", 0)],
  &[("", 1), ("a*", 0)],
  &[("é|ü|[α-ω]", 0), (r"[^\x00-\x7f]+", 1)],
  &[("abc|abd", 0), ("abe", 1)],
  &[("xa|ya", 0), ("xb|yb", 1), ("[xy]c", 0)],
  &[("a.c|b.c", 0), ("ab?c", 0)],
];

#[no_mangle]
pub extern "C" fn c22_sets() {
  let mut set = SETS[sym::range(0, SETS.len() - 1)].to_vec();
  if sym::range(0, 1) == 1 {
    set.reverse();
  }
  table::<char>(&set);
}

const BYTE_SETS: [&[(&str, usize)]; 6] = [
  &[("a", 0), ("é", 1)],
  &[(r"(?-u:[\x80-\xff])+", 0), (r"(?-u:\xff)", 1)],
  &[(r"(?-u:[^a])", 0), ("a", 0)],
  &[(r"(?-u:[\x00-\x7f])*", 0), (r"(?-u:[\x10-\x90])", 1)],
  &[(r"(?-u:[\x00-\xff]){2}", 0)],
  &[("ab|cd", 1), ("ad|cb", 0)],
];

#[no_mangle]
pub extern "C" fn c22_bytes() {
  table::<u8>(BYTE_SETS[sym::range(0, BYTE_SETS.len() - 1)]);
}

/// 1 + the smallest tag the automaton reaches on the input.
fn walk_nfa<S: Sym>(mir: Mir<S, usize>, s: &[S]) -> u64 {
  let (fa, tags) = NFA::new(mir).into_fa_tags();
  let mut index: HashMap<usize, usize> = HashMap::new();
  let mut ids: Vec<usize> = fa.states().keys().copied().collect();
  ids.sort();
  for (i, id) in ids.iter().enumerate() {
    index.insert(*id, i);
  }
  if ids.len() > 128 {
    fail!();
  }
  let close = |mut m: u128| loop {
    let mut new = m;
    for (i, id) in ids.iter().enumerate() {
      if m >> i & 1 == 1 {
        if let Some(to) = fa.state(*id).unwrap().outs().get(&None) {
          to.iter().for_each(|t| new |= 1 << index[t]);
        }
      }
    }
    if new == m {
      return m;
    }
    m = new;
  };
  // from each state by each set of symbols
  let mut edges = vec![];
  for (i, id) in ids.iter().enumerate() {
    for (rs, to) in fa.state(*id).unwrap().outs() {
      if let Some(rs) = rs {
        let m = to.iter().fold(0, |m, t| m | 1 << index[t]);
        edges.push((i, rs.clone(), close(m)));
      }
    }
  }
  let mut cur = close(1 << index[&fa.init_id()]);
  for c in s {
    let mut next = 0;
    for (i, rs, to) in &edges {
      next |= mask((cur >> i & 1 == 1) & inside(rs, *c)) & to;
    }
    cur = next;
  }
  let mut best = 0;
  let mut order: Vec<(usize, usize)> = tags.iter().map(|(id, t)| (*t, *id)).collect();
  order.sort();
  for (t, id) in order.into_iter().rev() {
    check!(fa.finals().contains(&id));
    best = sym::ite(cur >> index[&id] & 1 == 1, t as u64 + 1, best);
  }
  best
}

/// The same with the library's closures.
fn walk_closures<S: Sym>(mir: Mir<S, usize>, s: &[S]) -> u64 {
  let (fa, tags) = NFA::new(mir).into_fa_tags();
  let init = fa.init_id();
  let cb = ClosureBuilder::from(fa);
  let mut cached = HashMap::new();
  let mut cur = cb.epsilon_closure(&mut cached, [init]);
  let mut syms: Vec<_> = cb.symbol_set().into_iter().collect();
  syms.sort();
  for c in s {
    // sets of symbols are equal or apart
    let mut next = None;
    for rs in &syms {
      if inside(rs, *c) {
        next = Some(rs);
        break;
      }
    }
    match next {
      Some(rs) => cur = cb.state_closure(&mut cached, &cur, rs),
      None => return 0,
    }
  }
  tags.iter().filter(|(id, _)| cur.contains(id)).map(|(_, t)| *t as u64 + 1).min().unwrap_or(0)
}

fn walk_dfa<S: Sym>(mir: Mir<S, usize>, s: &[S]) -> u64 {
  let (fa, tags) = DFA::new(NFA::new(mir), Some(false)).into_fa_tags();
  let mut cur = Some(fa.init_id());
  for c in s {
    let mut next = None;
    if let Some(id) = cur {
      for (rs, to) in fa.state(id).unwrap().outs() {
        if inside(rs, *c) {
          // the only one
          check!(next.is_none());
          next = Some(*to);
          check!(fa.state(id).unwrap().next_state(rs) == Some(*to));
        }
      }
    }
    cur = next;
  }
  for id in fa.finals() {
    check!(tags.contains_key(id));
  }
  cur.and_then(|id| {
    check!(fa.finals().contains(&id) == tags.contains_key(&id));
    tags.get(&id).map(|t| *t as u64 + 1)
  })
  .unwrap_or(0)
}

fn walk_table<S: Sym>(t: &StateTransTable<S, usize>, s: &[S]) -> u64 {
  let mut id = t.init_id();
  for c in s {
    match t.next_state(id, c) {
      Some(n) => id = n,
      None => return 0,
    }
  }
  t.is_final(id).map_or(0, |t| *t as u64 + 1)
}

/// Which sets of symbols occur.
fn sets_of<S: Sym>(m: &Mir<S, usize>, out: &mut Vec<Vec<(S, S)>>) {
  match m {
    Mir::Empty => {}
    Mir::Ranges(rs) => out.push(rs.clone()),
    Mir::Concat(v) => v.iter().for_each(|m| sets_of(m, out)),
    Mir::Alter(v) => v.iter().for_each(|(m, _)| sets_of(m, out)),
    Mir::Kleene(m) => sets_of(m, out),
  }
}

/// All forms on one input; `which` of them, and the answer.
fn forms<S: Sym>(mir: &Mir<S, usize>, want: u64, s: &[S]) {
  // sets of symbols are equal or apart in an optimised expression
  let mut sets = vec![];
  sets_of(mir, &mut sets);
  sets.sort();
  sets.dedup();
  for (i, a) in sets.iter().enumerate() {
    for b in &sets[..i] {
      for (l, r) in a {
        check!(!b.iter().any(|(x, y)| x <= r && l <= y));
      }
    }
  }
  let got = match sym::range(0, 3) {
    0 => walk_nfa(mir.clone(), s),
    1 => walk_closures(mir.clone(), s),
    2 => walk_dfa(mir.clone(), s),
    _ => {
      let t = StateTransTable::from(DFA::from(NFA::from(mir.clone())));
      walk_table(&t, s)
    }
  };
  sym::observe(got);
  check!(got == want);
  sym::cover((got != 0) as u32);
}

fn all_forms<S: Sym>(res: &[(&str, usize)], max: usize)
where
  Mir<S, usize>: MirBuilder,
{
  let mut hs = vec![];
  let mut mirs = vec![];
  for (re, tag) in res {
    let h = match parse(re, S::MODE) {
      Some(h) if supported(&h, S::MODE) => h,
      _ => return,
    };
    match Mir::<S, usize>::new(h.clone()) {
      Ok(m) => mirs.push((m, Some(*tag))),
      Err(_) => fail!(),
    }
    hs.push((h, *tag));
  }
  let mir = match Mir::Alter(mirs).optimize() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let s: Vec<S> = (0..sym::range(0, max)).map(|_| S::any()).collect();
  let us: Vec<u32> = s.iter().map(|c| c.code()).collect();
  forms(&mir, best_tag(&hs, S::MODE, &us), &s);
}

#[no_mangle]
pub extern "C" fn c22_forms() {
  sym::cpus(1);
  let mut set = SETS[sym::range(0, SETS.len() - 1)].to_vec();
  if sym::range(0, 1) == 1 {
    set.reverse();
  }
  #[cfg(not(feature = "thorough"))]
  all_forms::<char>(&set, 3);
  #[cfg(feature = "thorough")]
  all_forms::<char>(&set, 4);
}

#[no_mangle]
pub extern "C" fn c22_forms_bytes() {
  sym::cpus(1);
  all_forms::<u8>(BYTE_SETS[sym::range(0, BYTE_SETS.len() - 1)], 3);
}

#[no_mangle]
pub extern "C" fn c22_forms_small() {
  sym::cpus(1);
  #[cfg(not(feature = "thorough"))]
  let re = gen(sym::range(0, 3), &["a", "[ab]"], &["*", "?"]);
  #[cfg(feature = "thorough")]
  let re = gen(sym::range(0, 4), &["a", "[ab]"], &["*"]);
  all_forms::<char>(&[(&re, 0)], 3);
}

/// Where an expression given directly ends.
fn ends<S: Sym>(m: &Mir<S, usize>, s: &[S], i: usize) -> u128 {
  match m {
    Mir::Empty => 1 << i,
    Mir::Ranges(rs) => {
      if i == s.len() {
        return 0;
      }
      mask(inside(rs, s[i])) & (1 << (i + 1))
    }
    Mir::Concat(v) => v.iter().fold(1 << i, |cur, m| then(m, s, cur)),
    Mir::Alter(v) => v.iter().fold(0, |out, (m, _)| out | ends(m, s, i)),
    Mir::Kleene(m) => {
      let mut cur = 1 << i;
      for _ in i..s.len() {
        cur |= then(m, s, cur);
      }
      cur
    }
  }
}
fn then<S: Sym>(m: &Mir<S, usize>, s: &[S], cur: u128) -> u128 {
  (0..=s.len()).fold(0, |out, j| out | mask(cur >> j & 1 == 1) & ends(m, s, j))
}

/// Ranges of bytes in any order, overlapping or not, with any endpoints
/// out of a few.
fn ranges() -> Vec<(u8, u8)> {
  #[cfg(not(feature = "thorough"))]
  let cuts = [0u8, 9, 10, 255];
  #[cfg(feature = "thorough")]
  let cuts = [0u8, 1, 9, 10, 200, 255];
  let n = sym::range(1, 2);
  (0..n)
    .map(|_| {
      let l = sym::range(0, cuts.len() - 1);
      (cuts[l], cuts[sym::range(l, cuts.len() - 1)])
    })
    .collect()
}

/// Expressions built directly, with ranges that are not normalised.
#[no_mangle]
pub extern "C" fn c22_direct() {
  sym::cpus(1);
  let a = Mir::Ranges(ranges());
  let b = Mir::Ranges(vec![(5u8, 20), (30, 30)]);
  let alts: Vec<(Mir<u8, usize>, Option<usize>)> = match sym::range(0, 5) {
    0 => vec![(a, Some(0)), (b, Some(1))],
    1 => vec![(b, Some(0)), (a, Some(1))],
    2 => vec![(Mir::Concat(vec![a.clone(), b.clone()]), Some(1)), (Mir::Concat(vec![b, a]), Some(0))],
    3 => vec![(Mir::Kleene(Box::new(Mir::Alter(vec![(a, None), (b, None)]))), Some(4))],
    4 => vec![(Mir::Alter(vec![(Mir::Empty, None), (a.clone(), None)]), Some(2)), (Mir::Concat(vec![Mir::Empty, b, Mir::Kleene(Box::new(Mir::Empty)), a]), Some(1))],
    _ => vec![(Mir::Alter(vec![(a, Some(1)), (b, None)]), None), (Mir::Empty, Some(3))],
  };
  let s: Vec<u8> = (0..sym::range(0, 2)).map(|_| sym::byte()).collect();
  // the tags, with those inside
  let mut tagged: Vec<(Mir<u8, usize>, usize)> = vec![];
  for (m, t) in &alts {
    match (t, m) {
      (Some(t), m) => tagged.push((m.clone(), *t)),
      (None, Mir::Alter(v)) => v.iter().for_each(|(m, t)| {
        if let Some(t) = t {
          tagged.push((m.clone(), *t))
        }
      }),
      _ => {}
    }
  }
  tagged.sort_by_key(|t| std::cmp::Reverse(t.1));
  let mut want = 0;
  for (m, t) in &tagged {
    want = sym::ite(ends(m, &s, 0) >> s.len() & 1 == 1, *t as u64 + 1, want);
  }
  let mir = match Mir::Alter(alts).optimize() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  forms(&mir, want, &s);
}

/// What matches nothing is an error.
#[no_mangle]
pub extern "C" fn c22_nothing() {
  let a = || Mir::<u8, usize>::Ranges(vec![(1, 2)]);
  let bad = || match sym::range(0, 2) {
    0 => Mir::Ranges(vec![]),
    1 => Mir::Concat(vec![]),
    _ => Mir::Alter(vec![]),
  };
  let m = match sym::range(0, 4) {
    0 => bad(),
    1 => Mir::Concat(vec![a(), bad()]),
    2 => Mir::Alter(vec![(a(), Some(0)), (bad(), Some(1))]),
    3 => Mir::Kleene(Box::new(bad())),
    _ => Mir::Alter(vec![(Mir::Concat(vec![bad(), a()]), Some(0))]),
  };
  check!(matches!(m.optimize(), Err(laps_regex::mir::Error::MatchesNothing)));
  sym::cover(0);
}
