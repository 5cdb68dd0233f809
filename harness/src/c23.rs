//! C23: automata keep exactly what they are told; closures are exact.
use crate::sym;
use laps_regex::fa::{ClosureBuilder, DenseFA, MultiFA, State};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Edges = BTreeSet<(usize, Option<u8>, usize)>;

/// What an automaton should hold.
struct Model {
  states: Vec<usize>,
  finals: BTreeSet<usize>,
  edges: Edges,
}

fn pick(m: &Model) -> usize {
  m.states[sym::range(0, m.states.len() - 1)]
}

fn compare(fa: &MultiFA<Option<u8>>, m: &Model, stranger: usize) {
  check!(fa.init_id() == m.states[0]);
  let want: BTreeSet<usize> = m.states.iter().copied().collect();
  check!(want.len() == m.states.len());
  check!(fa.states().keys().copied().collect::<BTreeSet<_>>() == want);
  check!(fa.finals().iter().copied().collect::<BTreeSet<_>>() == m.finals);
  let one = if m.finals.len() == 1 { m.finals.iter().next().copied() } else { None };
  check!(fa.final_id() == one);
  let mut edges = Edges::new();
  for id in &m.states {
    match fa.state(*id) {
      Some(s) => {
        for (sym, to) in s.outs() {
          to.iter().for_each(|t| {
            edges.insert((*id, *sym, *t));
          });
        }
      }
      None => fail!(),
    }
  }
  check!(edges == m.edges);
  check!(fa.state(stranger).is_none());
}

/// Any edge out of a few.
fn edge(m: &Model) -> (usize, Option<u8>, usize) {
  let label = [None, Some(1), Some(2)][sym::range(0, 2)];
  (pick(m), label, pick(m))
}

#[no_mangle]
pub extern "C" fn c23_multi() {
  let mut fa: MultiFA<Option<u8>> = MultiFA::new();
  let mut other: MultiFA<Option<u8>> = if sym::range(0, 1) == 1 { MultiFA::default() } else { MultiFA::new() };
  let stranger = MultiFA::<Option<u8>>::new().init_id();
  let mut m = Model { states: vec![fa.init_id()], finals: BTreeSet::new(), edges: Edges::new() };
  let o = other.init_id();
  let of = other.add_final_state();
  other.init_mut().add(Some(1), of);
  other.state_mut(of).unwrap().add(None, o);
  if sym::range(0, 1) == 1 {
    other.set_final_state(o);
  }
  let ofinals: Vec<usize> = other.finals().iter().copied().collect();
  let mut other = Some(other);
  #[cfg(not(feature = "thorough"))]
  let steps = 3;
  #[cfg(feature = "thorough")]
  let steps = 4;
  for _ in 0..steps {
    match sym::range(0, 6) {
      0 => {
        let id = fa.add_state();
        m.states.push(id);
      }
      1 => {
        let id = fa.add_final_state();
        m.states.push(id);
        m.finals.insert(id);
      }
      2 => {
        let id = pick(&m);
        check!(fa.set_final_state(id));
        m.finals.insert(id);
        sym::cover(0);
      }
      3 => {
        let id = pick(&m);
        check!(fa.set_normal_state(id));
        m.finals.remove(&id);
      }
      4 => {
        check!(!fa.set_final_state(stranger));
        check!(!fa.set_normal_state(stranger));
      }
      5 => {
        let (from, s, to) = edge(&m);
        if from == m.states[0] && sym::range(0, 1) == 1 {
          fa.init_mut().add(s, to);
        } else {
          match fa.state_mut(from) {
            Some(st) => st.add(s, to),
            None => fail!(),
          }
        }
        m.edges.insert((from, s, to));
      }
      _ => {
        if let Some(other) = other.take() {
          fa.union(other);
          m.states.extend([o, of]);
          m.finals.extend(ofinals.iter().copied());
          m.edges.insert((o, Some(1), of));
          m.edges.insert((of, None, o));
          sym::cover(1);
        }
      }
    }
    compare(&fa, &m, stranger);
    check!(fa.init().outs().values().map(|t| t.len()).sum::<usize>() == m.edges.iter().filter(|e| e.0 == m.states[0]).count());
  }
  sym::observe(m.states.len() as u64);
}

/// The same for automata with one edge after the other, and any labels.
#[no_mangle]
pub extern "C" fn c23_history() {
  let mut fa: DenseFA<u32> = DenseFA::new();
  let stranger = DenseFA::<u32>::new().init_id();
  let mut states = vec![fa.init_id()];
  let mut finals = BTreeSet::new();
  let mut edges: BTreeMap<usize, Vec<(u32, usize)>> = BTreeMap::new();
  let mut other: DenseFA<u32> = DenseFA::default();
  let o = other.init_id();
  let of = other.add_final_state();
  let label = sym::any_u32();
  other.init_mut().add(label, of);
  let mut other = Some(other);
  #[cfg(not(feature = "thorough"))]
  let steps = 4;
  #[cfg(feature = "thorough")]
  let steps = 5;
  for _ in 0..steps {
    let at = |states: &Vec<usize>| states[sym::range(0, states.len() - 1)];
    match sym::range(0, 5) {
      0 => states.push(fa.add_state()),
      1 => {
        states.push(fa.add_final_state());
        finals.insert(states[states.len() - 1]);
      }
      2 => {
        let id = at(&states);
        check!(fa.set_final_state(id));
        finals.insert(id);
        check!(!fa.set_final_state(stranger));
      }
      3 => {
        let id = at(&states);
        check!(fa.set_normal_state(id));
        finals.remove(&id);
        check!(!fa.set_normal_state(stranger));
      }
      4 => {
        let (from, s, to) = (at(&states), sym::any_u32(), at(&states));
        if from == states[0] {
          fa.init_mut().add(s, to);
        } else {
          match fa.state_mut(from) {
            Some(st) => st.add(s, to),
            None => fail!(),
          }
        }
        edges.entry(from).or_default().push((s, to));
      }
      _ => {
        if let Some(other) = other.take() {
          fa.union(other);
          states.extend([o, of]);
          finals.insert(of);
          edges.entry(o).or_default().push((label, of));
          sym::cover(2);
        }
      }
    }
    check!(fa.init_id() == states[0]);
    check!(fa.states().len() == states.len());
    check!(fa.finals().iter().copied().collect::<BTreeSet<_>>() == finals);
    check!(fa.final_id() == if finals.len() == 1 { finals.iter().next().copied() } else { None });
    check!(fa.state(stranger).is_none());
  }
  // where any label leads
  let id = states[sym::range(0, states.len() - 1)];
  let st = match fa.state(id) {
    Some(st) => st,
    None => fail!(),
  };
  let empty = vec![];
  let want = edges.get(&id).unwrap_or(&empty);
  check!(st.outs().len() == want.len());
  for (a, b) in st.outs().iter().zip(want) {
    check!((a.0 == b.0) & (a.1 == b.1));
  }
  let c = sym::any_u32();
  let got = st.next_state(&c).map_or(0, |t| t as u64 + 1);
  let mut to = 0;
  for e in want.iter().rev() {
    to = sym::ite(e.0 == c, e.1 as u64 + 1, to);
  }
  check!(got == to);
  sym::observe(got);
  sym::cover((got != 0) as u32);
}

/// The states that can be reached by empty edges.
fn close(m: &Model, from: &BTreeSet<usize>) -> BTreeSet<usize> {
  let mut set = from.clone();
  loop {
    let new: BTreeSet<usize> = m.edges.iter().filter(|e| e.1.is_none() && set.contains(&e.0)).map(|e| e.2).collect();
    let n = set.len();
    set.extend(new);
    if set.len() == n {
      return set;
    }
  }
}

/// Closures of any graph of a few states, asked for several times.
#[no_mangle]
pub extern "C" fn c23_closures() {
  #[cfg(not(feature = "thorough"))]
  let (n, edges, queries, labels) = (3, 3, 2, 2);
  #[cfg(feature = "thorough")]
  let (n, edges, queries, labels) = (3, 4, 2, 3);
  let mut fa: MultiFA<Option<u8>> = MultiFA::new();
  let mut m = Model { states: vec![fa.init_id()], finals: BTreeSet::new(), edges: Edges::new() };
  while m.states.len() < n {
    m.states.push(fa.add_state());
  }
  let mut last = 0;
  for _ in 0..sym::range(0, edges) {
    // in order: the order in which edges are added does not matter
    let k = sym::range(last, n * n * labels - 1);
    last = k;
    let e = (m.states[k / (n * labels)], [None, Some(1), Some(2)][k % labels], m.states[k / labels % n]);
    fa.state_mut(e.0).unwrap().add(e.1, e.2);
    m.edges.insert(e);
  }
  let cb = ClosureBuilder::from(fa);
  let syms: BTreeSet<u8> = m.edges.iter().filter_map(|e| e.1).collect();
  check!(cb.symbol_set().into_iter().collect::<BTreeSet<_>>() == syms);
  let mut cached = HashMap::new();
  for _ in 0..queries {
    let bits = sym::range(0, (1 << n) - 1);
    let from: BTreeSet<usize> = (0..n).filter(|i| bits >> i & 1 == 1).map(|i| m.states[i]).collect();
    match sym::range(0, labels - 1) {
      0 => check!(cb.epsilon_closure(&mut cached, from.clone()) == close(&m, &from)),
      k => {
        let s = k as u8;
        let to: BTreeSet<usize> = m.edges.iter().filter(|e| e.1 == Some(s) && from.contains(&e.0)).map(|e| e.2).collect();
        let got = cb.state_closure(&mut cached, &from, &s);
        sym::cover((got.len() > 1) as u32);
        check!(got == close(&m, &to));
      }
    }
  }
}

/// Edges of a deterministic automaton: the first of a symbol counts.
#[no_mangle]
pub extern "C" fn c23_dense() {
  let mut fa: DenseFA<u8> = DenseFA::new();
  let mut ids = vec![fa.init_id()];
  ids.push(fa.add_state());
  ids.push(fa.add_final_state());
  check!(fa.final_id() == Some(ids[2]));
  let mut edges: Vec<(u8, usize)> = vec![];
  let at = sym::range(0, 2);
  for _ in 0..sym::range(0, 4) {
    let s = sym::byte();
    let to = ids[sym::range(0, 2)];
    fa.state_mut(ids[at]).unwrap().add(s, to);
    edges.push((s, to));
  }
  check!(fa.state(ids[at]).unwrap().outs() == &edges[..]);
  let c = sym::byte();
  let got = fa.state(ids[at]).unwrap().next_state(&c);
  let mut want = 0;
  for (s, to) in edges.iter().rev() {
    want = sym::ite(*s == c, *to as u64 + 1, want);
  }
  check!(got.map_or(0, |t| t as u64 + 1) == want);
  sym::observe(got.is_some() as u64);
  sym::cover(got.is_some() as u32);
}

/// What is dumped: the final states, and every edge with its label.
fn dumped(text: &[u8], finals: &BTreeSet<usize>, edges: &BTreeMap<(usize, usize), Vec<String>>) {
  let text = match std::str::from_utf8(text) {
    Ok(t) => t,
    Err(_) => fail!(),
  };
  let mut lines = text.lines();
  check!(lines.next() == Some("digraph finite_automaton {"));
  let mut got: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
  let mut marked: BTreeSet<usize> = BTreeSet::new();
  let mut doubled = false;
  let mut end = false;
  for l in lines {
    check!(!end);
    let l = l.trim();
    if l == "}" {
      end = true;
    } else if l.contains("shape = doublecircle") {
      doubled = true;
    } else if l.contains("shape = circle") {
      doubled = false;
    } else if let Some((from, rest)) = l.split_once(" -> ") {
      let (to, label) = match rest.split_once(" [label = \"") {
        Some(x) => x,
        None => fail!(),
      };
      let label = match label.strip_suffix("\"]") {
        Some(x) => x,
        None => fail!(),
      };
      got.entry((from.parse().unwrap(), to.parse().unwrap())).or_default().push(label.into());
    } else if doubled {
      for id in l.trim_end_matches(';').split_whitespace() {
        marked.insert(id.parse().unwrap());
      }
    }
  }
  check!(end);
  got.values_mut().for_each(|v| v.sort());
  check!(marked == *finals);
  check!(got == *edges);
}

#[no_mangle]
pub extern "C" fn c23_dump() {
  let mut edges: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
  let mut finals = BTreeSet::new();
  let mut out = vec![];
  let labels = [None, Some(7u8), Some(12)];
  if sym::range(0, 1) == 0 {
    let mut fa: MultiFA<Option<u8>> = MultiFA::new();
    let ids = [fa.init_id(), fa.add_state(), fa.add_state()];
    let mut seen = BTreeSet::new();
    for _ in 0..sym::range(0, 2) {
      let (f, s, t) = (ids[sym::range(0, 2)], labels[sym::range(0, 2)], ids[sym::range(0, 2)]);
      fa.state_mut(f).unwrap().add(s, t);
      if seen.insert((f, s, t)) {
        edges.entry((f, t)).or_default().push(format!("{s:?}"));
      }
    }
    for id in ids {
      if sym::range(0, 1) == 1 {
        fa.set_final_state(id);
        finals.insert(id);
      }
    }
    check!(fa.dump(&mut out).is_ok());
  } else {
    let mut fa: DenseFA<u8> = DenseFA::new();
    let ids = [fa.init_id(), fa.add_state(), fa.add_state()];
    for _ in 0..sym::range(0, 2) {
      let (f, s, t) = (ids[sym::range(0, 2)], [7u8, 12][sym::range(0, 1)], ids[sym::range(0, 2)]);
      fa.state_mut(f).unwrap().add(s, t);
      edges.entry((f, t)).or_default().push(format!("{s:?}"));
    }
    for id in ids {
      if sym::range(0, 1) == 1 {
        fa.set_final_state(id);
        finals.insert(id);
      }
    }
    check!(fa.dump(&mut out).is_ok());
  }
  edges.values_mut().for_each(|v| v.sort());
  dumped(&out, &finals, &edges);
  sym::cover(edges.is_empty() as u32);
}

/// The dumps of compiled expressions show their automata.
#[no_mangle]
pub extern "C" fn c23_dump_compiled() {
  use laps_regex::dfa::DFA;
  use laps_regex::mir::Mir;
  use laps_regex::nfa::NFA;
  let re = ["a", "ab|c", "(?:a|b)*", "[a-c]x?"][sym::range(0, 3)];
  let mir = || match Mir::<char, usize>::new(regex_syntax::parse(re).unwrap()) {
    Ok(m) => match Mir::Alter(vec![(m, Some(0))]).optimize() {
      Ok(m) => m,
      Err(_) => fail!(),
    },
    Err(_) => fail!(),
  };
  let mut edges: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
  let mut out = vec![];
  let finals;
  if sym::range(0, 1) == 0 {
    let nfa = NFA::new(mir());
    check!(nfa.dump(&mut out).is_ok());
    let (fa, _) = nfa.into_fa_tags();
    for (id, s) in fa.states() {
      for (rs, to) in s.outs() {
        to.iter().for_each(|t| edges.entry((*id, *t)).or_default().push(format!("{rs:?}")));
      }
    }
    finals = fa.finals().iter().copied().collect();
  } else {
    let dfa = DFA::new(NFA::new(mir()), Some(false));
    check!(dfa.dump(&mut out).is_ok());
    let (fa, _) = dfa.into_fa_tags();
    for (id, s) in fa.states() {
      for (rs, t) in s.outs() {
        edges.entry((*id, *t)).or_default().push(format!("{rs:?}"));
      }
    }
    finals = fa.finals().iter().copied().collect();
  }
  edges.values_mut().for_each(|v| v.sort());
  dumped(&out, &finals, &edges);
  sym::cover(0);
}

/// Writes a few bytes, then fails.
struct Full(usize);
impl std::io::Write for Full {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.0 == 0 {
      return Err(std::io::ErrorKind::StorageFull.into());
    }
    let n = b.len().min(self.0);
    self.0 -= n;
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

/// A writer that fails makes the dump fail.
#[no_mangle]
pub extern "C" fn c23_dump_fails() {
  let mut fa: MultiFA<u8> = MultiFA::new();
  let f = fa.add_final_state();
  fa.init_mut().add(1, f);
  let mut out = vec![];
  check!(fa.dump(&mut out).is_ok());
  let room = sym::range(0, out.len());
  check!(fa.dump(&mut Full(room)).is_ok() == (room == out.len()));
  sym::cover((room == out.len()) as u32);
}
