//! C01: the language of a matcher.
use crate::reref::*;
use crate::sym;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};

#[cfg(not(feature = "thorough"))]
const LEN: usize = 3;
#[cfg(feature = "thorough")]
const LEN: usize = 4;

fn char_input(n: usize) -> (Vec<char>, Vec<u32>) {
  let cs = sym::chars(n);
  let us = cs.iter().map(|c| *c as u32).collect();
  (cs, us)
}

/// One expression, characters.
fn one_chars(re: &str, max: usize) {
  let hir = match parse(re, Mode::Chars) {
    Some(h) if supported(&h, Mode::Chars) => h,
    _ => return,
  };
  let m: CharsMatcher<usize> = match RegexBuilder::new().add(re, 0).enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let n = sym::range(0, max);
  let (cs, us) = char_input(n);
  let got = m.is_match(&cs).is_some();
  sym::observe(got as u64);
  check!(got as u32 == matches(&hir, Mode::Chars, &us));
  if n > 0 {
    sym::cover(got as u32);
  }
}

/// Expressions with up to three operators over two letters.
#[no_mangle]
pub extern "C" fn c01_small() {
  #[cfg(not(feature = "thorough"))]
  let re = gen(sym::range(0, 3), &["a", "b", "[ab]"], &["*", "+", "?"]);
  #[cfg(feature = "thorough")]
  let re = gen(sym::range(0, 4), &["a", "b"], &["*", "+", "?"]);
  one_chars(&re, LEN);
}

/// Unusual atoms and counted repetition.
#[no_mangle]
pub extern "C" fn c01_atoms() {
  let atoms = [
    "a", "é", "[a-c]", "[b-d]", "[^b]", ".", "(?i:k)", "()", "[a-cx-z]", r"\x{10FFFF}", r"[\x{D7FF}-\x{E000}]", "ab", "[^a]",
    r"[\x00-b]", r"[c-\x{10FFFF}]", r"(?s:.)", "(?:|a)", r"\n",
  ];
  #[cfg(not(feature = "thorough"))]
  let re = gen(sym::range(0, 1), &atoms, &["*", "+", "?", "{2}", "{0}", "{0,2}", "{1,2}", "{2,}", "{2,3}"]);
  #[cfg(feature = "thorough")]
  let re = gen(sym::range(0, 2), &atoms, &["*", "?", "{2}", "{0}", "{1,2}", "{2,}"]);
  one_chars(&re, 3);
}

/// Counted repetition of larger parts, nested repetition.
#[no_mangle]
pub extern "C" fn c01_counted() {
  let re = gen(sym::range(1, 2), &["a", "b", "ab", "[ab]", "(?:a|bc)"], &["*", "{2}", "{0,1}", "{1,3}", "{2,}", "{0,2}", "{3}"]);
  one_chars(&re, 4);
}

/// Bytes, including bytes that are not UTF-8.
#[no_mangle]
pub extern "C" fn c01_bytes() {
  let atoms = [r"(?-u:a)", r"(?-u:[a-c])", r"(?-u:[\x80-\xff])", r"(?-u:[^a])", "é", r"(?-u:\xff)", "ab", r"(?-u:[b-\xfe])", r"(?-u:\x00)"];
  #[cfg(not(feature = "thorough"))]
  let re = gen(sym::range(0, 1), &atoms, &["*", "+", "?", "{2}", "{1,2}"]);
  #[cfg(feature = "thorough")]
  let re = gen(sym::range(0, 2), &atoms, &["*", "+", "?", "{2}", "{1,2}"]);
  let hir = match parse(&re, Mode::Bytes) {
    Some(h) if supported(&h, Mode::Bytes) => h,
    _ => return,
  };
  let m: BytesMatcher<usize> = match RegexBuilder::new().add(&re, 0).enable_par(Some(false)).build_bytes() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let n = sym::range(0, 3);
  let bs = sym::vec(n);
  let us: Vec<u32> = bs.iter().map(|c| *c as u32).collect();
  let got = m.is_match(&bs).is_some();
  sym::observe(got as u64);
  check!(got as u32 == matches(&hir, Mode::Bytes, &us));
  if n > 0 {
    sym::cover(got as u32);
  }
}

/// Several expressions with overlapping classes: a match if one matches.
#[no_mangle]
pub extern "C" fn c01_sets() {
  let atoms = ["[a-e]", "[c-g]", "[e-i]", "[a-bd-f]", "[b-ce-h]", "[^d]", "d"];
  let n = sym::range(2, 3);
  let mut b = RegexBuilder::new();
  let mut hs = vec![];
  for k in 0..n {
    #[cfg(not(feature = "thorough"))]
    let ops = if k == 0 { sym::range(0, 1) } else { 0 };
    #[cfg(feature = "thorough")]
    let ops = if n == 2 { sym::range(0, 1) } else if k == 0 { sym::range(0, 1) } else { 0 };
    let re = gen(ops, &atoms, &["*", "{2}"]);
    hs.push((parse(&re, Mode::Chars).unwrap(), 0));
    b = b.add(&re, 0usize);
  }
  let m: CharsMatcher<usize> = match b.enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let (cs, us) = char_input(sym::range(0, 2));
  let got = m.is_match(&cs).is_some();
  sym::observe(got as u64);
  check!(got as u64 == best_tag(&hs, Mode::Chars, &us));
  sym::cover(got as u32);
}

/// Whole-text matching agrees with matching the text's characters or bytes.
#[no_mangle]
pub extern "C" fn c01_text() {
  let re = ["[a-é]+", "(?:a|é|\u{4f60})*", r"[^\x{800}]b", r"[\x{FFFF}-\x{10FFFF}]|a."][sym::range(0, 3)];
  let hir = parse(re, Mode::Chars).unwrap();
  let m: CharsMatcher<usize> = match RegexBuilder::new().add(re, 0).enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let s = sym::text(4);
  let us: Vec<u32> = s.chars().map(|c| c as u32).collect();
  let got = m.is_str_match(&s).is_some();
  sym::observe(got as u64);
  check!(got as u32 == matches(&hir, Mode::Chars, &us));
  let bre = ["(?:é)+|aa", r"(?:aa|\x{4f60})*"][sym::range(0, 1)];
  let hir = parse(bre, Mode::Bytes).unwrap();
  let m: BytesMatcher<usize> = match RegexBuilder::new().add(bre, 0).enable_par(Some(false)).build_bytes() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let us: Vec<u32> = s.bytes().map(|c| c as u32).collect();
  let g2 = m.is_str_match(&s).is_some();
  check!(g2 as u32 == matches(&hir, Mode::Bytes, &us));
  if s.len() > 1 {
    sym::cover(got as u32);
    sym::cover(2 + g2 as u32);
  }
}

/// Classes with arbitrary endpoints: the division into symbol sets.
#[no_mangle]
pub extern "C" fn c01_endpoints() {
  use laps_regex::{dfa::DFA, mir::Mir, nfa::NFA, table::StateTransTable};
  // endpoints in 0..=N (and the last one stands for 255): every order of up
  // to six endpoints, with and without gaps between neighbours
  #[cfg(not(feature = "thorough"))]
  const N: usize = 6;
  #[cfg(feature = "thorough")]
  const N: usize = 7;
  #[cfg(not(feature = "thorough"))]
  let shapes: [&[usize]; 3] = [&[1, 1], &[2], &[2, 1]];
  #[cfg(feature = "thorough")]
  let shapes: [&[usize]; 4] = [&[1, 1, 1], &[2, 1], &[1, 2], &[3], &[2, 2]];
  let counts = shapes[sym::range(0, shapes.len() - 1)];
  let mut classes: Vec<Vec<(u8, u8)>> = vec![];
  for n in counts {
    let mut c = vec![];
    for _ in 0..*n {
      let l = sym::range(0, N);
      let r = sym::range(l, N);
      let v = |e: usize| if e == N { 255 } else { e as u8 };
      c.push((v(l), v(r)));
    }
    classes.push(c);
  }
  let item = |c: &Vec<(u8, u8)>| Mir::<u8, usize>::Ranges(c.iter().map(|(l, r)| (*l, *r)).collect());
  let mir = Mir::Alter(classes.iter().enumerate().map(|(i, c)| (item(c), Some(i))).collect());
  let mir = match mir.optimize() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let t = StateTransTable::new(DFA::new(NFA::new(mir), Some(false)));
  let s = sym::byte();
  let got = match t.next_state(t.init_id(), &s).and_then(|n| t.is_final(n)) {
    Some(t) => *t as u64 + 1,
    None => 0,
  };
  sym::observe(got);
  let mut want = 0;
  for (i, c) in classes.iter().enumerate().rev() {
    let mut hit = false;
    for (l, r) in c {
      hit |= (s >= *l) & (s <= *r);
    }
    want = sym::ite(hit, i as u64 + 1, want);
  }
  check!(got == want);
  sym::cover((got > 0) as u32);
}

/// No transitions at all.
#[no_mangle]
pub extern "C" fn c01_empty() {
  let re = ["", "()", "(?:)*", "a{0}", "(?:|){3}"][sym::range(0, 4)];
  one_chars(re, 2);
}

/// Larger expressions, longer inputs.
#[no_mangle]
pub extern "C" fn c01_deep() {
  let res = [
    "(?:a|b)*a(?:a|b)(?:a|b)", "(?:ab|ba)*", "(?:(?:a|b)(?:a|b))*", "(?:a|b)*abb", "(?:b|a(?:ba*b)*a)*", "a*b*a*b?", "(?:aab?|ab)*b", "(?:a{2}b{1,2}){1,2}|ba{3}",
    "/\\*(?:[^*]|\\*+[^*/])*\\*+/", "(?:[ab]?[bc]?){2}[ac]", "(?:a(?:b(?:c|d)*|c)+)*", "(?:abc|abd|acd|bcd)+", "(?:a|ab|abc|bcaba)*", "(?:a*|b{2})*c|a{2,4}", "((a|b)c?)+|(?:cc)*",
    "[a-c]*[b-d][c-e]*", "(?:[a-c]x|[b-d]y|c)*", "a?a?a?aaa", "(?:(?:a+b){2}|c)+", "(?:ab*c|a[bc]d)*",
  ];
  let re = res[sym::range(0, res.len() - 1)];
  let hir = parse(re, Mode::Chars).unwrap();
  let hs = [(hir, 0usize)];
  let cs = classes(&hs, Mode::Chars, &[]);
  // about as many inputs for each expression
  #[cfg(not(feature = "thorough"))]
  let max = [0, 0, 7, 6, 5, 4, 4, 4, 4, 4, 4][cs.len().min(10)];
  #[cfg(feature = "thorough")]
  let max = [0, 0, 9, 8, 6, 6, 5, 5, 5, 5, 5][cs.len().min(10)];
  let m: CharsMatcher<usize> = match RegexBuilder::new().add(re, 0).enable_par(Some(false)).build() {
    Ok(m) => m,
    Err(_) => fail!(),
  };
  let (us, rs): (Vec<u32>, Vec<u32>) = (0..sym::range(0, max)).map(|_| symbol(&cs)).unzip();
  let input: Vec<char> = us.iter().map(|c| unsafe { char::from_u32_unchecked(*c) }).collect();
  let got = m.is_match(&input).is_some();
  sym::observe(got as u64);
  check!(got as u64 == best_tag(&hs, Mode::Chars, &rs));
  sym::cover(got as u32);
}

/// Many states in a row.
#[no_mangle]
pub extern "C" fn c01_long() {
  let build = |re: &str| -> CharsMatcher<usize> {
    // not the first one built
    let _: Result<CharsMatcher<usize>, _> = RegexBuilder::new().add("x?y", 0).enable_par(Some(false)).build();
    match RegexBuilder::new().add(re, 0).enable_par(Some(false)).build() {
      Ok(m) => m,
      Err(_) => fail!(),
    }
  };
  let got = if sym::range(0, 2) > 0 {
    // a count, and two arbitrary characters at the end
    let n = [9, 17, 33, 65][sym::range(0, 3)];
    let (re, tail) = [(format!("a{{{n}}}"), 0), (format!("a{{{n}}}[b-d]?"), 1), (format!("a{{{n},}}"), 2)][sym::range(0, 2)].clone();
    let m = build(&re);
    let k = sym::range(n - 3, n);
    let end = sym::chars(sym::range(0, 2));
    let mut input = vec!['a'; k];
    input.extend(&end);
    let mut ok = false;
    // all a, but the last one may be something else
    let mut all = true;
    for i in 0..=end.len() {
      let rest = end.len() - i;
      let here = match tail {
        0 => rest == 0 && k + i == n,
        1 => k + i == n && (rest == 0 || (rest == 1 && (end[i] >= 'b') & (end[i] <= 'd'))),
        _ => rest == 0 && k + i >= n,
      };
      ok |= all & here;
      if i < end.len() {
        all &= end[i] == 'a';
      }
    }
    let got = m.is_match(&input).is_some();
    check!(got == ok);
    got
  } else {
    // words, with an arbitrary character anywhere in one
    let words = ["abcdefghijklmnopqrstuvwxyz", "abababababababababababac", "abababababababababab", "zyxwvutsrqponmlkjihgfedcba", "abcdefghijklmnopqrstuvwxya", "ccdefghijklmnopqrstuvwxyz"];
    let m = build(&words.join("|"));
    let mut w: Vec<char> = words[sym::range(0, words.len() - 1)].chars().collect();
    let p = sym::range(0, w.len() - 1);
    w[p] = sym::any_char();
    let mut ok = false;
    for x in words {
      if x.len() == w.len() {
        let mut same = true;
        for (a, b) in x.chars().zip(&w) {
          same &= a == *b;
        }
        ok |= same;
      }
    }
    let got = m.is_match(&w).is_some();
    check!(got == ok);
    got
  };
  sym::observe(got as u64);
  sym::cover(got as u32);
}

/// Matchers built by several threads at the same time.
#[no_mangle]
pub extern "C" fn c01_threads() {
  #[cfg(not(feature = "thorough"))]
  let preempt = 1;
  #[cfg(feature = "thorough")]
  let preempt = 2;
  let res = ["a", "ab*", "a|b", "(?:a|bc)*", ""];
  let which = [sym::range(0, 4), sym::range(0, 4)];
  let slots = [std::sync::Mutex::new(None), std::sync::Mutex::new(None)];
  let reps = sym::reps();
  sym::threads(2, preempt, |i| {
    for _ in 0..reps {
      let re = res[which[i]];
      let m: CharsMatcher<usize> = match RegexBuilder::new().add(re, 0).enable_par(Some(false)).build() {
        Ok(m) => m,
        Err(_) => fail!(),
      };
      for s in ["", "a", "b", "ab", "abb", "bc", "bca", "c"] {
        let want = match which[i] {
          0 => s == "a",
          1 => s.starts_with('a') && s[1..].chars().all(|c| c == 'b'),
          2 => s == "a" || s == "b",
          3 => s.replace("bc", "").chars().all(|c| c == 'a'),
          _ => s.is_empty(),
        };
        check!(m.is_str_match(s).is_some() == want);
      }
      *slots[i].lock().unwrap() = Some(m);
    }
  });
  for i in 0..2 {
    let m = slots[i].lock().unwrap().take().unwrap();
    let hir = parse(res[which[i]], Mode::Chars).unwrap();
    let (cs, us) = char_input(sym::range(0, 2));
    let got = m.is_match(&cs).is_some();
    sym::observe(got as u64);
    check!(got as u32 == matches(&hir, Mode::Chars, &us));
    sym::cover(got as u32);
  }
}
