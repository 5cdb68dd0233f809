import sys,subprocess
R=sys.argv[1]
edits=[
("src/token.rs",'''    let token = self.next_token()?;
    self.unread(token.clone());
    Ok(token)
  }

  /// Peeks the next 2''','''    self.next_token().map(|token| {
      let copy = token.clone();
      self.unread(copy);
      token
    })
  }

  /// Peeks the next 2'''),
("src/token.rs",'''    loop {
      let token = self.next_token()?;
      if f(&token) {
        self.unread(token);
        break Ok(());
      }
    }
''','''    let mut token = self.next_token()?;
    while !f(&token) {
      token = self.next_token()?;
    }
    self.unread(token);
    Ok(())
'''),
("src/token.rs",'''    if next == token {
      Ok(next)
    } else {
      let err''','''    let same = next == token;
    if same {
      Ok(next)
    } else {
      let err'''),
("src/token.rs",'''    while let Some(token) = self.buf.pop() {
      self.tokens.unread(token)
    }
''','''    let buf = std::mem::take(&mut self.buf);
    for token in buf.into_iter().rev() {
      self.tokens.unread(token);
    }
'''),
("src/reader.rs",'''        if let Some(c) = self.char_buf.pop() {
          let loc = self.span.start();
          self.span.update(&c);
          Ok((Some(c), loc))
        } else {
          self.next_char_loc_from_reader()
        }
''','''        let c = match self.char_buf.pop() {
          Some(c) => c,
          None => return self.next_char_loc_from_reader(),
        };
        let loc = self.span.start();
        self.span.update(&c);
        Ok((Some(c), loc))
'''),
("src/reader.rs",'''    if let Some(end) = end {
      self.byte_buf.copy_within(end..count, 0);
      self.byte_buf_offset = count - end;
    } else {
      self.byte_buf_offset = 0;
    }
''','''    self.byte_buf_offset = match end {
      Some(end) => {
        let rest = count - end;
        for i in 0..rest {
          self.byte_buf[i] = self.byte_buf[end + i];
        }
        rest
      }
      None => 0,
    };
'''),
("src/reader.rs",'''    // get the byte and fill the char buffer
    let b = buf[0];
    self.char_buf.extend(buf[1..count].iter().rev());
''','''    // fill the char buffer and get the byte
    for b in buf[..count].iter().rev() {
      self.char_buf.push(*b);
    }
    let b = self.char_buf.pop().unwrap();
'''),
("laps_regex/src/fa.rs",'''    let mut next_states = Closure::new();
    for id in states {
      if let Some(ids) = self.normal_edges.get(id).and_then(|st| st.outs().get(s)) {
        next_states.extend(ids);
      }
    }
    self.epsilon''','''    let next_states: Closure = states
      .iter()
      .filter_map(|id| self.normal_edges.get(id))
      .filter_map(|st| st.outs().get(s))
      .flatten()
      .copied()
      .collect();
    self.epsilon'''),
("laps_regex/src/fa.rs",'''    self
      .outs
      .iter()
      .find_map(|(s, id)| (s == sym).then_some(*id))
''','''    for (s, id) in &self.outs {
      if s == sym {
        return Some(*id);
      }
    }
    None
'''),
("laps_regex/src/fa.rs",'''  let mut id = next_state_id();
  let cur = *id;
  *id += 1;
  cur
''','''  let mut id = next_state_id();
  *id += 2;
  *id - 2
'''),
("laps_regex/src/dfa.rs",'''        if next.is_empty() {
          continue;
        }
        self.add_to_fa(cur_id, s.clone(), next);
      }
    }
    self
  }

  /// Consumes the current constructor, constructs a [`DFA`] using
  /// the powerset construction algorithm.
  ///
  /// This method runs in parallel.''','''        if !next.is_empty() {
          self.add_to_fa(cur_id, s.clone(), next);
        }
      }
    }
    self
  }

  /// Consumes the current constructor, constructs a [`DFA`] using
  /// the powerset construction algorithm.
  ///
  /// This method runs in parallel.'''),
("laps_regex/src/dfa.rs",'''    let mut nexts = Vec::new();
    let mut cached_epsilons = vec![cached; syms.len()];
''','''    let mut cached_epsilons: Vec<_> = syms.iter().map(|_| cached.clone()).collect();
'''),
("laps_regex/src/dfa.rs",'''      syms
        .par_iter()
        .zip(&mut cached_epsilons)
        .map(|(s, c)| self.cb.state_closure(c, &cur, s))
        .collect_into_vec(&mut nexts);
''','''      let mut nexts: Vec<_> = cached_epsilons
        .par_iter_mut()
        .enumerate()
        .map(|(i, c)| self.cb.state_closure(c, &cur, &syms[i]))
        .collect();
'''),
("laps_regex/src/dfa.rs",'''    let syms: Vec<_> = cb.symbol_set().into_iter().collect();
''','''    let mut syms: Vec<_> = Vec::new();
    for s in cb.symbol_set() {
      syms.push(s);
    }
'''),
("laps_regex/src/table.rs",'''    let equiv = match self.sym_map.range(s..).next() {
      Some((_, (l, id))) if s >= l => *id,
      _ => return None,
    };
''','''    let (_, (left, equiv)) = self.sym_map.range(s..).next()?;
    if left > s {
      return None;
    }
'''),
("laps_regex/src/table.rs",'''          let mut v = Vec::new();
          v.resize(num_states, num_states);
          v
''','''          vec![num_states; num_states]
'''),
("laps_regex/src/nfa.rs",'''      Mir::Concat(c) => c.into_iter().map(Self::new).reduce(Self::concat).unwrap(),
''','''      Mir::Concat(c) => {
        let mut iter = c.into_iter();
        let first = Self::new(iter.next().unwrap());
        iter.fold(first, |nfa, mir| Self::concat(nfa, Self::new(mir)))
      }
'''),
("laps_regex/src/re.rs",'''    let mut id = self.table.init_id();
    for s in seq {
      if let Some(next) = self.table.next_state(id, s) {
        id = next;
      } else {
        return None;
      }
    }
    self.table.is_final(id)
''','''    seq
      .iter()
      .try_fold(self.table.init_id(), |id, s| self.table.next_state(id, s))
      .and_then(|id| self.table.is_final(id))
'''),
("laps_regex/src/re.rs",'''    if let Some(next) = self.table.next_state(self.state, s) {
      self.state = next;
      true
    } else {
      false
    }
''','''    let next = self.table.next_state(self.state, s);
    self.state = next.unwrap_or(self.state);
    next.is_some()
'''),
("src/ast.rs",'''    let mut ts = Vec::new();
    while T::maybe(tokens)? {
      ts.push(tokens.parse()?);
      if !S::maybe(tokens)? {
        break;
      }
      S::parse(tokens)?;
    }
    Ok(Self(ts, PhantomData))
''','''    let mut ts = Vec::with_capacity(4);
    let mut more = T::maybe(tokens)?;
    while more {
      let t = tokens.parse()?;
      ts.push(t);
      more = S::maybe(tokens)?;
      if more {
        let _ = S::parse(tokens)?;
        more = T::maybe(tokens)?;
      }
    }
    Ok(Self(ts, PhantomData))
'''),
("src/ast.rs",'''    let span = self.0.first().unwrap().span();
    if self.0.len() == 1 {
      span
    } else {
      span.into_end_updated(self.0.last().unwrap().span())
    }
  }
}

/// A sequence of AST `T`, separated by AST `S`, ending''','''    let (first, last) = (&self.0[0], &self.0[self.0.len() - 1]);
    first.span().into_end_updated(last.span())
  }
}

/// A sequence of AST `T`, separated by AST `S`, ending'''),
("src/span.rs",'''    self.status.errors.fetch_add(1, Ordering::Relaxed);
    // print message to stderr
    eprintln!("{}: {args}", "error".bright_red());
    Error::Normal
''','''    let _ = self
      .status
      .errors
      .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| Some(n + 1));
    // print message to stderr
    let head = "error".bright_red();
    eprintln!("{head}: {args}");
    Error::Normal
'''),
("src/span.rs",'''    let mut count1 = 0;
    for _ in 0..col1 {
      count1 += match iter.next() {
        Some(n) => n,
        None => break,
      };
    }
    let mut count2 = count1;
    for _ in col1..col2 {
      count2 += match iter.next() {
        Some(n) => n,
        None => break,
      };
    }
''','''    let count1: usize = iter.by_ref().take(col1).sum();
    let count2 = count1 + iter.take(col2.saturating_sub(col1)).sum::<usize>();
'''),
("src/span.rs",'''    self.start.update(c);
    self.end = self.start;
''','''    let mut loc = self.start;
    loc.update(c);
    self.update_loc(loc);
'''),
("src/lexer.rs",'''  let mut s = String::new();
  loop {
    match parse_char_literal(&mut chars, '"') {
      ParseResult::Char(c) => s.push(c),
      ParseResult::Quote => break,
      ParseResult::Error => return None,
    }
  }
''','''  let mut text = String::with_capacity(s.len());
  let s = loop {
    match parse_char_literal(&mut chars, '"') {
      ParseResult::Char(c) => text.extend([c]),
      ParseResult::Quote => break text,
      ParseResult::Error => return None,
    }
  };
'''),
("src/lexer.rs",'''          .map(|(c1, c2)| (c1 * 16 + c2) as u8 as char);
''','''          .and_then(|(c1, c2)| char::from_u32((c1 << 4) | c2));
'''),
]
for f,a,b in edits:
    p=R+"/"+f; s=open(p).read()
    if s.count(a)<1: print("NO MATCH",f,a[:60]); continue
    open(p,"w").write(s.replace(a,b,1))
for f in subprocess.check_output(["git","-C",R,"ls-files"],text=True).split():
    if f.endswith(".rs") and (f.startswith("src/") or "/src/" in f):
        p=R+"/"+f; open(p,"a").write("// end of file\n")
