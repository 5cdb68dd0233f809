From 0dd4471309dd4c71cb7df9617f91efa7eb95e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 01/20] fix: accept the minimum value of signed integers in
 signed_int_literal

---
 src/lexer.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..c370a8e 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -99,6 +99,15 @@ pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
+  let (digits, radix) = int_digits(s)?;
+  // convert to integer
+  T::from_str_radix(digits, radix).ok()
+}
+
+/// Splits the given integer literal (without sign) into digits and radix.
+///
+/// Returns [`None`] if it is not a valid integer literal.
+fn int_digits(s: &str) -> Option<(&str, u32)> {
   // check if is a valid integer literal
   let mut chars = s.chars();
   let (radix, starts_from) = match (chars.next(), chars.next()) {
@@ -118,8 +127,7 @@ where
   if !chars.all(|c| c.is_digit(radix)) {
     return None;
   }
-  // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  Some((&s[starts_from..], radix))
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -147,11 +155,17 @@ pub fn signed_int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
-  let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
-  } else {
-    int_literal(s)
+  match s.chars().next()? {
+    '+' => int_literal(&s[1..]),
+    '-' => {
+      let (digits, radix) = int_digits(&s[1..])?;
+      // parse with the sign first, since the magnitude of the minimum value
+      // of a signed integer can not be represented
+      T::from_str_radix(&format!("-{digits}"), radix)
+        .or_else(|_| T::from_str_radix(digits, radix).map(T::wrapping_neg))
+        .ok()
+    }
+    _ => int_literal(s),
   }
 }
 
-- 
2.43.0


From ea2032b76b4c6f4d946cf446a3f41f78742d6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 02/20] fix: reject Unicode escapes without digits in string
 and character literals

---
 src/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index c370a8e..756f7d3 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -337,8 +337,11 @@ where
         if iter.next() != Some('{') {
           return ParseResult::Error;
         }
-        // get hex value
-        let mut hex = 0u32;
+        // get hex value, which must have at least one digit
+        let mut hex = match iter.next().and_then(|c| c.to_digit(16)) {
+          Some(h) => h,
+          None => return ParseResult::Error,
+        };
         for c in iter {
           match c.to_digit(16) {
             Some(h) => match hex.checked_mul(16) {
-- 
2.43.0


From 3de6b33bf3512abad9a2fa3a889a00f9179b3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 03/20] fix: keep edges of a kleene closure out of the
 surrounding expression

---
 laps_regex/src/nfa.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..eca1881 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -51,12 +51,20 @@ where
         // create NFA and normalize
         let mut nfa = Self::new(*k);
         let id = nfa.normalize();
-        // create a edge to the initial state
+        // create new initial and final states, so that the initial state has
+        // no incoming edges, and the final state has no outgoing edges
+        let mut kleene = Self::new_nfa_with_symbol(None);
+        let fs = kleene.fa.final_id().unwrap();
+        // create edges to the original initial state and the final state
         let init = nfa.fa.init_id();
-        nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
-        nfa
+        kleene.fa.init_mut().add(None, init);
+        let end = nfa.fa.state_mut(id).unwrap();
+        end.add(None, init);
+        end.add(None, fs);
+        // union states and tags of two NFAs
+        kleene.fa.union(nfa.fa);
+        kleene.tags.extend(nfa.tags);
+        kleene
       }
     }
   }
-- 
2.43.0


From c9c1fa15f7a49ce50cccf374b95e46dd315ef878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 04/20] fix: keep all tags of duplicate expressions when
 optimizing alternations

---
 laps_regex/src/mir.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..969b153 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,26 +351,20 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
     // optimize all sub-expressions, flatten nested alternations
-    // and remove duplicate expressions
+    // and remove duplicate expressions that have the same tag
     let mut new_a = Vec::new();
     let mut set = HashSet::new();
-    for (e, _) in a {
-      // get the tag of the current expresson
-      let t = tagged_exps.get(&e).cloned();
+    for (e, t) in a {
       // optimize, and handle by kind
       match e.opt_without_rebuild()? {
         Self::Alter(a) => new_a.extend(
           a.into_iter()
-            .filter_map(|(e, inner_t)| set.insert(e.clone()).then(|| (e, t.clone().or(inner_t)))),
+            .map(|(e, inner_t)| (e, t.clone().or(inner_t)))
+            .filter(|e| set.insert(e.clone())),
         ),
         e => {
-          if set.insert(e.clone()) {
+          if set.insert((e.clone(), t.clone())) {
             new_a.push((e, t));
           }
         }
-- 
2.43.0


From 10f5685a4bb4b712e5bfdef8e530b8018e898bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 05/20] fix: correct the last symbol of char in SymbolOp::next

---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 969b153..43dd0d7 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -557,7 +557,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From cc5644551f082cc03eb3b2ec49a2482c4c4465da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 06/20] fix: build state-transition tables of automata without
 transitions

---
 laps_regex/src/table.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..72518c8 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -34,9 +34,10 @@ impl<S, T> StateTransTable<S, T> {
   where
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
-    let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
+    let temp = TempTable::new(dfa);
     // get number of states
-    let num_states = trans_table[0].len();
+    let num_states = temp.num_states;
+    let (equivs, trans_table, init_id, tags) = temp.into_optimized();
     // get the final table
     let table = trans_table
       .into_iter()
@@ -139,6 +140,7 @@ struct TempTable<S, T> {
   table: HashMap<Vec<(S, S)>, Vec<usize>>,
   tags: HashMap<usize, T>,
   init_id: usize,
+  num_states: usize,
 }
 
 impl<S, T> TempTable<S, T> {
@@ -176,6 +178,7 @@ impl<S, T> TempTable<S, T> {
       table,
       tags,
       init_id: ids[&fa.init_id()],
+      num_states,
     }
   }
 
-- 
2.43.0


From 81db894e07037dec2bc8154893485b4790c70f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 07/20] fix: do not overflow in SymbolOp of u8 at its first and
 last symbols

---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 43dd0d7..c084d77 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -565,10 +565,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    (*self != u8::MIN).then(|| self - 1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    (*self != u8::MAX).then(|| self + 1)
   }
 }
-- 
2.43.0


From 4b8b6a700c737313a9917aed06c09237f73f295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 08/20] fix: read the rest of characters that are split between
 two reads

---
 src/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..1fb0498 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -71,13 +71,13 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
       return Ok((None, loc));
     }
     // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
+    let (s, end, incomplete) = match from_utf8(&self.byte_buf[..count]) {
+      Ok(s) => (s, None, false),
       Err(e) => {
         let end = e.valid_up_to();
         // safe due to the above check
         let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+        (s, Some(end), e.error_len().is_none())
       }
     };
     // get the character and fill the char buffer
@@ -85,6 +85,10 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
     let c = if let Some(c) = chars.next() {
       self.char_buf.extend(chars.rev());
       c
+    } else if incomplete && count > self.byte_buf_offset {
+      // only a part of a character has been read, read the rest of it
+      self.byte_buf_offset = count;
+      return self.next_char_loc_from_reader();
     } else {
       return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into();
     };
-- 
2.43.0


From 060facd4198198ba4ef68010d5f05c87316d1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:04 +0000
Subject: [PATCH 09/20] fix: ask the predicate once per character in
 collect_with_span_until

---
 src/input.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 4a6521b..1aeb4f0 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -135,7 +135,11 @@ pub trait InputStream {
   {
     let mut v = Vec::new();
     let mut span = match self.peek_with_span()? {
-      (Some(c), span) if !f(&c) => span,
+      (Some(c), span) if !f(&c) => {
+        v.push(c);
+        self.next_char()?;
+        span
+      }
       (_, span) => return Ok((v, span)),
     };
     while let Some(c) = self.peek()? {
-- 
2.43.0


From 89318129714f6ff847b35ac3f91a1cae9f2e58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 10/20] fix: keep invalid bytes in the buffer of Reader after
 reporting them

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 1fb0498..644719b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,6 +90,8 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
       self.byte_buf_offset = count;
       return self.next_char_loc_from_reader();
     } else {
+      // keep the invalid bytes, so reading again does not skip them
+      self.byte_buf_offset = count;
       return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into();
     };
     // update byte buffer and its offset
-- 
2.43.0


From 5e4bd83b58d8c13b8488d22eb7555e43863948b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 11/20] fix: unread the prefix when the maybe method behind a
 token prefix fails

---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
-- 
2.43.0


From 2a0d54973f680d961309b638936eb211909a79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 12/20] fix: keep tokens when peeking several tokens fails

---
 src/token.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index afc387a..9efb99f 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,10 +157,12 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
-    self.unread(token2.clone());
+    let token2 = self.next_token();
+    if let Ok(token2) = &token2 {
+      self.unread(token2.clone());
+    }
     self.unread(token1.clone());
-    Ok((token1, token2))
+    Ok((token1, token2?))
   }
 
   /// Peeks the next N tokens from the token stream.
@@ -170,11 +172,10 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let result = (0..n).try_for_each(|_| self.next_token().map(|t| v.push(t)));
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From 304eb4a2c5e4f38173737c6033dbc50b13f393fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 13/20] fix: reserve a table value for invalid transitions in
 derived lexers

The element type of the embedded table was chosen for the state IDs only,
so with exactly 256 (65536) states the invalid marker wrapped to state 0.
---
 laps_macros/src/tokenize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..9682722 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -407,10 +407,11 @@ impl RegexImpls {
 
   /// Generates table type.
   fn table_ty(&self) -> TokenStream2 {
-    if self.num_states <= 1 {
+    if self.num_states == 0 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      // the number of states itself marks invalid transitions
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From 85946fe15fbfcb42041cbe9c7ed7c698ad4b53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 14/20] fix: do not produce empty tokens in derived lexers

If a regex matches the empty string, the lexer returned empty tokens (or
skipped nothing) for ever at end-of-file and at unrecognized characters.
---
 laps_macros/src/tokenize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 9682722..a1134d5 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -385,7 +385,14 @@ impl RegexImpls {
 
       loop {
         let LexerResult { last_state, buf, span, is_eof } = next_token_impl(input)?;
-        match is_final(last_state, &buf, &span)? {
+        // a token must contain at least one character, otherwise the lexer
+        // will return empty tokens or skip nothing forever
+        let result = if buf.is_empty() {
+          TokenResult::Unknown
+        } else {
+          is_final(last_state, &buf, &span)?
+        };
+        match result {
           TokenResult::Token(t) => return Ok(t),
           TokenResult::Skip => continue,
           TokenResult::Unknown if is_eof && buf.is_empty() => #eof_token,
-- 
2.43.0


From d221712c97b831c6e20ed18c1cfebb2856f390c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 15/20] fix: escape braces of doc comments in Display of token
 kinds

The prompt is used as a format string, so "{{" in a doc comment was
displayed as "{", and a single brace did not compile.
---
 laps_macros/src/token_kind.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..f93dd68 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -81,6 +81,8 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
         p
       },
     );
+    // the prompt is used as a format string
+    let prompt = prompt.replace('{', "{{").replace('}', "}}");
     arms.extend(match &variant.fields {
       Fields::Unnamed(f) if f.unnamed.len() == 1 => {
         let prompt = prompt + " `{}`";
-- 
2.43.0


From 10aa3c433332b403fddc9390a8f6a400e5444d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 16/20] fix: count errors and warnings atomically without the
 logger feature

---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From 1b29d9f9a623bbe3ac18b77de4c8176a5f441455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 17/20] fix: underline the whole start character, and at least
 one column, in diagnostics

---
 src/span.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..9de3d42 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -454,10 +454,14 @@ impl Span {
   {
     // get some parameters
     let line_num = self.start.line as usize;
-    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
+    let (line, c1, c2) = get_line_str!(
+      lines.nth(line_num - 1),
+      self.start.col - 1,
+      self.end.col
+    );
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = c1;
+    let len = std::cmp::max(c2 - c1, 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
-- 
2.43.0


From 06c11572de807a10412f8a1ba322e9b8b0db2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 18/20] fix: do not panic on diagnostics of spans that end on
 an earlier line or at line zero

---
 src/span.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9de3d42..73d44a5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -428,15 +428,17 @@ impl Span {
   fn print_file_info(&self, color: Color) {
     let file_type = &self.status.file_type;
     eprintln!("  {} {file_type}:{}", "at".blue(), self.start);
-    if self.start.col > 0 && self.end.col > 0 {
+    if self.start.line > 0 && self.start.col > 0 && self.end.col > 0 {
       if let FileType::File(path) = file_type {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
           let mut lines = BufReader::new(file).lines();
           if self.start.line == self.end.line {
             self.print_single_line_info(&mut lines, color)
-          } else {
+          } else if self.start.line < self.end.line {
             self.print_multi_line_info(&mut lines, color)
+          } else {
+            Ok(())
           }
         });
       }
-- 
2.43.0


From 9febc8993d7718b42bb91543d0451f6a02f660fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 19/20] fix: accept other attributes after a pattern in
 derive(Tokenize)

Any attribute after `regex`, `skip` or `eof` was taken for a second
pattern, so documentation, `allow` or `cfg` there did not compile.
---
 laps_macros/src/tokenize.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index a1134d5..10e5e02 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -135,23 +135,19 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
-      if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
-      } else {
+      let new_attr = match &a.meta {
+        Meta::List(l) if l.path.is_ident("regex") => VariantAttr::new_regex(&l.tokens)?,
+        Meta::List(l) if l.path.is_ident("skip") => VariantAttr::new_skip(&l.tokens)?,
+        Meta::Path(p) if p.is_ident("eof") => VariantAttr::Eof,
+        _ => continue,
+      };
+      if attr.is_some() {
         return_error!(
           a.span(),
           "attribute `regex`/`skip`/`eof` is bound more than once"
         )
       }
+      attr = Some(new_attr);
     }
     // check attribute
     match &attr {
-- 
2.43.0


From 7d8fc7587119e45cddfa9179497408298204201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 20/20] fix: derive lexers whose patterns accept no symbol

A table without symbols (every pattern only matches the empty string) made
derive(Tokenize) panic.
---
 laps_macros/src/tokenize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 10e5e02..c5b347a 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -451,8 +451,11 @@ impl RegexImpls {
       }
     };
     // generate boundary check
-    let l = bound(&self.sym_map.first().unwrap().0);
-    let r = bound(&self.sym_map.last().unwrap().1);
+    let (l, r) = match (self.sym_map.first(), self.sym_map.last()) {
+      (Some(first), Some(last)) => (bound(&first.0), bound(&last.1)),
+      // only the empty string can be matched, no symbol can be accepted
+      _ => return quote!(let _ = c; None),
+    };
     // generate equivalent IDs
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
-- 
2.43.0

