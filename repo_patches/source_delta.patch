From f8b30b22daf345bfd35150989cd8b431b2fc552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:38 +0000
Subject: [PATCH 01/26] fix: IntervalSet::add_interval dropped elements when
 one range absorbs several following ones

---
 src/interval_set.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..d2d18bf 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -130,22 +130,19 @@ impl IntervalSet {
 
             if added.adjacent(r) || !added.disjoint(r) {
                 // next to each other, make a single larger interval
-                let bigger = added.union(r);
+                let mut bigger = added.union(r);
                 *r = bigger;
                 // make sure we didn't just create an interval that
-                // should be merged with next interval in list
-                loop {
-                    i += 1;
-                    let next = match self.intervals.get(i) {
-                        Some(v) => v,
-                        None => break,
-                    };
+                // should be merged with next intervals in list
+                i += 1;
+                while let Some(next) = self.intervals.get(i) {
                     if !bigger.adjacent(next) && bigger.disjoint(next) {
                         break;
                     }
 
                     // if we bump up against or overlap next, merge
-                    self.intervals[i - 1] = bigger.union(next); // set to 3 merged ones
+                    bigger = bigger.union(next);
+                    self.intervals[i - 1] = bigger; // set to 3 merged ones
                     self.intervals.remove(i);
                 }
                 return;
-- 
2.43.0


From 6b2343a0f290ffe25d90dad28ad00ee864ed0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:02 +0000
Subject: [PATCH 02/26] fix: iterating an input stream panicked at its end
 instead of returning None

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From 923631b6a7d7f5a87358a795e58c25ddef1889d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 03/26] fix: lookahead past the end of an (un)buffered token
 stream returned an invalid token type instead of EOF

---
 src/token_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..927d757 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -160,7 +160,11 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        // after `sync` the buffer can be shorter only if its last token is EOF
+        let tokens = &self.tokens;
+        tokens
+            .get((self.p + i - 1) as usize)
+            .or_else(|| tokens.last())
     }
 
     #[inline]
-- 
2.43.0


From 369a27b19121ca9c4c11d17ffef7ac90e0cd3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 04/26] fix: seeking a token stream forward to a token not read
 yet panicked

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 927d757..58851ee 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -278,8 +278,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From 4422dfe1b1de5b6f881d4711b4cb08ff145d4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:18 +0000
Subject: [PATCH 05/26] fix: looking back in a token stream panicked before the
 first buffered token and was off by one further back

---
 src/token_stream.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 58851ee..bc1cdb5 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -73,7 +73,8 @@ impl<'a, 'input: 'a, T: TokenStream<'input>> Iterator for TokenIter<'a, 'input,
 pub struct UnbufferedTokenStream<'input, T: TokenSource<'input>> {
     token_source: T,
     pub(crate) tokens: Vec<<T::TF as TokenFactory<'input>>::Tok>,
-    //todo prev token for lt(-1)
+    /// token right before the buffer, for `lt(-1)`
+    prev_token: Option<<T::TF as TokenFactory<'input>>::Tok>,
     pub(crate) current_token_index: isize,
     markers_count: isize,
     pub(crate) p: isize,
@@ -114,6 +115,7 @@ impl<'input, T: TokenSource<'input>> UnbufferedTokenStream<'input, T> {
         UnbufferedTokenStream {
             token_source: source,
             tokens: vec![],
+            prev_token: None,
             current_token_index: 0,
             markers_count: 0,
             p: 0,
@@ -154,8 +156,12 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+        if i < 0 {
+            return match self.p + i {
+                -1 => self.prev_token.as_ref(),
+                pos if pos < 0 => None,
+                pos => self.tokens.get(pos as usize),
+            };
         }
 
         self.sync(i);
@@ -213,6 +219,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
         }
 
         if self.p == self.tokens.len() as isize && self.markers_count == 0 {
+            self.prev_token = self.tokens.pop();
             self.tokens.clear();
             self.p = -1;
         }
@@ -244,7 +251,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
         self.markers_count -= 1;
         if self.markers_count == 0 {
             if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+                self.prev_token = self.tokens.drain(0..self.p as usize).last();
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
-- 
2.43.0


From 343b4bf6c9c03696369a4a9b56681eefc827f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 06/26] fix: CommonTokenStream showed a leading off-channel
 token to the parser

---
 src/common_token_stream.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..7408ce4 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -106,10 +106,16 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.seek_first();
         r
     }
 
+    /// Moves to the first token on channel
+    fn seek_first(&mut self) {
+        let first = self.next_token_on_channel(0, self.channel, 1);
+        self.base.seek(first);
+    }
+
     fn lt_inner(&mut self, k: isize) -> Option<&<T::TF as TokenFactory<'input>>::Tok> {
         let mut i = self.base.p;
         let mut n = 1; // we know tokens[p] is a good one
@@ -129,6 +135,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
     pub fn reset(&mut self) {
         self.base.p = 0;
         self.base.current_token_index = 0;
+        self.seek_first();
     }
 
     /// Creates iterator over this token stream
-- 
2.43.0


From 78b4bfb12531b64b5d219bb958114465e55c2a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 07/26] fix: looking back over leading off-channel tokens
 panicked or returned a wrong token

---
 src/common_token_stream.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 7408ce4..bea301a 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -174,11 +174,14 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
@@ -219,7 +222,10 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
         let mut i = self.base.p;
         let mut n = 1;
         // find k good tokens looking backwards
-        while n <= k && i > 0 {
+        while n <= k {
+            if i <= 0 {
+                return None;
+            }
             // skip off-channel tokens
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
-- 
2.43.0


From 9ed0982da8b6663bf7feb2d5847047fe6d6e849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:07 +0000
Subject: [PATCH 08/26] fix: wildcard did not match the smallest and the
 largest symbol of the vocabulary

---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..b12eef8 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
     }
 }
 
-- 
2.43.0


From b8deab294a0073576d8d89709d8a6987e7ac344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 09/26] fix: serialized values 0xFFFE and 0xFFFF were read as
 negative numbers

---
 src/atn_deserializer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 593da83..b955a03 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -57,8 +57,8 @@ impl ATNDeserializer {
             let mut ch = ch as isize;
             // decode surrogates
             ch = if ch > 0xFFFF { ch - 0x3000 } else { ch };
-            ch -= 2;
-            ch
+            // values are 16 bit and are serialized with wrapping offset 2
+            (ch - 2) & 0xFFFF
         });
 
         self.check_version(data.next().unwrap() + 2);
-- 
2.43.0


From f27bd7fb6bd20547fb7df6158093a0e5312fa943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 10/26] fix: lexer DFA states that differ only in their actions
 were merged

---
 src/lexer_action_executor.rs | 10 ++++------
 src/lexer_atn_simulator.rs   | 24 ++++++++++--------------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..979e171 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -39,11 +39,9 @@ impl LexerActionExecutor {
         old: Option<&Self>,
         lexer_action: LexerAction,
     ) -> LexerActionExecutor {
-        let mut new = old
-            .cloned()
-            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));
-        new.lexer_actions.push(lexer_action);
-        new
+        let mut lexer_actions = old.map_or_else(Vec::new, |it| it.lexer_actions.clone());
+        lexer_actions.push(lexer_action);
+        LexerActionExecutor::new(lexer_actions)
     }
 
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
@@ -60,7 +58,7 @@ impl LexerActionExecutor {
                 }
             }
         }
-        self
+        LexerActionExecutor::new(self.lexer_actions)
     }
 
     pub fn execute<'input>(&self, lexer: &mut impl Lexer<'input>, start_index: isize) {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..9bd9110 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -1,7 +1,6 @@
 //! Implementation of lexer automata(DFA)
 use std::cell::Cell;
 
-use std::ops::Deref;
 use std::rc::Rc;
 use std::sync::Arc;
 use std::usize;
@@ -691,19 +690,16 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        let same_hash = dfa.states_map.entry(key).or_default();
+        if let Some(&existing) = same_hash.iter().find(|&&i| states[i] == dfastate) {
+            return existing;
+        }
+        let dfastate_index = states.len();
+        dfastate.state_number = dfastate_index;
+        dfastate.configs.set_read_only(true);
+        //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
+        states.push(dfastate);
+        same_hash.push(dfastate_index);
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 0208e37ee7fb2fd5a7d2630780d612dfec7cc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:58 +0000
Subject: [PATCH 11/26] fix: token supplied by a lexer action was dropped
 instead of being returned

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From 1c0d9cf66a8c98db161d75def72c76e9fc29713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:49 +0000
Subject: [PATCH 12/26] fix: position of a made-up token at end of input is
 that of the last visible token

---
 src/error_strategy.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..3b5dceb 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -325,13 +325,15 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             )
         };
         let token_text = <T::TF as TokenFactory<'input>>::Data::from_text(&token_text);
-        let mut curr = recognizer.get_current_token().borrow();
+        let curr = recognizer.get_current_token().borrow();
+        let (mut line, mut column) = (curr.get_line(), curr.get_column());
         if curr.get_token_type() == TOKEN_EOF {
-            curr = recognizer
-                .get_input_stream()
-                .run(|it| it.get((it.index() - 1).max(0)).borrow());
+            if let Some(lookback) = recognizer.get_input_stream_mut().lt(-1) {
+                let lookback = lookback.borrow();
+                line = lookback.get_line();
+                column = lookback.get_column();
+            }
         }
-        let (line, column) = (curr.get_line(), curr.get_column());
         recognizer.get_token_factory().create(
             None::<&mut dyn CharStream<<Ctx::TF as TokenFactory<'input>>::From>>,
             expected_token_type,
-- 
2.43.0


From 405ba747968621557a309c2e977107318de6bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 13/26] fix: escape white space in 'no viable alternative'
 messages

---
 src/error_strategy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 3b5dceb..7e28089 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -198,7 +198,10 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             )
         };
 
-        format!("no viable alternative at input '{}'", input)
+        format!(
+            "no viable alternative at input {}",
+            self.escape_ws_and_quote(&input)
+        )
     }
 
     fn report_input_mismatch<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
-- 
2.43.0


From 11364dd2868f90daa26e7f8861817d83688b7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:54 +0000
Subject: [PATCH 14/26] fix: full-context prediction reports the token that
 made the input unviable

---
 src/parser_atn_simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..05dca2d 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,8 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    // must be created before seek to report correct offending token
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +485,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From 1b0785014f2079d0b4a3b9b02ab002106e6f7565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:40 +0000
Subject: [PATCH 15/26] fix: release the mark taken by prediction when it fails

---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 05dca2d..9e1cfcf 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From acfae2cc8a76f263deaca23f18789e8a34c05ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:38 +0000
Subject: [PATCH 16/26] fix: honour alternative number and node text of custom
 rule contexts

---
 src/parser_rule_context.rs | 18 +++++++++++++++++-
 src/rule_context.rs        | 12 ++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/parser_rule_context.rs b/src/parser_rule_context.rs
index 2cb6aff..9bd1dd9 100644
--- a/src/parser_rule_context.rs
+++ b/src/parser_rule_context.rs
@@ -279,7 +279,19 @@ impl<'input, Ctx: CustomRuleContext<'input>> CustomRuleContext<'input>
     type Ctx = Ctx::Ctx;
 
     fn get_rule_index(&self) -> usize {
-        self.base.ext.get_rule_index()
+        self.base.get_rule_index()
+    }
+
+    fn get_alt_number(&self) -> isize {
+        self.base.get_alt_number()
+    }
+
+    fn set_alt_number(&self, alt_number: isize) {
+        self.base.set_alt_number(alt_number)
+    }
+
+    fn get_node_text(&self, rule_names: &[&str]) -> String {
+        self.base.get_node_text(rule_names)
     }
 }
 
@@ -655,6 +667,10 @@ where
     fn set_alt_number(&self, _alt_number: isize) {
         self.deref().set_alt_number(_alt_number)
     }
+
+    fn get_node_text(&self, rule_names: &[&str]) -> String {
+        self.deref().get_node_text(rule_names)
+    }
 }
 
 //
diff --git a/src/rule_context.rs b/src/rule_context.rs
index 57be242..02b1bb0 100644
--- a/src/rule_context.rs
+++ b/src/rule_context.rs
@@ -192,6 +192,18 @@ impl<'input, ExtCtx: CustomRuleContext<'input>> CustomRuleContext<'input>
     fn get_rule_index(&self) -> usize {
         self.ext.get_rule_index()
     }
+
+    fn get_alt_number(&self) -> isize {
+        self.ext.get_alt_number()
+    }
+
+    fn set_alt_number(&self, alt_number: isize) {
+        self.ext.set_alt_number(alt_number)
+    }
+
+    fn get_node_text(&self, rule_names: &[&str]) -> String {
+        self.ext.get_node_text(rule_names)
+    }
 }
 
 // unsafe impl<'input, Ctx: CustomRuleContext<'input>> Tid for BaseRuleContext<'input, Ctx> {
-- 
2.43.0


From e6d25b4c7e2eb5463c11b108f65c8f58e4263e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:45 +0000
Subject: [PATCH 17/26] fix: notify listeners of entering a rule that fails at
 its first decision

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e5cf988..1184aab 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -144,6 +144,8 @@ pub struct BaseParser<
     precedence_stack: Vec<isize>,
 
     parse_listeners: Vec<Box<T>>,
+    /// whether listeners have been notified of entering the current rule
+    rule_entered: bool,
     _syntax_errors: Cell<isize>,
     error_listeners: RefCell<Vec<Box<dyn ErrorListener<'input, Self>>>>,
 
@@ -410,6 +412,7 @@ where
             input,
             precedence_stack: vec![0],
             parse_listeners: vec![],
+            rule_entered: false,
             _syntax_errors: Cell::new(0),
             error_listeners: RefCell::new(vec![Box::new(ConsoleErrorListener {})]),
             ext,
@@ -503,6 +506,7 @@ where
     }
 
     pub fn trigger_enter_rule_event(&mut self) {
+        self.rule_entered = true;
         let ctx = self.ctx.as_deref().unwrap();
         for listener in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
@@ -540,6 +544,7 @@ where
     #[inline]
     pub fn enter_rule(&mut self, localctx: Rc<Ctx::Type>, state: isize, _rule_index: usize) {
         self.set_state(state);
+        self.rule_entered = false;
         localctx.set_start(self.input.lt(1).cloned());
         self.ctx = Some(localctx);
         //        let mut localctx = Rc::get_mut(self.ctx.as_mut().unwrap()).unwrap();
@@ -561,6 +566,10 @@ where
                 .unwrap()
                 .set_stop(self.input.lt(-1).cloned())
         }
+        if !self.rule_entered {
+            // the rule failed before it has chosen an alternative
+            self.trigger_enter_rule_event();
+        }
         self.trigger_exit_rule_event();
         self.set_state(self.get_parser_rule_context().get_invoking_state());
         let parent = self.ctx.as_ref().unwrap().get_parent_ctx();
-- 
2.43.0


From c5a82887ed6d85acf834bc15cb10b8456ee323b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:50 +0000
Subject: [PATCH 18/26] fix: tell parse listeners apart by identifier, not by
 address

---
 src/parser.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1184aab..b36a53d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,6 +4,7 @@ use std::cell::{Cell, RefCell};
 use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crate::atn::ATN;
@@ -143,7 +144,7 @@ pub struct BaseParser<
     pub input: I,
     precedence_stack: Vec<isize>,
 
-    parse_listeners: Vec<Box<T>>,
+    parse_listeners: Vec<(usize, Box<T>)>,
     /// whether listeners have been notified of entering the current rule
     rule_entered: bool,
     _syntax_errors: Cell<isize>,
@@ -276,7 +277,7 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for listener in &mut self.parse_listeners {
+                for (_, listener) in &mut self.parse_listeners {
                     listener.visit_error_node(&*node)
                 }
             } else {
@@ -285,7 +286,7 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for listener in &mut self.parse_listeners {
+                for (_, listener) in &mut self.parse_listeners {
                     listener.visit_terminal(&*node)
                 }
             }
@@ -481,8 +482,9 @@ where
     where
         L: CoerceTo<T>,
     {
-        let id = ListenerId::new(&listener);
-        self.parse_listeners.push(listener.coerce_box_to());
+        let id = ListenerId::new();
+        self.parse_listeners
+            .push((id.actual_id, listener.coerce_box_to()));
         id
     }
 
@@ -495,9 +497,9 @@ where
         let index = self
             .parse_listeners
             .iter()
-            .position(|it| ListenerId::new(it).actual_id == listener_id.actual_id)
+            .position(|(id, _)| *id == listener_id.actual_id)
             .expect("listener not found");
-        unsafe { listener_id.into_listener(self.parse_listeners.remove(index)) }
+        unsafe { listener_id.into_listener(self.parse_listeners.remove(index).1) }
     }
 
     /// Removes all added parse listeners without returning them
@@ -508,7 +510,7 @@ where
     pub fn trigger_enter_rule_event(&mut self) {
         self.rule_entered = true;
         let ctx = self.ctx.as_deref().unwrap();
-        for listener in self.parse_listeners.iter_mut() {
+        for (_, listener) in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
             ctx.enter(listener);
         }
@@ -516,7 +518,7 @@ where
 
     pub fn trigger_exit_rule_event(&mut self) {
         let ctx = self.ctx.as_deref().unwrap();
-        for listener in self.parse_listeners.iter_mut().rev() {
+        for (_, listener) in self.parse_listeners.iter_mut().rev() {
             ctx.exit(listener);
             // listener.exit_every_rule(ctx);
         }
@@ -711,9 +713,10 @@ pub struct ListenerId<T: ?Sized> {
 }
 
 impl<T: ?Sized> ListenerId<T> {
-    fn new(listener: &Box<T>) -> ListenerId<T> {
+    fn new() -> ListenerId<T> {
+        static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
         ListenerId {
-            actual_id: listener.as_ref() as *const T as *const () as usize,
+            actual_id: NEXT_ID.fetch_add(1, Ordering::Relaxed),
             phantom: Default::default(),
         }
     }
-- 
2.43.0


From bc5a26a51da3b1d9063db152fb909d54965ed61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 19/26] fix: keep no contexts that may have been dropped when
 an error is reported

---
 src/error_strategy.rs | 24 +++++++++++++++---------
 src/errors.rs         | 11 +++++++++--
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 7e28089..16228c7 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -3,6 +3,7 @@ use std::borrow::Borrow;
 use std::error::Error;
 use std::fmt;
 use std::fmt::{Display, Formatter};
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
 
@@ -14,7 +15,7 @@ use crate::errors::{ANTLRError, FailedPredicateError, InputMisMatchError, NoViab
 use crate::interval_set::IntervalSet;
 use crate::parser::{Parser, ParserNodeType};
 use crate::parser_rule_context::ParserRuleContext;
-use crate::rule_context::{CustomRuleContext, RuleContext};
+use crate::rule_context::{states_stack, CustomRuleContext, RuleContext};
 use crate::token::{Token, TOKEN_DEFAULT_CHANNEL, TOKEN_EOF, TOKEN_EPSILON, TOKEN_INVALID_TYPE};
 use crate::token_factory::TokenFactory;
 use crate::transition::RuleTransition;
@@ -145,7 +146,10 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
-    next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    // invoking states at `next_tokens_state`; the contexts themselves might not exist anymore
+    // by the time they are needed
+    next_tokens_stack: Option<Vec<isize>>,
+    ctx: PhantomData<fn() -> &'input Ctx>,
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -164,7 +168,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_index: -1,
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
-            next_tokens_ctx: None,
+            next_tokens_stack: None,
+            ctx: PhantomData,
         }
     }
 
@@ -424,12 +429,12 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
             return Ok(self.get_missing_symbol(recognizer));
         }
 
-        if let Some(next_tokens_ctx) = &self.next_tokens_ctx {
+        if let Some(next_tokens_stack) = &self.next_tokens_stack {
             Err(ANTLRError::InputMismatchError(
-                InputMisMatchError::with_state(
+                InputMisMatchError::with_states_stack(
                     recognizer,
                     self.next_tokens_state,
-                    next_tokens_ctx.clone(),
+                    next_tokens_stack.clone(),
                 ),
             ))
         } else {
@@ -474,14 +479,15 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
 
         if next_tokens.contains(next) {
             self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
-            self.next_tokens_ctx = None;
+            self.next_tokens_stack = None;
             return Ok(());
         }
 
         if next_tokens.contains(TOKEN_EPSILON) {
-            if self.next_tokens_ctx.is_none() {
+            if self.next_tokens_stack.is_none() {
                 self.next_tokens_state = recognizer.get_state();
-                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
+                self.next_tokens_stack =
+                    Some(states_stack(recognizer.get_parser_rule_context().clone()).collect());
             }
             return Ok(());
         }
diff --git a/src/errors.rs b/src/errors.rs
index 2f1d3ae..4209e57 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -205,11 +205,18 @@ impl InputMisMatchError {
         recognizer: &mut T,
         offending_state: isize,
         ctx: Rc<<T::Node as ParserNodeType<'a>>::Type>,
+    ) -> InputMisMatchError {
+        Self::with_states_stack(recognizer, offending_state, states_stack(ctx).collect())
+    }
+
+    pub(crate) fn with_states_stack<'a, T: Parser<'a>>(
+        recognizer: &mut T,
+        offending_state: isize,
+        states_stack: Vec<isize>,
     ) -> InputMisMatchError {
         let mut a = Self::new(recognizer);
-        // a.base.ctx = ctx;
         a.base.offending_state = offending_state;
-        a.base.states_stack = states_stack(ctx).collect();
+        a.base.states_stack = states_stack;
         a
     }
 }
-- 
2.43.0


From 213661fb45be6c249e52248093a87a88973151c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 20/26] fix: announce dropped tokens to listeners after the
 rule they belong to

---
 src/parser.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b36a53d..7796b3b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -20,11 +20,11 @@ use crate::rule_context::{states_stack, CustomRuleContext, RuleContext};
 use crate::token::{Token, TOKEN_EOF};
 use crate::token_factory::{TokenAware, TokenFactory};
 use crate::token_stream::TokenStream;
-use crate::tree::{ErrorNode, Listenable, ParseTreeListener, TerminalNode};
+use crate::tree::{ErrorNode, Listenable, ParseTreeListener, TerminalNode, Tree};
 use crate::utils::cell_update;
 use crate::vocabulary::Vocabulary;
 use crate::{CoerceFrom, CoerceTo};
-use better_any::{Tid, TidAble};
+use better_any::{Tid, TidAble, TidExt};
 
 /// parser functionality required for `ParserATNSimulator` to work
 #[allow(missing_docs)] // todo rewrite it so downstream crates actually could meaningfully implement it
@@ -277,8 +277,11 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for (_, listener) in &mut self.parse_listeners {
-                    listener.visit_error_node(&*node)
+                // otherwise listeners are notified as soon as they know about the rule
+                if self.rule_entered {
+                    for (_, listener) in &mut self.parse_listeners {
+                        listener.visit_error_node(&*node)
+                    }
                 }
             } else {
                 let node: Rc<TerminalNode<'_, Ctx>> = self.create_token_node(o.clone());
@@ -508,7 +511,6 @@ where
     }
 
     pub fn trigger_enter_rule_event(&mut self) {
-        self.rule_entered = true;
         let ctx = self.ctx.as_deref().unwrap();
         for (_, listener) in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
@@ -516,6 +518,23 @@ where
         }
     }
 
+    // Notifies listeners about current rule, and tokens that were dropped before its alternative
+    // has been chosen
+    fn announce_rule(&mut self) {
+        self.trigger_enter_rule_event();
+        if !self.rule_entered {
+            self.rule_entered = true;
+            let ctx = self.ctx.as_deref().unwrap();
+            for child in ctx.get_children() {
+                if let Some(node) = child.downcast_ref::<ErrorNode<'input, Ctx>>() {
+                    for (_, listener) in self.parse_listeners.iter_mut() {
+                        listener.visit_error_node(node)
+                    }
+                }
+            }
+        }
+    }
+
     pub fn trigger_exit_rule_event(&mut self) {
         let ctx = self.ctx.as_deref().unwrap();
         for (_, listener) in self.parse_listeners.iter_mut().rev() {
@@ -570,7 +589,7 @@ where
         }
         if !self.rule_entered {
             // the rule failed before it has chosen an alternative
-            self.trigger_enter_rule_event();
+            self.announce_rule();
         }
         self.trigger_exit_rule_event();
         self.set_state(self.get_parser_rule_context().get_invoking_state());
@@ -596,7 +615,7 @@ where
             self.ctx = Some(new_ctx);
         }
 
-        self.trigger_enter_rule_event();
+        self.announce_rule();
     }
 
     pub fn enter_recursion_rule(
-- 
2.43.0


From f5d49387a7022aa6aabec0783d046091159a6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:35 +0000
Subject: [PATCH 21/26] fix: restore state after a left recursive rule

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7796b3b..7814842 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -668,6 +668,9 @@ where
             self.ctx = parent_ctx;
         }
 
+        // back to where the rule has been called, same as `exit_rule`
+        self.set_state(retctx.get_invoking_state());
+
         //self.ctx is now parent
         retctx.set_parent(&self.ctx);
 
-- 
2.43.0


From d763fd916cd6a9bf50edcf7c96bbea9b25d94d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:15 +0000
Subject: [PATCH 22/26] fix: implement is_expected_token

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7814842..8687f08 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -355,8 +355,8 @@ where
         })
     }
 
-    fn is_expected_token(&self, _symbol: isize) -> bool {
-        unimplemented!()
+    fn is_expected_token(&self, symbol: isize) -> bool {
+        self.get_expected_tokens().contains(symbol)
     }
 
     fn get_precedence(&self) -> isize {
-- 
2.43.0


From ea7d27964d77bb29471125dbcf4f111210b41cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 23/26] fix: implement setting a token's text

---
 src/token.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index f11e7ad..4d275bd 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -134,7 +134,7 @@ impl<T: Borrow<str> + Debug> Display for GenericToken<T> {
         //        let txt = escape_whitespaces(txt,false);
         f.write_fmt(format_args!(
             "[@{},{}:{}='{}',<{}>{},{}:{}]",
-            self.get_token_index(),
+            self.token_index.load(Ordering::Relaxed),
             self.start,
             self.stop,
             txt,
@@ -152,7 +152,7 @@ impl<T: Borrow<str> + Debug> Display for GenericToken<T> {
 
 // impl<T: Borrow<str> + Debug> TokenWrapper for GenericToken<T> { type Inner = Self; }
 
-impl<T: Borrow<str> + Debug> Token for GenericToken<T> {
+impl<T: Borrow<str> + From<String> + Debug> Token for GenericToken<T> {
     type Data = str;
 
     fn get_token_type(&self) -> isize {
@@ -191,8 +191,8 @@ impl<T: Borrow<str> + Debug> Token for GenericToken<T> {
         }
     }
 
-    fn set_text(&mut self, _text: String) {
-        unimplemented!()
+    fn set_text(&mut self, text: String) {
+        self.text = T::from(text);
     }
 
     fn get_token_index(&self) -> isize {
-- 
2.43.0


From 14036a2ac21ab5d1ed69bffd4a6bed90c6384c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 24/26] fix: printing a DFA with predicates panicked

---
 src/dfa_serializer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dfa_serializer.rs b/src/dfa_serializer.rs
index dea3a62..4f513fc 100644
--- a/src/dfa_serializer.rs
+++ b/src/dfa_serializer.rs
@@ -49,8 +49,9 @@ impl DFASerializer<'_, '_> {
         );
         if state.is_accept_state {
             base_str = if !state.predicates.is_empty() {
-                unimplemented!()
-            //                format!("{}=>{:?}", base_str, state.predicates)
+                let predicates: Vec<String> =
+                    state.predicates.iter().map(|it| it.to_string()).collect();
+                format!("{}=>[{}]", base_str, predicates.join(", "))
             } else {
                 format!("{}=>{}", base_str, state.prediction)
             };
-- 
2.43.0


From e3ec0304e6f8055e4282f945aaf0685df91b1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 25/26] fix: start states of a precedence DFA were printed as
 edges labeled with tokens

---
 src/dfa_serializer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dfa_serializer.rs b/src/dfa_serializer.rs
index 4f513fc..e125844 100644
--- a/src/dfa_serializer.rs
+++ b/src/dfa_serializer.rs
@@ -13,6 +13,10 @@ impl Display for DFASerializer<'_, '_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         let dfa = &self.dfa.states;
         for source in dfa.iter() {
+            // edges of the precedence start state are precedences instead of symbols
+            if self.dfa.is_precedence_dfa() && self.dfa.s0 == Some(source.state_number) {
+                continue;
+            }
             for (i, edge) in source.edges.iter().copied().enumerate() {
                 if edge != 0 && edge != ERROR_DFA_STATE_REF {
                     let target = &dfa[edge];
-- 
2.43.0


From 2866fe06b91d27df1f8de9821fe915145c1c8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:19 +0000
Subject: [PATCH 26/26] fix: seeking a common token stream to an off-channel
 token showed that token

---
 src/common_token_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index bea301a..905afcd 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -50,6 +50,7 @@ impl<'input, T: TokenSource<'input>> IntStream for CommonTokenStream<'input, T>
 
     #[inline(always)]
     fn seek(&mut self, index: isize) {
+        let index = self.next_token_on_channel(index, self.channel, 1);
         self.base.seek(index);
     }
 
-- 
2.43.0

