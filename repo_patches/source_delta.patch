From 9b3593e721d8e65ddc31355dbebaea9fd911bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 01/21] fix: Cfg::equivalent compares rule counts and RHS
 lengths

---
 cfg-grammar/src/compare.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..29287b6 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,10 +3,8 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
-        for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
-        }
-        eq
+        self.rules()
+            .map(|rule| (rule.lhs, &rule.rhs[..]))
+            .eq(other.rules().map(|rule| (rule.lhs, &rule.rhs[..])))
     }
 }
-- 
2.43.0


From fa572f7b7104f8b752bca4652d37911f95145393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 02/21] fix: SymbolBitSet::is_empty was inverted

---
 cfg-grammar/src/symbol_bit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..acffe16 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -177,7 +177,7 @@ impl SymbolBitSet {
 
     /// Not to be confused with `fn is_empty`.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        !self.bit_vec.iter().any(|b| b)
     }
 
     /// Reserves space for additional symbols.
-- 
2.43.0


From db49005609712fe57398d42da84f974d23ffac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 03/21] fix: rewrite_cycles translates the grammar roots

---
 cfg-classify/src/cyclical.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..614bc41 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -126,6 +126,20 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // Roots may be rewritten as well.
+            let translate = |sym| match translation.get(&sym) {
+                Some(&Some(new_sym)) => new_sym,
+                _ => sym,
+            };
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
+            grammar.set_roots(&roots[..]);
+            let mut wrapped_roots = grammar.wrapped_roots().to_vec();
+            for wrapped_root in &mut wrapped_roots {
+                wrapped_root.root = translate(wrapped_root.root);
+                wrapped_root.inner_root = translate(wrapped_root.inner_root);
+            }
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From 5a9d8943acd0036f53517456b3e7efaee715609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 04/21] fix: make_proper removes rules reachable only through
 unproductive rules

---
 cfg-classify/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg-classify/src/lib.rs b/cfg-classify/src/lib.rs
index 63fd48d..53dbefb 100644
--- a/cfg-classify/src/lib.rs
+++ b/cfg-classify/src/lib.rs
@@ -88,6 +88,8 @@ impl CfgClassifyExt for Cfg {
             // }
             // println!("warning: grammar has useless rules");
             usefulness.remove_useless_rules(self);
+            // Removal of unproductive rules may make other rules unreachable.
+            self.usefulness().remove_useless_rules(self);
         }
         !contains_useless_rules
     }
-- 
2.43.0


From d1a201f65dfb5ed00ddc2ecd512420d63e87cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 05/21] fix: first_set_for_string looks past every nullable
 symbol and no other

---
 cfg-predict-sets/src/first.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..4724f99 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -49,26 +49,27 @@ impl FirstSets {
 
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
-        let mut result = vec![];
+        let mut result = PerSymbolSetVal::new();
+        result.has_none = true;
         for &sym in string {
             if self.terminal_set[sym] {
-                result.push(sym);
-                break;
+                result.list.push(sym);
+                result.has_none = false;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
-                }
+                result.list.extend(first_set.list.iter().copied());
+                result.has_none = first_set.has_none;
+            }
+            if !result.has_none {
+                break;
             }
         }
-        PerSymbolSetVal {
-            has_none: result.is_empty(),
-            list: result,
-        }
+        result.list.sort_unstable();
+        result.list.dedup();
+        result
     }
 
     fn collect_from(&mut self, grammar: &Cfg) {
-- 
2.43.0


From a436c8b6f0323074f69cce3d53046658adada1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 06/21] fix: FOLLOW sets propagate the end of input

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..aa45168 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -57,6 +57,7 @@ impl FollowSets {
                         followed.extend(follow_set.iter().cloned());
                         followed.sort_unstable();
                         followed.dedup();
+                        followed.has_none |= follow_set.has_none;
                         changed |= prev_cardinality != followed.len();
 
                         let first_set = first_sets.get(&sym).unwrap();
-- 
2.43.0


From acb15033604fe6ac3660656a1c65bc9f96174b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 07/21] fix: the LL parse table has a column for the end of
 input

---
 cfg-classify/src/ll.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg-classify/src/ll.rs b/cfg-classify/src/ll.rs
index 27dd247..4c183f7 100644
--- a/cfg-classify/src/ll.rs
+++ b/cfg-classify/src/ll.rs
@@ -16,7 +16,8 @@ pub struct LlParseTable<'a> {
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)]
 struct LlParseTableKey {
     nonterminal: Symbol,
-    terminal: Symbol,
+    // `None` stands for the end of input.
+    terminal: Option<Symbol>,
 }
 
 /// Container for classifying nonterminals as LL(1) or context-free.
@@ -51,14 +52,15 @@ impl<'a> LlParseTable<'a> {
             for &terminal in &rhs_first_set[..] {
                 let key = LlParseTableKey {
                     nonterminal: rule.lhs,
-                    terminal,
+                    terminal: Some(terminal),
                 };
                 let entry = this.map.entry(key).or_default();
                 entry.push(rule_idx);
             }
             if rhs_first_set.has_none() {
                 let lhs_follow_set = follow.predict_sets().get(&rule.lhs).unwrap();
-                for &terminal in &lhs_follow_set[..] {
+                let end_of_input = lhs_follow_set.has_none().then_some(None);
+                for terminal in lhs_follow_set.iter().copied().map(Some).chain(end_of_input) {
                     let key = LlParseTableKey {
                         nonterminal: rule.lhs,
                         terminal,
-- 
2.43.0


From b3a7feeadd8682a66278b272a9d26a2e9b3d5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:57 +0000
Subject: [PATCH 08/21] fix: minimal distances cross nested predictions, keep
 dot positions going backward, and allow unproductive symbols

---
 cfg-predict-distance/src/lib.rs | 109 +++++++++++++++++---------------
 1 file changed, 57 insertions(+), 52 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..30d6bdc 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -162,12 +162,10 @@ impl<'a> MinimalDistance<'a> {
         direction: DistanceDirection,
     ) {
         if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
-            set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
+            self.predict_rule_distances(0, rule, rule_idx, dot_pos, false);
         }
         if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
-            set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
+            self.predict_rule_distances(0, rule, rule_idx, dot_pos, true);
         }
     }
 
@@ -175,69 +173,76 @@ impl<'a> MinimalDistance<'a> {
     fn transitive_minimal_distances(&mut self) {
         let mut changed = true;
         while changed {
-            // Keep going for as long as any completion distances were lowered in the last pass.
+            // Keep going for as long as any distances were lowered in the last pass.
             changed = false;
             for (idx, rule) in self.grammar.rules().enumerate() {
-                if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
-                    changed |= changed_now;
-                }
-                if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
-                    changed |= changed_now;
+                for reverse in [false, true] {
+                    let end = if reverse { 0 } else { rule.rhs.len() };
+                    if let Some(distance) = self.directed(reverse).after[rule.lhs.usize()] {
+                        let (_, changed_now) =
+                            self.update_rule_distances(distance, &rule.rhs[..], idx, end, reverse);
+                        changed |= changed_now;
+                    }
+                    for (pos, sym) in rule.rhs.iter().enumerate() {
+                        if let Some(distance) = self.directed(reverse).before[sym.usize()] {
+                            let dot = pos + reverse as usize;
+                            changed |=
+                                self.predict_rule_distances(distance, rule, idx, dot, reverse);
+                        }
+                    }
                 }
             }
         }
     }
 
-    // Update distances in a rule.
+    fn directed(&mut self, reverse: bool) -> &mut Distances {
+        if reverse {
+            &mut self.backward_distances
+        } else {
+            &mut self.forward_distances
+        }
+    }
+
+    // Update distances in a rule, starting from a distance within the rule. This is the distance
+    // within the LHS symbol as well.
+    fn predict_rule_distances(
+        &mut self,
+        cur: u32,
+        rule: &CfgRule,
+        idx: usize,
+        dot: usize,
+        reverse: bool,
+    ) -> bool {
+        let (min, changed) = self.update_rule_distances(cur, &rule.rhs[..], idx, dot, reverse);
+        let lhs = rule.lhs.usize();
+        changed | min.is_some_and(|min| set_min(&mut self.directed(reverse).before[lhs], min))
+    }
+
+    // Update distances in a rule, starting from the given dot.
+    //
+    // Returns the distance at the other end of the rule, if it can be reached, and whether any
+    // distances were lowered.
     fn update_rule_distances(
         &mut self,
         mut cur: u32,
         rhs: &[Symbol],
         idx: usize,
+        mut dot: usize,
         reverse: bool,
-    ) -> (u32, bool) {
-        let last = if reverse {
-            for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][dot], cur);
-                cur = self.update_sym_distance(cur, sym, true);
+    ) -> (Option<u32>, bool) {
+        let mut changed = set_min(&mut self.distances[idx][dot], cur);
+        while dot != if reverse { rhs.len() } else { 0 } {
+            let sym = if reverse { rhs[dot] } else { rhs[dot - 1] };
+            changed |= set_min(&mut self.directed(reverse).after[sym.usize()], cur);
+            match self.min_length[sym.usize()] {
+                Some(min_length) => cur += min_length,
+                // The symbol is unproductive.
+                None => return (None, changed),
             }
-            rhs.len()
-        } else {
-            for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
-                cur = self.update_sym_distance(cur, sym, false);
-            }
-            0
-        };
-        let changed = set_min(&mut self.distances[idx][last], cur);
-        (cur, changed)
-    }
-
-    fn update_sym_distance(&mut self, mut cur: u32, sym: Symbol, reverse: bool) -> u32 {
-        set_min(
-            if reverse {
-                &mut self.backward_distances.after[sym.usize()]
-            } else {
-                &mut self.forward_distances.after[sym.usize()]
-            },
-            cur,
-        );
-        cur += self.min_length[sym.usize()].unwrap();
-        if let Some(sym_predicted) = if reverse {
-            &self.backward_distances
-        } else {
-            &self.forward_distances
-        }
-        .before[sym.usize()]
-        {
-            cur.min(sym_predicted)
-        } else {
-            cur
+            dot = if reverse { dot + 1 } else { dot - 1 };
+            changed |= set_min(&mut self.distances[idx][dot], cur);
         }
+        (Some(cur), changed)
     }
 }
 
-- 
2.43.0


From 8db0ed6c65788d6ec0887eddbfdfb1da2c1f9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:35 +0000
Subject: [PATCH 09/21] fix: random generation undoes lookaheads expanded after
 the one it returns to

---
 cfg-generate/src/weighted/random.rs | 40 +++++++++++++++++------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..0f1f0d2 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -145,6 +145,7 @@ pub struct NegativeRule {
 }
 
 struct BacktrackState<'a, R> {
+    order: usize,
     forbidden: &'a [char],
     rng: R,
     result_len: usize,
@@ -173,6 +174,7 @@ impl Random for Cfg {
             .collect();
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
+        let mut num_lookaheads = 0;
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
             if terminal_set[sym] {
@@ -185,22 +187,26 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
-                if let Some(back) = backtracking.get_mut(&string.len()) {
-                    for state in back.iter_mut() {
-                        if string.ends_with(state.forbidden) {
-                            *rng = state.rng.clone();
-                            string.truncate(string.len() - state.forbidden.len());
-                            result.truncate(state.result_len);
-                            work = state.prev_work.clone();
-                            let attempts = backtracking_attempts
-                                .get_mut(&string.len())
-                                .expect("bt.attempt not found");
-                            rng.mutate_start(*attempts);
-                            *attempts += 1;
-                            if *attempts > 256 * 64 {
-                                return Err(RandomGenError::NegativeRuleAttemptsExceeded);
-                            }
-                        }
+                let violated = backtracking
+                    .get(&string.len())
+                    .and_then(|back| back.iter().find(|state| string.ends_with(state.forbidden)));
+                if let Some(state) = violated {
+                    let order = state.order;
+                    *rng = state.rng.clone();
+                    string.truncate(string.len() - state.forbidden.len());
+                    result.truncate(state.result_len);
+                    work = state.prev_work.clone();
+                    // Lookaheads expanded after this one are undone.
+                    for (_, back) in backtracking.range_mut(string.len()..) {
+                        back.retain(|state| state.order <= order);
+                    }
+                    let attempts = backtracking_attempts
+                        .get_mut(&string.len())
+                        .expect("bt.attempt not found");
+                    rng.mutate_start(*attempts);
+                    *attempts += 1;
+                    if *attempts > 256 * 64 {
+                        return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
             } else if let Some(forbidden) = negative.get(&sym) {
@@ -209,11 +215,13 @@ impl Random for Cfg {
                     .entry(string.len() + forbidden.len())
                     .or_default()
                     .push(BacktrackState {
+                        order: num_lookaheads,
                         forbidden: &forbidden[..],
                         rng: rng.clone(),
                         result_len: result.len(),
                         prev_work: work.clone(),
                     });
+                num_lookaheads += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From 08540615b253e381fd614be75a71939d66a4c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 10/21] fix: random generation respects the limit of negative
 rule attempts

---
 cfg-generate/src/weighted/random.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 0f1f0d2..6afc005 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -205,7 +205,8 @@ impl Random for Cfg {
                         .expect("bt.attempt not found");
                     rng.mutate_start(*attempts);
                     *attempts += 1;
-                    if *attempts > 256 * 64 {
+                    let max_attempts = limit.map_or(256 * 64, |l| l.negative_rule_attempts);
+                    if *attempts > max_attempts {
                         return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
-- 
2.43.0


From 5611322a76a4926c3213ec4ae3ee5bda0ec65105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:51 +0000
Subject: [PATCH 11/21] fix: loading basic BNF reports tokenization failures as
 errors

---
 cfg-load/src/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..3c3b835 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -342,7 +342,12 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
+        let tokens = Lexer::tokenize(bnf).map_err(|(line_no, col_no)| LoadError {
+            reason: "failed to tokenize".to_string(),
+            line: line_no as u32,
+            col: col_no as u32,
+            token: None,
+        })?;
         for (i, ch) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
-- 
2.43.0


From dbda2b2e74bf456390299d8555a5b9a962bb960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:55 +0000
Subject: [PATCH 12/21] fix: rich BNF may begin with its lexer, and a second
 lexer is an error

---
 cfg-load/src/advanced.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..0e58371 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -182,6 +182,8 @@ impl forest::Eval for Evaluator {
             (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
@@ -617,6 +619,17 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: None,
             });
         };
+        let mut lexer_keywords = tokens
+            .iter()
+            .filter(|&(token, _, _)| token == &Token::LexerKeyword);
+        if let Some((token, line, col)) = lexer_keywords.nth(1) {
+            return Err(LoadError {
+                reason: "more than one lexer".to_string(),
+                line: *line as u32,
+                col: *col as u32,
+                token: Some(token.clone()),
+            });
+        }
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
-- 
2.43.0


From 682f0b5ba1799dff0411576e0b13a27927f13d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:56 +0000
Subject: [PATCH 13/21] fix: lexer classes are inclusive ranges, looked up
 without panics over all of Unicode

---
 cfg-regexp-logic/src/lib.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..2c1aafa 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -15,21 +15,20 @@ use regex_syntax::hir::{Class, Hir, HirKind};
 
 #[derive(PartialEq, PartialOrd, Eq, Ord, Debug, Clone)]
 pub struct LexerClasses {
+    // Ranges of characters, inclusive at both ends.
     set: BTreeSet<(char, char)>,
 }
 
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
-        LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
-        }
+        (value as char).into()
     }
 }
 
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
         LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
+            set: iter::once((value, value)).collect(),
         }
     }
 }
@@ -53,11 +52,20 @@ impl From<Class> for LexerClasses {
 }
 
 impl LexerClasses {
+    /// Iterates over ranges of characters, given as the first character
+    /// and the one following the last.
     pub fn iter(&self) -> impl Iterator<Item = (char, char)> + use<'_> {
-        self.set.iter().copied()
+        self.set
+            .iter()
+            .map(|&(start, end)| (start, successor(end).unwrap_or(end)))
     }
 }
 
+/// The character following the given one, if there is any.
+fn successor(ch: char) -> Option<char> {
+    (ch..=char::MAX).nth(1)
+}
+
 struct Translator {
     cfg: Cfg,
     class_map: LexerMap,
@@ -84,7 +92,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..=(class.1 as u32).min(255) {
                         result[ascii as usize].push(symbol);
                     }
                 }
@@ -95,10 +103,9 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                if let Some(end) = successor(class.1) {
+                    ranges.entry(end).or_insert(vec![]).push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From a0998cb4cb0b0ee615b773bf57732235970a2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:59 +0000
Subject: [PATCH 14/21] fix: literals of a regular expression are read as
 characters

---
 cfg-regexp-logic/src/lib.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 2c1aafa..e814ac4 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -175,16 +175,11 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
-                    syms.push(
-                        *self
-                            .class_map
-                            .classes
-                            .entry(byte.into())
-                            .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
-                            }),
-                    );
+                for ch in String::from_utf8_lossy(&lit.0).chars() {
+                    syms.push(*self.class_map.classes.entry(ch.into()).or_insert_with(|| {
+                        self.cfg
+                            .next_sym(Some(format!("__byte{}", ch as u32).into()))
+                    }));
                 }
                 println!("{indent}Literal: {:?}", lit);
                 vec![syms]
-- 
2.43.0


From f13a3b9a11d6f42261eb78ba59b3899283693006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:10 +0000
Subject: [PATCH 15/21] fix: extending a grammar keeps to the limit on
 right-hand side length

---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..a8656ce 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in other.rules() {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From 5d0c57e4c6ece2c592321f35e3a72b04eebbedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:08 +0000
Subject: [PATCH 16/21] fix: report errors of rules in rich BNF with the line
 of the token, not its number

---
 cfg-load/src/advanced.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 0e58371..7663e70 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -630,6 +630,9 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: Some(token.clone()),
             });
         }
+        // Spans count tokens from one.
+        let line_nos: Vec<_> = tokens.iter().map(|&(_, line, _)| line as u32).collect();
+        let line_no_of = |span: usize| line_nos[span - 1];
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
@@ -665,7 +668,7 @@ impl CfgLoadAdvancedExt for Cfg {
                     if lhs_in_parser.contains(&lhs) {
                         return Err(LoadError {
                             reason: format!("lhs shared between parser and lexer: {}", rule.lhs),
-                            line: rule.span.0 as u32,
+                            line: line_no_of(rule.span.0),
                             col: 1,
                             token: None,
                         });
@@ -688,7 +691,7 @@ impl CfgLoadAdvancedExt for Cfg {
                             if func != "Regexp" {
                                 return Err(LoadError {
                                     reason: format!("expected 'Regexp', found '{}'", func),
-                                    line: span.0 as u32,
+                                    line: line_no_of(span.0),
                                     col: 1,
                                     token: None,
                                 });
@@ -704,7 +707,7 @@ impl CfgLoadAdvancedExt for Cfg {
                                             "expected Regex(string), found {:?}({:?})",
                                             func, arg
                                         ),
-                                        line: span.0 as u32,
+                                        line: line_no_of(span.0),
                                         col: 0,
                                         token: None,
                                     });
@@ -713,7 +716,7 @@ impl CfgLoadAdvancedExt for Cfg {
                                     let (mut regexp_cfg, classes) = Cfg::from_regexp(string)
                                         .map_err(|err| LoadError {
                                             reason: err.to_string(),
-                                            line: span as u32,
+                                            line: line_no_of(span),
                                             col: 1,
                                             token: None,
                                         })?;
-- 
2.43.0


From 341fa020b6a90d7201eb1cc7d6eb22db96803684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:08 +0000
Subject: [PATCH 17/21] fix: report where parsing basic BNF fails

---
 cfg-load/src/basic.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 3c3b835..4e1044b 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -51,7 +51,7 @@ enum Value {
 
 struct Evaluator {
     symbols: [Symbol; 13],
-    tokens: Vec<Token>,
+    tokens: Vec<(Token, usize, usize)>,
 }
 
 impl forest::Eval for Evaluator {
@@ -75,7 +75,7 @@ impl forest::Eval for Evaluator {
             rparen,
         ] = self.symbols;
         if terminal == ident {
-            self.tokens[values as usize].ident()
+            self.tokens[values as usize].0.ident()
         } else {
             Value::None
         }
@@ -198,20 +198,24 @@ impl Token {
 }
 
 impl<'a> Lexer<'a> {
-    fn tokenize(bnf: &str) -> Result<Vec<Token>, (usize, usize)> {
+    fn tokenize(bnf: &str) -> Result<Vec<(Token, usize, usize)>, (usize, usize)> {
         let mut lexer = Lexer {
             chars: bnf.chars(),
             line_no: 1,
             col_no: 1,
         };
         let mut result = vec![];
+        let mut line_no = 1;
+        let mut col_no = 1;
         while let Some(token) = lexer.eat_token() {
             if let Token::Error(line, col) = token {
                 return Err((line, col));
             }
             if token != Token::Whitespace {
-                result.push(token);
+                result.push((token, line_no, col_no));
             }
+            line_no = lexer.line_no;
+            col_no = lexer.col_no;
         }
         Ok(result)
     }
@@ -348,7 +352,7 @@ impl CfgLoadExt for Cfg {
             col: col_no as u32,
             token: None,
         })?;
-        for (i, ch) in tokens.iter().enumerate() {
+        for (i, &(ref ch, line, col)) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
                 Token::Semicolon => semicolon,
@@ -373,8 +377,8 @@ impl CfgLoadExt for Cfg {
             if !success {
                 return Err(LoadError {
                     reason: "parse failed".to_string(),
-                    line: 1,
-                    col: 1,
+                    line: line as u32,
+                    col: col as u32,
                     token: None,
                 });
             }
-- 
2.43.0


From 277d190573aacf28b71e0ee4057f0bf2a8f3c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 18/21] fix: trace dots of binarized rules to positions of the
 original rule

---
 cfg-history/src/earley/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index eb6bdf6..dfa11f0 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -221,19 +221,19 @@ impl History {
             [none; 3]
         } else {
             if is_top {
-                if full_len == 2 {
-                    [self.at_dot(0), none, self.at_dot(1)]
-                } else if full_len >= 3 {
+                if full_len == 1 {
+                    [self.at_dot(0), self.at_dot(1), none]
+                } else if full_len >= 2 {
                     [
                         self.at_dot(0),
-                        self.at_dot(full_len - 2),
                         self.at_dot(full_len - 1),
+                        self.at_dot(full_len),
                     ]
                 } else {
                     [self.at_dot(0), none, none]
                 }
             } else {
-                [none, self.at_dot(full_len - 2 - height as usize), none]
+                [none, self.at_dot(height as usize + 1), none]
             }
         };
 
-- 
2.43.0


From b8b162061c805405e767e90e48e1ac01c3dbb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 19/21] fix: update dots of rules made from sequences

---
 cfg-history/src/earley/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index dfa11f0..5082a08 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -164,7 +164,9 @@ pub fn process_linked(linked_node: &LinkedHistoryNode, mut prev_history: History
         &LinkedHistoryNode::SequenceRhs { rhs } => {
             if let Some(sequence_details) = prev_history.sequence {
                 let rhs: Vec<_> = rhs.into_iter().flatten().collect();
-                prev_history.rewrite_sequence(sequence_details, &rhs[..]);
+                prev_history.dots = prev_history
+                    .rewrite_sequence(sequence_details, &rhs[..])
+                    .dots;
             }
             prev_history
         } // ???
-- 
2.43.0


From 5407e112dae73364af527b3d88743e69d4e53487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:54 +0000
Subject: [PATCH 20/21] fix: tell the separator of sequences that are not
 trailing

---
 cfg-sequence/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/lib.rs b/cfg-sequence/src/lib.rs
index 230d86f..d498b0d 100644
--- a/cfg-sequence/src/lib.rs
+++ b/cfg-sequence/src/lib.rs
@@ -91,8 +91,8 @@ impl Separator {
 impl From<Separator> for Option<Symbol> {
     fn from(val: Separator) -> Option<Symbol> {
         match val {
-            Trailing(sep) => Some(sep),
-            _ => None,
+            Trailing(sep) | Proper(sep) | Liberal(sep) => Some(sep),
+            Null => None,
         }
     }
 }
-- 
2.43.0


From ea5ee0c4d2f5eab0e4231f5d6f502bbc88173b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 21/21] fix: analyze cycles anew once they are removed or
 rewritten

---
 cfg-classify/src/cyclical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index 614bc41..5fd9ed6 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -64,6 +64,7 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             self.grammar.borrow_mut().retain(|rule| {
                 !(rule.rhs.len() == 1 && self.unit_derivation[(rule.rhs[0], rule.lhs)])
             });
+            self.refresh();
         }
     }
 
@@ -140,6 +141,13 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
                 wrapped_root.inner_root = translate(wrapped_root.inner_root);
             }
             grammar.set_wrapped_roots(&wrapped_roots[..]);
+            self.refresh();
         }
     }
+
+    /// Analyzes the grammar anew once its rules have changed.
+    fn refresh(&mut self) {
+        self.unit_derivation = self.grammar.borrow().unit_derivation_matrix();
+        self.cycle_free = None;
+    }
 }
-- 
2.43.0

