From 5bca622e9a7d70399391f8084d1957bd04e81397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 01/17] fix: compile the empty regex inside alternations,
 concatenations and repetitions

NFA::compile returned no state for it, and every caller but the outermost
unwraps the result.
---
 src/lex/nfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..ac717d3 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,7 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From 684613ac1dd59e590cd9f4c92f6502b91e9881dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 02/17] fix: DFA::test accepts exactly the strings the regex
 matches

It ended in any state but the start state to accept, compared a number of
characters with a number of bytes, and could not accept in the start state.
---
 src/lex/dfa.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..e82cc2d 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -101,7 +101,7 @@ impl DFA {
 
     pub fn test(&self, s: &str) -> bool {
         match self.simulate(s) {
-            Some(eaten) => eaten == s.len(),
+            Some(eaten) => eaten == s.chars().count(),
             _ => false,
         }
     }
@@ -111,18 +111,20 @@ impl DFA {
 
         let mut eaten = 0;
         for c in s.chars() {
-            if let Some(mut edge_iter) = self.edge_iter(state_idx) {
-                match edge_iter.find(|edge| edge.label.matches(c)) {
-                    Some(edge) => {
-                        eaten += 1;
-                        state_idx = edge.to;
-                    }
-                    None => break,
+            let edge = match self.edge_iter(state_idx) {
+                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
+                None => None,
+            };
+            match edge {
+                Some(edge) => {
+                    eaten += 1;
+                    state_idx = edge.to;
                 }
+                None => break,
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -166,7 +168,7 @@ impl DFABuilder {
         let mut d_states = vec![Self::hashset_to_btreeset(
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
-        let mut dfa_to_nfa = BTreeMap::new();
+        let mut dfa_to_nfa = BTreeMap::from([(DFA::START_IDX, d_states[0].clone())]);
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From 30dc8dc8825321dad763e297c35f7a66309aa752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 03/17] fix: split overlapping edge labels into disjoint ones
 whatever the order

---
 src/lex/dfa.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index e82cc2d..13479b0 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -339,11 +339,12 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range, which is part of
+            // it and so is disjoint from all the others, and then add the low
+            // and max ranges in: these may come from the new range, and then
+            // still overlap with ranges further on. (They may be empty too.)
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From 222ff47a083e3cb114c578f0b9d260d636b245ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 04/17] fix: compute FIRST sets of left recursive non-terminals
 without recursing forever

---
 src/lalr/first.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..d32bf5b 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -14,7 +14,7 @@ where
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -29,9 +29,13 @@ where
 }
 
 /// Returns true if the set contains epsilon
+///
+/// `visited` holds the non-terminals already being expanded, so that a (left) recursive
+/// non-terminal is expanded only once.
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +46,14 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    if !visited.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, visited, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
-- 
2.43.0


From 5bf8077575e2488a9e62995889e79c59458d70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 05/17] fix: do not report a conflict when items of a state
 shift the same terminal

---
 src/lalr/table.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..7e2efa4 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,12 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Several items of a state may have the dot before the same terminal,
+                        // they all shift to the same state
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From 8c72e54742d1ff97ad30cce68761a51ef278ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 06/17] fix: fill in the tables of merged states whose goto is
 only part of a merged state

---
 src/lalr/item.rs  |  5 +++++
 src/lalr/table.rs | 45 +++++++++++++++++++--------------------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..5fe8b6b 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Whether the two sets consist of the same LR(0) items
+    pub fn same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index 7e2efa4..a983e83 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -95,6 +95,9 @@ pub fn make_lalr_tables<'ast>(
     let mut action: ActionTable = ActionTable::empty();
     let mut goto: GotoTable = GotoTable::empty();
 
+    // GOTO of a LALR state, which is I1 U I2 U ... etc where the I's are LR(1) states with same
+    // core merged, may be none of the LR(1) states and only a part of the merged state it leads
+    // to: what identifies that state is its core.
     #[inline]
     fn compute_goto<'ast>(
         item_set: &ItemSet,
@@ -102,17 +105,13 @@ pub fn make_lalr_tables<'ast>(
         grammar: &Grammar<'ast>,
         lr_sets: &IndexSet<ItemSet>,
         lr_to_lalr: &BTreeMap<usize, usize>,
-        _i: usize,
         lalr_sets: &IndexSet<ItemSet>,
     ) -> Option<usize> {
         let goto_ia = item_set.goto(a, grammar);
-        let lr_idx = match lr_sets.get_index_of(&goto_ia) {
-            Some(i) => i,
-            None => {
-                return lalr_sets.get_index_of(&goto_ia);
-            }
-        };
-        lr_to_lalr.get(&lr_idx).cloned()
+        match lr_sets.get_index_of(&goto_ia) {
+            Some(lr_idx) => lr_to_lalr.get(&lr_idx).cloned(),
+            None => lalr_sets.iter().position(|set| set.same_core(&goto_ia)),
+        }
     }
 
     for (i, item_set) in lalr_sets.iter().enumerate() {
@@ -127,7 +126,7 @@ pub fn make_lalr_tables<'ast>(
                 if dot_value.is_terminal() {
                     let token_idx = grammar.get_token_idx(dot_value).unwrap();
                     let goto_idx = compute_goto(
-                        item_set, dot_value, grammar, lr_sets, lr_to_lalr, i, lalr_sets,
+                        item_set, dot_value, grammar, lr_sets, lr_to_lalr, lalr_sets,
                     );
 
                     let j = match goto_idx {
@@ -179,23 +178,17 @@ pub fn make_lalr_tables<'ast>(
 
     for (i, state) in lalr_sets.iter().enumerate() {
         for (_token_idx, production_name) in grammar.non_terminals() {
-            let goto_ia = state.goto(&Symbol::NonTerminal(*production_name), grammar);
-
-            // lalr state = I1 U I2 U ... etc where the I's are lr(1) states with same core merged
-            // so we much check if goto_ia == lalr state, or
-            match lr_sets.get_index_of(&goto_ia) {
-                Some(j) => {
-                    goto.insert(
-                        (i as u32, *production_name),
-                        *lr_to_lalr.get(&j).expect("LR -> LALR"),
-                    );
-                }
-                None => match lalr_sets.get_index_of(&goto_ia) {
-                    Some(j) => {
-                        goto.insert((i as u32, *production_name), j);
-                    }
-                    None => (),
-                },
+            let goto_idx = compute_goto(
+                state,
+                &Symbol::NonTerminal(*production_name),
+                grammar,
+                lr_sets,
+                lr_to_lalr,
+                lalr_sets,
+            );
+
+            if let Some(j) = goto_idx {
+                goto.insert((i as u32, *production_name), j);
             }
         }
     }
-- 
2.43.0


From 68fdefbb8841270c5603bc3521cec9c99fa2772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 07/17] fix: take the text of a token by characters, not by
 bytes

---
 src/lex/lex.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..541743e 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -186,7 +186,7 @@ impl Lex {
                     {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, last_accepting_idx);
                         let tok = self.make_tok(
-                            input,
+                            &chars,
                             lexeme_begin,
                             last_accepting_idx,
                             last_accepting_state_idx,
@@ -211,7 +211,7 @@ impl Lex {
         if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
             tokens.push(self.make_tok(
-                input,
+                &chars,
                 lexeme_begin,
                 _last_accepting_idx,
                 last_accepting_state_idx,
@@ -223,7 +223,7 @@ impl Lex {
 
     fn make_tok(
         &self,
-        input: &str,
+        chars: &[char],
         start: usize,
         end: usize,
         last_accepting_state_idx: StateIdx,
@@ -235,7 +235,7 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                let val: String = chars[start..(end + 1)].iter().collect();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From 1c3dcac02a5e7d0935205cf4d5ac72ded555486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 08/17] fix: lex what follows the last token when a longer
 match fails at the end of the input

The text after the last accepting position was dropped at the end of the
input. Likewise skip whitespace at which a token starts that does not
match, instead of ending the token list there.
---
 src/lex/lex.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 541743e..5516df0 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,10 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        while lexeme_begin < chars.len() {
+            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {
+                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -180,6 +178,7 @@ impl Lex {
                     state_idx = edge.to;
                     forward += 1;
                 }
+                // No longer match is possible, here or because the input ends
                 None => {
                     if let Some((last_accepting_idx, last_accepting_state_idx)) =
                         last_accepting_state
@@ -194,30 +193,19 @@ impl Lex {
                         tokens.push(tok);
 
                         lexeme_begin = last_accepting_idx + 1;
-                        forward = last_accepting_idx + 1;
-                        state_idx = StateIdx(0);
-
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
-                        forward += 1;
+                    } else if Self::is_whitespace(chars[lexeme_begin]) {
                         lexeme_begin += 1;
                     } else {
                         break;
                     }
+
+                    forward = lexeme_begin;
+                    state_idx = StateIdx(0);
                 }
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                &chars,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From 16668a679e82214e94c15a8da5597a648b698bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 09/17] fix: reject input of which some part is no token
 instead of parsing what comes before

---
 src/lalr.rs    | 5 ++++-
 src/lex/lex.rs | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..743d71e 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -42,7 +42,10 @@ impl<'ast> Lalr<'ast> {
     }
 
     pub fn parse(&self, input: &str) -> String {
-        let tokens = self.lexer.lex(input);
+        let (tokens, lexed) = self.lexer.lex_prefix(input);
+        if let Some(c) = input.chars().nth(lexed) {
+            panic!("Invalid character: {:?} (character {} of the input)", c, lexed);
+        }
         let tokens_with_idx = self.lexer.convert_tokens(tokens);
 
         self.parse_impl(&tokens_with_idx)
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 5516df0..95d2f4d 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -154,7 +154,14 @@ impl Lex {
         }
     }
 
+    /// The tokens of the longest part of the input that can be split into tokens
     pub fn lex(&self, input: &str) -> Vec<Token> {
+        self.lex_prefix(input).0
+    }
+
+    /// The tokens of the longest part of the input that can be split into tokens, and the number
+    /// of characters in that part
+    pub fn lex_prefix(&self, input: &str) -> (Vec<Token>, usize) {
         let chars: Vec<char> = input.chars().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -206,7 +213,7 @@ impl Lex {
             }
         }
 
-        tokens
+        (tokens, lexeme_begin)
     }
 
     fn make_tok(
-- 
2.43.0


From a4b09dfbaffba4fc7ac6538eeab15e0071b552d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 10/17] fix: give distinct kinds to a literal and a regex of
 the same text and to the end marker

---
 src/codegen/parse_gen.rs |  6 +++---
 src/lex/lex.rs           |  7 ++++---
 src/parser/mod.rs        | 20 ++++++++++++++++++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..026766b 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -283,11 +283,11 @@ export type Token =
                 .filter(|(_, s)| Symbol::is_terminal(s))
             {
                 let name = match terminal {
-                    Symbol::StrLit(strlit) => strlit,
-                    Symbol::Regex(r) => r,
+                    Symbol::StrLit(_) | Symbol::Regex(_) | Symbol::Eof => {
+                        self.grammar.token_kind(terminal)
+                    }
                     Symbol::NonTerminal(_) => continue,
                     Symbol::Epsilon => continue,
-                    Symbol::Eof => "EOF",
                 };
                 writeln!(w, "'{}': {}", name, idx)?;
             }
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 95d2f4d..f85584e 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -56,12 +56,13 @@ impl Lex {
         let mut tokens = Vec::new();
 
         for (idx, tok) in grammar.tokens().enumerate() {
-            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {
+            let (mut token_def, regex) = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {
                 Some(t) => t,
                 None => continue,
             };
+            token_def.name = grammar.token_kind(tok);
 
-            tokens.push(token_def_with_regex);
+            tokens.push((token_def, regex));
         }
 
         Self::from_tokens(tokens)
@@ -133,7 +134,7 @@ impl Lex {
         tokens
             .into_iter()
             .map(|token| self.token_with_idx(token, &def_map))
-            .chain(std::iter::once((Token{ name: "EOF".into(), val: None}, Grammar::EOF_TOKEN_IDX)))
+            .chain(std::iter::once((Token{ name: Grammar::EOF_TOKEN_KIND.into(), val: None}, Grammar::EOF_TOKEN_IDX)))
             .collect()
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a7e1e0a..3985dab 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -53,6 +53,8 @@ impl<'ast> Grammar<'ast> {
     // S' -> S
     pub const AUGMENTED_START_PRODUCTION_IDX: ProductionIdx = ProductionIdx(0);
     pub const EOF_TOKEN_IDX: TokenIdx = TokenIdx(0);
+    /// The kind of the end marker
+    pub const EOF_TOKEN_KIND: &'static str = "EOF";
 
     pub fn grammar_from_ast_productions(
         bump: &'ast Bump,
@@ -165,6 +167,24 @@ impl<'ast> Grammar<'ast> {
         self.tokens.get(idx.0 as usize)
     }
 
+    /// The kind of the tokens recognised as the given terminal: its text, which is quoted if it
+    /// alone would not tell the terminal from the other ones
+    pub fn token_kind(&self, terminal: &Symbol) -> String {
+        match terminal {
+            Symbol::StrLit(str_lit) if *str_lit == Self::EOF_TOKEN_KIND => {
+                format!("\"{}\"", str_lit)
+            }
+            Symbol::Regex(regex)
+                if *regex == Self::EOF_TOKEN_KIND
+                    || self.tokens.contains(&Symbol::StrLit(regex)) =>
+            {
+                format!("r\"{}\"", regex)
+            }
+            Symbol::Eof => Self::EOF_TOKEN_KIND.to_string(),
+            terminal => terminal.to_string(),
+        }
+    }
+
     pub fn get_token_idx(&self, input_token: &Symbol) -> Option<TokenIdx> {
         self.tokens.iter().enumerate().find_map(|(idx, tok)| {
             if tok.eq(input_token) {
-- 
2.43.0


From 12d7efd906b3cb4c011756e3ff8728787bc34b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 11/17] fix: generate valid TypeScript for labelled regexes

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 026766b..ad50fe9 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 7d09a6b86535a2a7c6ac6e97918ddd07db970e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 12/17] fix: escape the text of literals and regexes in the
 generated TypeScript

---
 src/codegen.rs           | 20 ++++++++++++++++++++
 src/codegen/lex_gen.rs   | 15 +++++++++------
 src/codegen/parse_gen.rs | 17 +++++++++++------
 3 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 89ddac7..2dd6b6f 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,2 +1,22 @@
 pub mod lex_gen;
 pub mod parse_gen;
+
+/// A TypeScript string literal denoting the given text
+fn string_literal(text: &str) -> String {
+    let mut ret = String::with_capacity(text.len() + 2);
+
+    ret.push('"');
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => ret.extend(['\\', c]),
+            '\n' => ret.push_str("\\n"),
+            '\r' => ret.push_str("\\r"),
+            '\u{2028}' | '\u{2029}' => ret.push_str(&format!("\\u{:04x}", c as u32)),
+            c if c.is_control() => ret.push_str(&format!("\\u{:04x}", c as u32)),
+            c => ret.push(c),
+        }
+    }
+    ret.push('"');
+
+    ret
+}
diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..74c41bb 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -27,10 +27,13 @@ fn nice_case(s: &str) -> String {
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
-    use crate::lex::{
-        dfa::DFA,
-        lex::Lex,
-        nfa::{Match, StateIdx},
+    use crate::{
+        codegen::string_literal,
+        lex::{
+            dfa::DFA,
+            lex::Lex,
+            nfa::{Match, StateIdx},
+        },
     };
 
     #[derive(Clone, Debug)]
@@ -94,13 +97,13 @@ mod ts {
             for (i, (kind, has_value)) in self.tokens.iter() {
                 ret.push_str(&format!(
                     r#"type TokenDef{} = {{
-                    kind: "{}",
+                    kind: {},
                     hasValue: {}
                 }}
                 
                 "#,
                     i,
-                    kind,
+                    string_literal(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ad50fe9..1982445 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::string_literal,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -202,8 +203,10 @@ export type Token =
                 write!(
                     w,
                     r#"
-                {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                {}: {{ kind: "{}", value: {} }}"#,
+                    i,
+                    kind,
+                    string_literal(value)
                 )?;
             }
 
@@ -289,7 +292,7 @@ export type Token =
                     Symbol::NonTerminal(_) => continue,
                     Symbol::Epsilon => continue,
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "{}: {}", string_literal(&name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -496,8 +499,10 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name, named_sym.name, str_lit,
+                            "__{}['token']['value'] extends infer {} extends {}",
+                            named_sym.name,
+                            named_sym.name,
+                            string_literal(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
@@ -566,7 +571,7 @@ export type Token =
                     Ok(true)
                 }
                 ActionImplParam::StrLit(lit) if !is_top => {
-                    write!(w, "\"{}\"", lit)?;
+                    w.write_str(&string_literal(lit))?;
                     Ok(true)
                 }
                 ActionImplParam::Regex(_r) if !is_top => {
-- 
2.43.0


From 25305ceffc923df5a33ca5215c51615fe5922b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 13/17] fix: do not match character ranges beyond the
 arithmetic tables in the type-level lexer

---
 ts/lex.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts/lex.ts b/ts/lex.ts
index 7632737..1c66765 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -61,7 +61,12 @@ type TokenDefToToken<
     : never
   : never;
 
+// No label is in a range that starts beyond the arithmetic tables, where comparing gives `never`
 type RangeContains<range extends CharRange, labelIdx extends number> = [
+  U.Gte<labelIdx, range["from"]>
+] extends [never]
+  ? false
+  : [
   U.Gte<labelIdx, range["from"]>,
   U.Lt<labelIdx, range["to"]>
 ] extends [true, true]
-- 
2.43.0


From abdf4105157386ccfe89e2a95911b5b5b74566c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 14/17] fix: return the error for unsupported characters from
 the type-level lexer

---
 ts/lex.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 1c66765..49c35b6 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -180,9 +180,18 @@ type LexImpl<
     : `invalid char: ${char}`
   : [tokens, lastAcceptingState, lexemeBegin, undefined];
 
-export type Lex<fullInput extends string> = LexImpl<
+export type Lex<fullInput extends string> = StringToCharList<
   fullInput,
-  StringToCharList<fullInput, []>,
+  []
+> extends infer chars
+  ? chars extends string[]
+    ? LexChars<fullInput, chars>
+    : chars // it's an error message so return it
+  : "unreachable: inferring `chars` should always work";
+
+type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
+  fullInput,
+  chars,
   0,
   [],
   0,
-- 
2.43.0


From b885eef54f6294cc11871a4aba296825399d9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 15/17] fix: lex what follows the last token at the end of the
 input in the type-level lexer

As in the lexer itself: the text after the last accepting position was
dropped at the end of the input, text that is only a part of a token was
dropped without an error, and whitespace at which a token starts that does
not match was an error.
---
 ts/lex.ts | 131 ++++++++++++++++++++++++++----------------------------
 1 file changed, 64 insertions(+), 67 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 49c35b6..0e8bf5d 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -131,54 +131,76 @@ type LexImpl<
               : lastAcceptingState
           >
         : // No matching edge
-        lastAcceptingState extends [
-            lastAcceptingIdx: number,
-            lastAcceptingStateIdx: number
-          ]
-        ? lastAcceptingState[1] extends keyof DFAtoNFA
-          ? LexImpl<
-              inputStr,
-              fullInput,
-              0,
-              [
-                TokenDefToToken<
-                  lastAcceptingState[1],
-                  inputStr,
-                  lexemeBegin,
-                  lastAcceptingState[0]
-                >,
-                ...tokens
-              ],
-              U.Succ<lastAcceptingState[0]>,
-              U.Succ<lastAcceptingState[0]>,
-              charBuf,
-              undefined
-            >
-          : "unreachable: accepting state idx should always be a keyof Tokens"
-        : [U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
-            true,
-            true
-          ]
-        ? LexImpl<
+          LexLongest<
             inputStr,
             fullInput,
-            stateIdx,
             tokens,
-            U.Succ<lexemeBegin>,
-            U.Succ<forward>,
+            lexemeBegin,
             charBuf,
             lastAcceptingState
           >
-        : // otherwise it's an invalid symbol, break
-          [
-            tokens,
-            lastAcceptingState,
-            lexemeBegin,
-            `invalid symbol: \`${char}\` at index ${forward}`
-          ]
       : "unreachable: inferring `maybeNewStateIdx` should always work"
     : `invalid char: ${char}`
-  : [tokens, lastAcceptingState, lexemeBegin, undefined];
+  : forward extends lexemeBegin
+  ? [tokens, undefined]
+  : // The input ends within a lexeme
+    LexLongest<
+      inputStr,
+      fullInput,
+      tokens,
+      lexemeBegin,
+      charBuf,
+      lastAcceptingState
+    >;
+
+// The lexeme can't get any longer: take the longest match and carry on behind it
+type LexLongest<
+  inputStr extends string,
+  fullInput extends string[],
+  tokens extends Token[],
+  lexemeBegin extends number,
+  charBuf extends string[],
+  lastAcceptingState extends [forward: number, stateIdx: number] | undefined
+> = lastAcceptingState extends [
+  lastAcceptingIdx: number,
+  lastAcceptingStateIdx: number
+]
+  ? lastAcceptingState[1] extends keyof DFAtoNFA
+    ? LexImpl<
+        inputStr,
+        fullInput,
+        0,
+        [
+          TokenDefToToken<
+            lastAcceptingState[1],
+            inputStr,
+            lexemeBegin,
+            lastAcceptingState[0]
+          >,
+          ...tokens
+        ],
+        U.Succ<lastAcceptingState[0]>,
+        U.Succ<lastAcceptingState[0]>,
+        charBuf,
+        undefined
+      >
+    : "unreachable: accepting state idx should always be a keyof Tokens"
+  : U.IsWhitespace<fullInput[lexemeBegin]> extends true
+  ? LexImpl<
+      inputStr,
+      fullInput,
+      0,
+      tokens,
+      U.Succ<lexemeBegin>,
+      U.Succ<lexemeBegin>,
+      charBuf,
+      undefined
+    >
+  : // otherwise it's an invalid symbol, break
+    [
+      tokens,
+      `invalid symbol: \`${fullInput[lexemeBegin]}\` at index ${lexemeBegin}`
+    ];
 
 export type Lex<fullInput extends string> = StringToCharList<
   fullInput,
@@ -198,35 +220,10 @@ type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
   0,
   [],
   undefined
-> extends [
-  infer tokens,
-  infer lastAcceptingState,
-  infer lexemeBegin,
-  infer error
-]
+> extends [infer tokens, infer error]
   ? error extends string
     ? error
-    : lastAcceptingState extends [forward: number, stateIdx: number]
-    ? tokens extends any[]
-      ? lastAcceptingState[1] extends number
-        ? lexemeBegin extends number
-          ? U.Reverse<
-              [
-                { kind: "EOF" },
-                // `lexemeBegin: ${lexemeBegin} forward: ${lastAcceptingState[0]}`,
-                TokenDefToToken<
-                  lastAcceptingState[1],
-                  fullInput,
-                  lexemeBegin,
-                  lastAcceptingState[0]
-                >,
-                ...tokens
-              ]
-            >
-          : "unreachable: `lexemeBegin` begin should always be a number"
-        : lastAcceptingState
-      : "unreachable: tokens should be an array"
     : tokens extends any[]
     ? U.Reverse<[{ kind: "EOF" }, ...tokens]>
     : "unreachable: tokens should be an array"
-  : "unreachable: inferring `tokens` and `lastAcceptingState` should always work";
+  : "unreachable: inferring `tokens` should always work";
-- 
2.43.0


From f2211fc478da3d0b1f79f0157baa00f6df7584d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 16/17] fix: constrain the value of a labelled rule to the
 rule's type whatever the labels are called

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 1982445..104a181 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -484,7 +484,7 @@ export type Token =
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends {} }}",
+                            "__{} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
                             named_sym.name, non_terminal, named_sym.name, non_terminal
                         ));
 
-- 
2.43.0


From ead19a7a1d9abc388648d5f9a696e5baf88e286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 17/17] fix: name what the generated actions infer so that no
 label can clash with it

---
 src/codegen/parse_gen.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 104a181..a45b30f 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -386,7 +386,7 @@ export type Token =
                 "{{ kind: '{}', value: {} }},",
                 self.production_name, self.action_impl.code
             )?;
-            buf.push_str("...newStack]");
+            buf.push_str("...$$newStack]");
 
             Ok(buf)
         }
@@ -402,7 +402,7 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]", self.pop_amount)
+                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer $$newStack, infer $$poppedValues]", self.pop_amount)
                 },
                 |w| {
                     // w.write_str("symbolStack")?;
@@ -425,15 +425,15 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    w.write_str("poppedValues extends [")?;
+                    w.write_str("$$poppedValues extends [")?;
                     let mut i = 0;
                     for sym in &self.action_impl.inputs {
                         match sym {
                             ActionImplParam::Named(NamedActionImplParam { name, .. }) => {
-                                write!(w, "infer __{},", name.as_ref())?
+                                write!(w, "infer ${},", name.as_ref())?
                             }
                             _ => {
-                                write!(w, "infer var{},", i)?;
+                                write!(w, "infer ${},", i)?;
                                 i += 1;
                             }
                         }
@@ -444,12 +444,12 @@ export type Token =
                 |w| {
                     write_condition(
                         w,
-                        |w| w.write_str("newStack extends type_defs.Symbol[]"),
+                        |w| w.write_str("$$newStack extends type_defs.Symbol[]"),
                         |w| self.validate_params(w, call_impl.clone()),
                         |w| {
                             write!(
                                 w,
-                                r#"`unreachable: \`newStack\` should always be a type_defs.Symbol[] (Action{})`"#,
+                                r#"`unreachable: \`$$newStack\` should always be a type_defs.Symbol[] (Action{})`"#,
                                 action_idx.0
                             )
                         },
@@ -484,7 +484,7 @@ export type Token =
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
+                            "${} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
                             named_sym.name, non_terminal, named_sym.name, non_terminal
                         ));
 
@@ -495,11 +495,11 @@ export type Token =
                     }
                     ActionImplParam::StrLit(str_lit) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends {}",
+                            "${}['token']['value'] extends infer {} extends {}",
                             named_sym.name,
                             named_sym.name,
                             string_literal(str_lit),
@@ -515,11 +515,11 @@ export type Token =
                     }
                     ActionImplParam::Regex(_) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends string",
+                            "${}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0

