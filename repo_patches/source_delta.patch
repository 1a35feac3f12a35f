From 19a37553a12c8feb5bacb10c29b6019615579c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:15 +0000
Subject: [PATCH 01/53] fix: prefix_to_previous_leaf was empty for zero-length
 leaves that start a node

---
 crates/parsa/src/lib.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 723feeb..362f65d 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -176,13 +176,6 @@ macro_rules! __create_node {
                         start = node.start_index + node.length;
                         break
                     }
-                    if node.start_index >= self.internal_node.start_index + self.internal_node.length {
-                        let start = self.internal_node.start_index + self.internal_node.length;
-                        return self.code_slice(
-                            start,
-                            node.start_index,
-                        );
-                    }
                 }
                 self.code_slice(start, self.internal_node.start_index)
             }
-- 
2.43.0


From c13d1f03853c0ff908bbffcb7682efd33e6d3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:15 +0000
Subject: [PATCH 02/53] fix: accept a backslash followed by a CRLF line ending
 in single-line f-strings

---
 crates/parsa_python/src/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1fc3f15..8bfff19 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -293,6 +293,9 @@ impl PythonTokenizer<'_> {
                     }
                     if next != '{' && next != '}' {
                         iterator.next();
+                        if next == '\r' && matches!(iterator.peek(), Some((_, '\n'))) {
+                            iterator.next();
+                        }
 
                         if in_expr {
                             self.index += i + 2;
-- 
2.43.0


From 49b98e10c66489d9bd66d7358cdb9cf3f4961b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:42 +0000
Subject: [PATCH 03/53] fix: recognize with items of async with statements

---
 crates/parsa_python_cst/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5e252c6..1c46c0d 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -1772,7 +1772,8 @@ impl<'db> WithItem<'db> {
 
     pub fn in_async_with_stmt(&self) -> bool {
         let with = self.node.parent().unwrap().parent().unwrap();
-        with.is_type(Nonterminal(async_stmt))
+        with.parent()
+            .is_some_and(|n| n.is_type(Nonterminal(async_stmt)))
     }
 }
 
-- 
2.43.0


From 006a5f208afd34d8eac7d43bb117b2f172909c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:14 +0000
Subject: [PATCH 04/53] fix: a format spec of a nested f-string field ends with
 that field

---
 crates/parsa_python/src/tokenizer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 8bfff19..8c02a0e 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -125,10 +125,9 @@ impl FStringNode {
         if self.parentheses_level > 0 {
             self.parentheses_level -= 1;
         }
-        if self.parentheses_level == 0 {
-            // No parentheses means that the format spec is also finished.
-            self.format_spec_count = 0
-        }
+        // Closing a replacement field also finishes its format spec (but not the format spec that
+        // the field might be nested in).
+        self.format_spec_count = self.format_spec_count.min(self.parentheses_level);
     }
 
     #[inline]
-- 
2.43.0


From f1ca5f3efe3e436db38013ffcd08a5114ea1310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:16 +0000
Subject: [PATCH 05/53] fix: do not insert an omittable tree node twice when
 backtracking

---
 crates/parsa/src/grammar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 59f629a..eb53432 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -590,7 +590,12 @@ impl<'a, T: Token> Grammar<T> {
                     replay,
                     reusable_first_nonterminal,
                 } => {
-                    let children_count = tos.children_count - 1;
+                    let mut children_count = tos.children_count - 1;
+                    if tos.dfa_state.node_may_be_omitted && children_count == 1 {
+                        // The tree node was inserted above and backtracking does not remove it, so
+                        // make sure that it is not inserted a second time.
+                        children_count += 1;
+                    }
                     enabled_token_recording = true;
                     stack.stack_nodes.push(StackNode {
                         node_id: push.node_type,
-- 
2.43.0


From 6a8289d355da1cba446d68173d80ed3f02e62164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:46 +0000
Subject: [PATCH 06/53] fix: reset the latest child when reusing the first node
 of a failed alternative

---
 crates/parsa/src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index eb53432..ad1f9cb 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -361,6 +361,8 @@ impl<'a, T: Token> Grammar<T> {
                         let tos_mut = stack.tos_mut();
                         tos_mut.mode = alternative;
                         tos_mut.dfa_state = fallback_plan.next_dfa();
+                        // The first alternative might have added children after the reused one.
+                        tos_mut.latest_child_node_index = c;
                         stack.tree_nodes.truncate(last_leaf_index + 1);
                         // Make sure the tree nodes have the right size to overwrite them later.
                         // It doesn't matter where we insert/remove, everything should be
-- 
2.43.0


From 84010ff552cdac9851ccd4b56a910974bc07aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:58 +0000
Subject: [PATCH 07/53] fix: keep the number of children when replaying the
 first alternative

---
 crates/parsa/src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index ad1f9cb..ca199a0 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -458,7 +458,7 @@ impl<'a, T: Token> Grammar<T> {
                         let t = reset(backtracking, stack, backtracking_tokenizer);
                         // Pop the LastAlternative that is still on the stack.
                         stack.stack_nodes.pop();
-                        stack.tos_mut().children_count = 0;
+                        stack.tos_mut().children_count = backtracking.children_count;
                         self.apply_plan(
                             stack,
                             backtracking.replay_plan,
-- 
2.43.0


From e01ceefa8c9adf1bdf59fd0fde87e5de77a95c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 08/53] fix: do not lose tokens that are rejected by a negative
 lookahead

---
 crates/parsa/src/grammar.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index ca199a0..48f7afb 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -240,6 +240,17 @@ impl<'a, T: Token> Grammar<T> {
                     if plan.mode == PlanMode::PositivePeek {
                         let tos_mut = stack.tos_mut();
                         tos_mut.dfa_state = plan.next_dfa();
+                    } else if plan.next_dfa().is_negative_lookahead() {
+                        // The token does not belong to this node, recover right away. Otherwise
+                        // it would be lost if there is no alternative that is able to replay it.
+                        stack.tos_mut().dfa_state = plan.next_dfa();
+                        self.error_recovery(
+                            stack,
+                            backtracking_tokenizer,
+                            Some(transition),
+                            Some(token),
+                        );
+                        return;
                     } else {
                         self.apply_plan(stack, plan, token, backtracking_tokenizer);
                         break;
-- 
2.43.0


From 2c51686027d64051e38d7ccd3f8f0cad76182941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 09/53] fix: a double quote ends the innermost f-string, like a
 single quote does

---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 8c02a0e..01e9293 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -244,7 +244,7 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '"' {
-                for (j, node) in self.f_string_stack.iter().enumerate() {
+                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
                     let quote = node.quote;
                     match quote {
                         QuoteType::Double => return self.end_f_string(i, j, quote),
-- 
2.43.0


From e724c41503599b4f667b8b9172f5a42ca220bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 10/53] fix: only a non-raw f-string contains unicode character
 names

---
 crates/parsa_python/src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 01e9293..3805ff8 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -38,7 +38,7 @@ lazy_static::lazy_static! {
 
     static ref NEWLINE: Regex = r(r"^(\r\n?|\n)");
     static ref F_STRING_START: Regex = r(r#"^([Ff][Rr]?|[Rr][Ff])("""|'''|'|")"#);
-    static ref UNICODE_CHARACTER_NAME: Regex = r(r"\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
+    static ref UNICODE_CHARACTER_NAME: Regex = r(r"^\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
 
     static ref ALWAYS_BREAK_NAMES: HashSet<&'static str> = [
         "import", "class", "def", "try", "except",
@@ -110,6 +110,7 @@ enum QuoteType {
 #[derive(Debug)]
 struct FStringNode {
     quote: QuoteType,
+    is_raw: bool,
     parentheses_level: usize,
     format_spec_count: usize,
 }
@@ -284,6 +285,7 @@ impl PythonTokenizer<'_> {
             } else if character == '\\' {
                 if let Some(&(_, next)) = iterator.peek() {
                     if next == 'N'
+                        && !self.f_string_tos().is_raw
                         && let Some(match_) = UNICODE_CHARACTER_NAME
                             .find(code_from_start(self.code, self.index + i + 2))
                     {
@@ -552,6 +554,7 @@ impl Iterator for PythonTokenizer<'_> {
                         QuoteType::Single
                     }
                 },
+                is_raw: match_.as_str().contains(['r', 'R']),
                 parentheses_level: 0,
                 format_spec_count: 0,
             });
-- 
2.43.0


From 4ab54af1a25b294bf5654606a42c00a5385549bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 11/53] fix: a format spec may start after whitespace

---
 crates/parsa_python/src/tokenizer.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 3805ff8..801b99b 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -216,18 +216,6 @@ impl PythonTokenizer<'_> {
     fn handle_fstring_stack(&mut self) -> Option<PyTerminal> {
         let in_expr = self.f_string_tos().in_expr();
         if in_expr {
-            if *self.code.as_bytes().get(self.index)? == b':' {
-                let tos = self.f_string_tos();
-                if tos.parentheses_level - tos.format_spec_count == 1 {
-                    tos.format_spec_count += 1;
-                    self.index += 1;
-                    // We cannot just return None here, because otherwise := would be tokenized
-                    // the wrong way.
-                    return self.new_tok(self.index - 1, true, TerminalType::Operator);
-                }
-                // By returning here, we are making sure that the normal
-                // tokenizer returns the as an operator.
-            }
             return None;
         }
         let c = code_from_start(self.code, self.index);
@@ -491,6 +479,18 @@ impl Iterator for PythonTokenizer<'_> {
             self.previous_token_was_newline = false;
         }
 
+        if c.starts_with(':')
+            && let Some(tos) = self.f_string_stack.last_mut()
+            && tos.in_expr()
+            && tos.parentheses_level - tos.format_spec_count == 1
+        {
+            // This starts a format spec. It cannot be handled like a normal operator, because
+            // otherwise := would be tokenized the wrong way.
+            tos.format_spec_count += 1;
+            self.index += 1;
+            return self.new_tok(start, true, TerminalType::Operator);
+        }
+
         if let Some(match_) = NUMBER.find(c) {
             self.index += match_.end();
             return self.new_tok(start, false, TerminalType::Number);
-- 
2.43.0


From fb7517d09e07ee93e9908ad59626041aba837e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 12/53] fix: the quotes of an outer f-string do not end a
 nested f-string

---
 crates/parsa_python/src/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 801b99b..ecdea2d 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -233,7 +233,7 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '"' {
-                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
+                if let Some((j, node)) = self.f_string_stack.iter().enumerate().next_back() {
                     let quote = node.quote;
                     match quote {
                         QuoteType::Double => return self.end_f_string(i, j, quote),
@@ -246,7 +246,7 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '\'' {
-                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
+                if let Some((j, node)) = self.f_string_stack.iter().enumerate().next_back() {
                     let quote = node.quote;
                     match quote {
                         QuoteType::Single => return self.end_f_string(i, j, quote),
-- 
2.43.0


From d742725e7540de37d48a92a0f4d27fc493c1e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 13/53] fix: a multiline f-string may be nested in a
 single-line f-string

---
 crates/parsa_python/src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index ecdea2d..ff986f9 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -292,7 +292,9 @@ impl PythonTokenizer<'_> {
                         }
                     }
                 }
-            } else if character == '\n' || character == '\r' {
+            } else if (character == '\n' || character == '\r')
+                && !self.f_string_tos().allow_multiline()
+            {
                 // Check if there is an f-string on the stack that allows no newlines.
                 match self
                     .f_string_stack
-- 
2.43.0


From 6d9449c5418a565036eab37a1bd37685e1444bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:54 +0000
Subject: [PATCH 14/53] fix: require a comma between positional and keyword
 patterns of a class pattern

---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index d404f40..dc029f4 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -225,7 +225,7 @@ create_grammar!(
 
     class_pattern: dotted_pattern_name "(" param_patterns? ")"
     param_patterns:
-          ",".(pattern !"=")+ [",".(keyword_pattern)+] ","?
+          ",".(pattern !"=")+ ["," ",".(keyword_pattern)+] ","?
         | ",".(keyword_pattern)+ ","?
     keyword_pattern: Name "=" pattern
     dotted_pattern_name: [dotted_pattern_name "."] Name
-- 
2.43.0


From 0ef1452d3ef30dbea985d49764c1190dc98f116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:37 +0000
Subject: [PATCH 15/53] fix: only a bitwise or may follow the star in a
 display, like in CPython

---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index dc029f4..9bf21c6 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -263,7 +263,7 @@ create_grammar!(
     star_expressions: ",".(expression|star_expression)+ [","]
     star_expression: "*" bitwise_or
     star_named_expressions: ",".star_named_expression+ [","]
-    star_named_expression:? "*" disjunction | named_expression
+    star_named_expression:? "*" bitwise_or | named_expression
 
     named_expression: expression !":=" | walrus
     walrus: name_def ":=" expression
-- 
2.43.0


From d12c529e01708c8791db6eec31b9a77f736a1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:15 +0000
Subject: [PATCH 16/53] fix: the debug output of a node cut its code within a
 character

---
 crates/parsa/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 362f65d..1476d18 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -424,8 +424,8 @@ macro_rules! __create_node {
             fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                 let mut code = self.as_code();
                 let x;
-                if code.len() > 40 {
-                    x = code[..40].to_owned() + "...";
+                if let Some((end, _)) = code.char_indices().nth(40) {
+                    x = code[..end].to_owned() + "...";
                     code = &x;
                 }
                 let until_code = &self.internal_tree.code.as_ref()[..self.start() as usize];
-- 
2.43.0


From f1014384ed077ab0e6f2a8c680e67f1481243bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:08 +0000
Subject: [PATCH 17/53] fix: an incomplete hex escape in a literal swallowed
 following characters and could panic

---
 crates/parsa_python_cst/src/bytes.rs   |  4 ++--
 crates/parsa_python_cst/src/strings.rs | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 9dc375a..4d8f0ef 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -11,7 +11,7 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     if unpacked.had_raw_modifier {
         return Cow::Borrowed(inner_bytes);
     }
-    let mut iterator = inner_bytes.iter().enumerate();
+    let mut iterator = inner_bytes.iter().enumerate().peekable();
     let mut previous_insert = 0;
     let mut out = None;
     while let Some((i, ch)) = iterator.next() {
@@ -28,7 +28,7 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
                 b'x' => {
-                    if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                    if let Some(c) = parse_hex(2, &mut iterator) {
                         s.push(c as u8);
                         previous_insert += 2;
                     }
diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index beb2235..a3a90f8 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -1,4 +1,4 @@
-use std::borrow::Cow;
+use std::{borrow::Cow, iter::Peekable};
 
 use parsa_python::{
     CodeIndex, NonterminalType::fstring, PyNode, PyNodeType::Nonterminal, SiblingIterator,
@@ -67,17 +67,17 @@ impl<'db> PythonString<'db> {
                             }
                         }
                         b'u' => {
-                            if let Some(c) = parse_hex(4, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(4, &mut iterator) {
                                 s.push(c)
                             }
                         }
                         b'U' => {
-                            if let Some(c) = parse_hex(8, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(8, &mut iterator) {
                                 s.push(c)
                             }
                         }
                         b'x' => {
-                            if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(2, &mut iterator) {
                                 s.push(c)
                             }
                         }
@@ -201,18 +201,19 @@ impl<'db> PythonString<'db> {
 
 pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
     count: usize,
-    iterator: I,
+    iterator: &mut Peekable<I>,
 ) -> Option<char> {
     let mut number = 0;
-    for (i, (_, x)) in iterator.take(count).enumerate() {
+    for i in 0..count {
+        // Only hex digits may be consumed, whatever follows (e.g. a multi byte character or a
+        // backslash) is not part of the escape.
+        let (_, x) = iterator.next_if(|(_, x)| x.is_ascii_hexdigit())?;
         let digit = if x.is_ascii_digit() {
             *x - b'0'
         } else if (b'a'..=b'f').contains(x) {
             *x - b'a' + 10
-        } else if (b'A'..=b'F').contains(x) {
-            *x - b'A' + 10
         } else {
-            return None;
+            *x - b'A' + 10
         };
         number += (digit as u32) << ((count - i - 1) * 4);
     }
-- 
2.43.0


From 14628d09ea07be9b2f40473a98ac444d3bd2b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 18/53] fix: bytes literals did not normalize line endings like
 string literals do

---
 crates/parsa_python_cst/src/bytes.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 4d8f0ef..3df6d30 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -9,6 +9,10 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     let unpacked = unpack_string_or_bytes_content(code);
     let inner_bytes = unpacked.inner.as_bytes();
     if unpacked.had_raw_modifier {
+        if unpacked.inner.contains('\r') {
+            let inner = unpacked.inner.replace("\r\n", "\n").replace('\r', "\n");
+            return Cow::Owned(inner.into_bytes());
+        }
         return Cow::Borrowed(inner_bytes);
     }
     let mut iterator = inner_bytes.iter().enumerate().peekable();
@@ -27,6 +31,12 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
             match ch {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
+                b'\r' => {
+                    // Escaping a carriage return ignores it and maybe also the next newline
+                    if iterator.next_if(|(_, x)| **x == b'\n').is_some() {
+                        previous_insert += 1;
+                    }
+                }
                 b'x' => {
                     if let Some(c) = parse_hex(2, &mut iterator) {
                         s.push(c as u8);
@@ -55,6 +65,14 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                     }
                 }
             }
+        } else if ch == &b'\r' {
+            // Python replaces both \r\n and \r with \n
+            let s = out.get_or_insert_with(|| Vec::with_capacity(inner_bytes.len()));
+            s.extend_from_slice(&inner_bytes[previous_insert..i]);
+            previous_insert = i + 1;
+            if !matches!(iterator.peek(), Some((_, b'\n'))) {
+                s.push(b'\n');
+            }
         }
     }
     if let Some(mut out) = out {
-- 
2.43.0


From 219027b5ca67d1dff5ba90a4d98fbaa9a2b6f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:29 +0000
Subject: [PATCH 19/53] fix: the content of triple-quoted string literals
 included two of the quotes

---
 crates/parsa_python_cst/src/lib.rs | 48 ++++--------------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 1c46c0d..7226ed7 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -29,6 +29,7 @@ use parsa_python::{
 pub use ranges::Range;
 pub use signatures::{SignatureArg, SignatureArgsIterator, SignatureBase};
 pub use strings::PythonString;
+use strings::unpack_string_or_bytes_content;
 
 pub const NAME_DEF_TO_NAME_DIFFERENCE: u32 = 1;
 
@@ -4910,52 +4911,13 @@ impl<'db> BytesLiteral<'db> {
 
 impl<'db> StringLiteral<'db> {
     pub fn content(&self) -> &'db str {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return &code[start + 3..code.len() - 3];
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        &code[start..end]
+        unpack_string_or_bytes_content(self.node.as_code()).inner
     }
 
     fn content_start_and_end_in_literal_internal(&self) -> (usize, usize) {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return (start + 3, code.len() - 3);
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        (start + 1, code.len() - 1)
+        let unpacked = unpack_string_or_bytes_content(self.node.as_code());
+        let start = unpacked.inner_start_offset as usize;
+        (start, start + unpacked.inner.len())
     }
 
     pub fn content_start_and_end_in_literal(&self) -> (CodeIndex, CodeIndex) {
-- 
2.43.0


From 8edc88d0f5d900c2479ad256996f4bbd891e6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 20/53] fix: dedent panicked if lines are indented with
 different multi byte whitespace

---
 crates/utils/src/lib.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 49faa1c..085dd75 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -250,13 +250,8 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     }
     let new_lines: Vec<_> = lines
         .iter()
-        .map(|line| {
-            if line.len() >= indent {
-                &line[indent..]
-            } else {
-                line
-            }
-        })
+        // The indentation of lines may consist of different (multi byte) whitespace characters
+        .map(|line| line.get(indent..).unwrap_or(line))
         .collect();
     Cow::Owned(new_lines.join("\n"))
 }
-- 
2.43.0


From 72ad09d48638b6ca3cf79ae2c1e80d94438e13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:15 +0000
Subject: [PATCH 21/53] fix: the position of the codes of a type: ignore was
 off by one for each preceding line

---
 crates/parsa_python_cst/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 7226ed7..3b267f9 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -157,7 +157,6 @@ impl Tree {
                 }
                 start_at += comment.len() as CodeIndex + 1;
             }
-            start_at += 1;
         }
         result
     }
-- 
2.43.0


From 1d010983eb58f0d5879e00f3435f8592173cc8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 22/53] fix: signature help panicked within a call that is part
 of an assignment target

---
 crates/parsa_python_cst/src/signatures.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/signatures.rs b/crates/parsa_python_cst/src/signatures.rs
index eb30887..d5d8a91 100644
--- a/crates/parsa_python_cst/src/signatures.rs
+++ b/crates/parsa_python_cst/src/signatures.rs
@@ -49,7 +49,8 @@ impl Tree {
             if maybe_paren.as_code() != "(" || maybe_paren.end() > position {
                 continue;
             }
-            let base = ExpressionPart::new(first);
+            // Calls on nested targets like `a.b().c = 1` have no expression as a base
+            let base = ExpressionPart::maybe_new(first)?;
             let Some(maybe_args) = iterator.next() else {
                 return Some((
                     scope,
-- 
2.43.0


From 00ffcaf44f9db009a0c9b1c97603b05624e48b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 23/53] fix: asking for the function of a parameter panicked
 for incomplete functions

---
 crates/parsa_python_cst/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 3b267f9..a622b36 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -4695,8 +4695,11 @@ impl<'db> NameDef<'db> {
         ) {
             None
         } else {
-            let par = parent.parent_until(&[Nonterminal(function_def)]).unwrap();
-            Some(FunctionDef::new(par))
+            // The function might be incomplete
+            let par = parent
+                .parent_until(&[Nonterminal(function_def), ErrorNonterminal(function_def)])?;
+            par.is_type(Nonterminal(function_def))
+                .then(|| FunctionDef::new(par))
         }
     }
 
-- 
2.43.0


From 55efcf1011c084177822ca9c1b284f43bd33bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:37 +0000
Subject: [PATCH 24/53] fix: files depending on an open buffer were not
 invalidated after its directory was replaced

---
 crates/vfs/src/vfs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 3851511..f97a21e 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -754,6 +754,8 @@ impl<F: VfsFile> Vfs<F> {
             match ensured.kind {
                 AddedKind::FileEntry(file_entry) => {
                     file_entry.with_set_file_index(|| file_index);
+                    // Invalidations are registered on the entry within the tree
+                    self.file_state_mut(file_index).file_entry = file_entry;
                     self.handler.on_invalidated_in_memory_file(path);
                 }
                 AddedKind::Gitignore(_) => {
-- 
2.43.0


From cbe7a1cb0f81dd03ba5dd665e16fdfdad7fae1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 25/53] fix: elements of an InsertOnlyVec were accessed after
 the lock was released

---
 crates/utils/src/lib.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 085dd75..b35bec9 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -62,9 +62,10 @@ impl<T: ?Sized, P> Default for InsertOnlyVec<T, P> {
 
 impl<T: ?Sized + Unpin, P: Deref<Target = T>> InsertOnlyVec<T, P> {
     pub fn get(&self, index: usize) -> Option<&T> {
-        unsafe { &*self.vec.lock().unwrap().get() }
-            .get(index)
-            .map(|x| x as &T)
+        // The lock needs to be held until the element was found, because a concurrent push might
+        // reallocate the vec.
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.get(index).map(|x| x as &T)
     }
 
     /*
@@ -82,17 +83,18 @@ impl<T: ?Sized + Unpin, P: Deref<Target = T>> InsertOnlyVec<T, P> {
     }
 
     pub fn len(&self) -> usize {
-        unsafe { &*self.vec.lock().unwrap().get() }.len()
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.len()
     }
 
     pub fn is_empty(&self) -> bool {
-        unsafe { &*self.vec.lock().unwrap().get() }.is_empty()
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.is_empty()
     }
 
     pub fn last(&self) -> Option<&T> {
-        unsafe { &*self.vec.lock().unwrap().get() }
-            .last()
-            .map(|x| x as &T)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.last().map(|x| x as &T)
     }
 
     pub fn clear(&mut self) {
@@ -135,7 +137,10 @@ impl<T, P> IntoIterator for InsertOnlyVec<T, P> {
 
 impl<T: fmt::Debug> fmt::Debug for InsertOnlyVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        unsafe { &*self.vec.lock().unwrap().get() }.fmt(f)
+        let guard = self.vec.lock().unwrap();
+        let elements: Vec<&T> = unsafe { &*guard.get() }.iter().map(|x| &**x).collect();
+        drop(guard);
+        elements.fmt(f)
     }
 }
 
@@ -143,7 +148,12 @@ impl<T: ?Sized> std::ops::Index<usize> for InsertOnlyVec<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &T {
-        unsafe { &*self.vec.lock().unwrap().get() }.index(index)
+        let guard = self.vec.lock().unwrap();
+        let vec = unsafe { &*guard.get() };
+        let (element, len) = (vec.get(index).map(|x| &**x), vec.len());
+        // Panicking while holding the lock would poison it.
+        drop(guard);
+        element.unwrap_or_else(|| panic!("index {index} is out of bounds for length {len}"))
     }
 }
 
@@ -154,10 +164,9 @@ impl<T: ?Sized + Unpin> std::ops::IndexMut<usize> for InsertOnlyVec<T> {
 }
 impl<T: ?Sized, P: Clone> Clone for InsertOnlyVec<T, P> {
     fn clone(&self) -> Self {
+        let guard = self.vec.lock().unwrap();
         Self {
-            vec: Mutex::new(UnsafeCell::new(
-                unsafe { &*self.vec.lock().unwrap().get() }.clone(),
-            )),
+            vec: Mutex::new(UnsafeCell::new(unsafe { &*guard.get() }.clone())),
             _ensure_sync: PhantomData,
         }
     }
-- 
2.43.0


From 605698369f4ca98df293a1d8f4b026910b76afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:37 +0000
Subject: [PATCH 26/53] fix: open buffers vanished from a replaced directory if
 the whole database was invalidated

---
 crates/vfs/src/vfs.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index f97a21e..4505dc0 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -729,20 +729,15 @@ impl<F: VfsFile> Vfs<F> {
 
         let invalidation_len = all_invalidations.len();
         let unload_len = all_unloads.len();
+        let mut result = InvalidationResult::InvalidatedFiles;
         if invalidates_db {
-            tracing::debug!("caused an invalidated db");
-            return InvalidationResult::InvalidatedDb;
+            result = InvalidationResult::InvalidatedDb;
         }
         for inv in all_unloads.into_iter() {
-            if self.invalidate_and_unload_file(inv) == InvalidationResult::InvalidatedDb {
-                tracing::debug!("caused an invalidated db");
-                return InvalidationResult::InvalidatedDb;
-            }
+            result |= self.invalidate_and_unload_file(inv);
         }
         for inv in all_invalidations.into_iter() {
-            if self.invalidate_file_by_index(None, inv) == InvalidationResult::InvalidatedDb {
-                return InvalidationResult::InvalidatedDb;
-            }
+            result |= self.invalidate_file_by_index(None, inv);
         }
         // After unloading in memory files (especially it they are within unloaded directories need
         // to be ensured).
@@ -764,8 +759,11 @@ impl<F: VfsFile> Vfs<F> {
                 }
             }
         }
+        if result == InvalidationResult::InvalidatedDb {
+            tracing::debug!("caused an invalidated db");
+        }
         tracing::debug!("Caused {unload_len} unloads and {invalidation_len} direct invalidations");
-        InvalidationResult::InvalidatedFiles
+        result
     }
 
     fn matches_current_dir_entry(&self, old: &DirectoryEntry, new: &DirectoryEntry) -> bool {
-- 
2.43.0


From d6b4f271c13f708744598ccd8a6fce831eacc023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:05 +0000
Subject: [PATCH 27/53] fix: files that searched for a never loaded file were
 not invalidated when it was replaced

---
 crates/vfs/src/vfs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 4505dc0..07a4da7 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -658,6 +658,15 @@ impl<F: VfsFile> Vfs<F> {
                                     }
                                 }
                                 all_unloads.insert(file_index);
+                            } else {
+                                // The file was never loaded, but searched for, see also
+                                // add_missing_entry_callback.
+                                match &*f.invalidations.borrow() {
+                                    InvalidationDetail::InvalidatesDb => invalidates_db = true,
+                                    InvalidationDetail::Some(invs) => {
+                                        all_invalidations.extend(invs)
+                                    }
+                                }
                             }
                         }
                         DirectoryEntry::MissingEntry(missing) => {
-- 
2.43.0


From 845c0ffe7409318d35f4340c9eee616b5eafc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:02 +0000
Subject: [PATCH 28/53] fix: globs of files to check ignored the case
 everywhere except on Windows

---
 crates/vfs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/lib.rs b/crates/vfs/src/lib.rs
index e4e412d..99f33b7 100644
--- a/crates/vfs/src/lib.rs
+++ b/crates/vfs/src/lib.rs
@@ -113,7 +113,7 @@ pub trait VfsHandler: Sync + Send {
     }
 
     fn is_case_sensitive(&self) -> bool {
-        cfg!(target_os = "windows")
+        !cfg!(target_os = "windows")
     }
 
     fn is_unnecessary_invalidation(
-- 
2.43.0


From 234168610e62888566efeb3bd3bf744d9029ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 29/53] fix: symlinks that point to each other caused a stack
 overflow

---
 crates/vfs/src/local_fs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/local_fs.rs b/crates/vfs/src/local_fs.rs
index 01d966c..0a67382 100644
--- a/crates/vfs/src/local_fs.rs
+++ b/crates/vfs/src/local_fs.rs
@@ -13,6 +13,8 @@ use crate::{
 };
 
 const GLOBALLY_IGNORED_FOLDERS: [&str; 3] = ["site-packages", "node_modules", "__pycache__"];
+// Symlinks may point to each other. This is the limit that Linux uses.
+const MAX_FOLLOWED_SYMLINKS: usize = 40;
 
 pub type SimpleLocalFS = LocalFS<Box<dyn Fn(PathWithScheme) + Sync + Send>>;
 
@@ -321,14 +323,20 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
         &self,
         path: P,
     ) -> Result<ResolvedFileType, String> {
-        self.follow_symlink_internal(path.as_ref(), path.as_ref())
+        self.follow_symlink_internal(path.as_ref(), path.as_ref(), 0)
     }
 
     fn follow_symlink_internal(
         &self,
         origin_path: &Path,
         path: &Path,
+        followed_links: usize,
     ) -> Result<ResolvedFileType, String> {
+        if followed_links > MAX_FOLLOWED_SYMLINKS {
+            return Err(format!(
+                "Too many levels of symbolic links in {origin_path:?}"
+            ));
+        }
         self.watch(path);
         let target_path = resolve_link(path)?;
         let metadata = std::fs::symlink_metadata(&target_path).map_err(|e| format!("{e}"))?;
@@ -349,7 +357,7 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
             }
             Ok(ResolvedFileType::Directory)
         } else if file_type.is_symlink() {
-            self.follow_symlink_internal(origin_path, &target_path)
+            self.follow_symlink_internal(origin_path, &target_path, followed_links + 1)
         } else {
             debug_assert!(file_type.is_file());
             Ok(ResolvedFileType::File)
-- 
2.43.0


From 4d878b06e1b1877f335e8172752bb855f8c6b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:52 +0000
Subject: [PATCH 30/53] fix: a .gitignore was dropped when it changed on disk

---
 crates/vfs/src/local_fs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/vfs/src/local_fs.rs b/crates/vfs/src/local_fs.rs
index 0a67382..32bd6d2 100644
--- a/crates/vfs/src/local_fs.rs
+++ b/crates/vfs/src/local_fs.rs
@@ -162,6 +162,13 @@ impl<T: Fn(PathWithScheme) + Sync + Send> VfsHandler for LocalFS<T> {
             self.watch(path);
             ResolvedFileType::File
         };
+        if replace_name == ".gitignore" && matches!(resolved, ResolvedFileType::File) {
+            let file = FileEntry::new(parent.clone(), replace_name.into());
+            let code = self.read_and_watch_file(&file.absolute_path(self))?;
+            return Some(DirectoryEntry::Gitignore(GitignoreFile::new(
+                parent, path, &code,
+            )));
+        }
         resolved.into_dir_entry(workspaces, self, parent, replace_name.into())
     }
 
-- 
2.43.0


From 83f803e937096f42f0f66d0df0c46cc77f4b05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 31/53] hook (feature vp_hooks): verify a license with given
 keys and time

---
 crates/licensing/Cargo.toml |  4 ++++
 crates/licensing/src/lib.rs | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/crates/licensing/Cargo.toml b/crates/licensing/Cargo.toml
index beb1977..129065a 100644
--- a/crates/licensing/Cargo.toml
+++ b/crates/licensing/Cargo.toml
@@ -10,6 +10,10 @@ authors.workspace = true
 [lints]
 workspace = true
 
+[features]
+# Only for the verification harness
+vp_hooks = []
+
 [dependencies]
 utils.workspace = true
 
diff --git a/crates/licensing/src/lib.rs b/crates/licensing/src/lib.rs
index d47843f..9aaf28a 100644
--- a/crates/licensing/src/lib.rs
+++ b/crates/licensing/src/lib.rs
@@ -217,6 +217,19 @@ pub fn hex_string_key_to_bytes(s: String) -> anyhow::Result<[u8; PUBLIC_KEY_LENG
         })
 }
 
+/// Verifies a license (in JSON) at a point in time with other keys than the builtin ones.
+#[cfg(feature = "vp_hooks")]
+pub fn vp_verify_license(
+    json: &str,
+    current_time: SystemTime,
+    public_keys: &[[u8; PUBLIC_KEY_LENGTH]],
+) -> anyhow::Result<Option<LicenseLevel>> {
+    let license = License::from_json(json)?;
+    Ok(license
+        .verify_with_keys(current_time, public_keys.iter())?
+        .then_some(license.level))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b5618fce74ac320ec32965f7558156a82b55c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:55 +0000
Subject: [PATCH 32/53] fix: a byte order mark at the start of a file is not a
 syntax error

---
 crates/parsa_python/src/tokenizer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index ff986f9..0f43b90 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -7,6 +7,7 @@ use parsa::{CodeIndex, create_terminals};
 use regex::Regex;
 
 const FORM_FEED: char = '\x0C';
+const BYTE_ORDER_MARK: char = '\u{feff}';
 const HEX_NUMBER: &str = r"0[xX](_?[0-9a-fA-F])+";
 const BIN_NUMBER: &str = r"0[bB](_?[01])+";
 const OCT_NUMBER: &str = r"0[oO](_?[0-7])+";
@@ -155,6 +156,12 @@ impl<'a> parsa::Tokenizer<'a, PyTerminal> for PythonTokenizer<'a> {
     fn new(code: &'a str) -> Self {
         Self {
             code,
+            // A byte order mark at the start of a file is not part of the program.
+            index: if code.starts_with(BYTE_ORDER_MARK) {
+                BYTE_ORDER_MARK.len_utf8()
+            } else {
+                0
+            },
             indent_stack: vec![0],
             previous_token_was_newline: true,
             ..Default::default()
-- 
2.43.0


From 1bb84f68fa91a46941403134dbfecb249f729b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:55 +0000
Subject: [PATCH 33/53] fix: selection ranges always grow, also in broken code

---
 crates/parsa_python_cst/src/ranges.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index 3f50797..f6ceace 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -121,12 +121,6 @@ impl Iterator for SelectionRanges<'_> {
             end: node.end(),
         };
         let type_ = node.type_();
-        if let Some(previous) = self.previous {
-            // We never want to repeat the same range.
-            if previous == range {
-                return self.next();
-            }
-        }
         if let Nonterminal(stmt) = type_ {
             let before_node_code = &self.code[..node.start() as usize];
             if let Some(prefix_n) = before_node_code.rfind('\n') {
@@ -135,6 +129,15 @@ impl Iterator for SelectionRanges<'_> {
                 range.start -= before_node_code.len() as CodeIndex - prefix_n as CodeIndex - 1;
             }
         }
+        if let Some(previous) = self.previous {
+            // A range always includes the previous one, whose start might have been moved to the
+            // start of its line.
+            range.start = range.start.min(previous.start);
+            // We never want to repeat the same range.
+            if previous == range {
+                return self.next();
+            }
+        }
         match node.type_() {
             PyNodeType::Terminal(
                 TerminalType::Operator
-- 
2.43.0


From 33af807c28731fd2eb45e9ced90874f2f8d0cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:55 +0000
Subject: [PATCH 34/53] fix: do not offer to insert type: ignore comments
 within multi-line f-strings

---
 crates/parsa_python_cst/src/code_actions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/code_actions.rs b/crates/parsa_python_cst/src/code_actions.rs
index b5ada69..1198046 100644
--- a/crates/parsa_python_cst/src/code_actions.rs
+++ b/crates/parsa_python_cst/src/code_actions.rs
@@ -1,4 +1,4 @@
-use parsa_python::CodeIndex;
+use parsa_python::{CodeIndex, NonterminalType::fstring, PyNodeType::Nonterminal};
 
 use crate::{Tree, TypeIgnoreComment};
 
@@ -58,6 +58,14 @@ impl Tree {
                 if leaf.end() > last_valid_position {
                     return None;
                 }
+                // A comment within a multi-line f-string would be a part of the string.
+                let mut node = leaf;
+                while let Some(fstring_) = node.parent_until(&[Nonterminal(fstring)]) {
+                    if fstring_.end() > last_valid_position {
+                        return None;
+                    }
+                    node = fstring_;
+                }
 
                 Some(TypeIgnoreInsertion {
                     insertion_index: leaf.end(),
-- 
2.43.0


From 4eff40f50547e8dc3cad79f69ea16c7552c76cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:56 +0000
Subject: [PATCH 35/53] fix: selection ranges do not repeat a statement with
 its line's indentation

---
 crates/parsa_python_cst/src/ranges.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index f6ceace..988513d 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -121,6 +121,12 @@ impl Iterator for SelectionRanges<'_> {
             end: node.end(),
         };
         let type_ = node.type_();
+        if let Some(previous) = self.previous {
+            // We never want to repeat the same range.
+            if previous == range {
+                return self.next();
+            }
+        }
         if let Nonterminal(stmt) = type_ {
             let before_node_code = &self.code[..node.start() as usize];
             if let Some(prefix_n) = before_node_code.rfind('\n') {
@@ -133,7 +139,6 @@ impl Iterator for SelectionRanges<'_> {
             // A range always includes the previous one, whose start might have been moved to the
             // start of its line.
             range.start = range.start.min(previous.start);
-            // We never want to repeat the same range.
             if previous == range {
                 return self.next();
             }
-- 
2.43.0


From be047e1f219a1e346fa29b91354560f94a2f568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:56 +0000
Subject: [PATCH 36/53] fix: comparing type(x) with its class made literals and
 enum members unreachable

---
 crates/zuban_python/src/file/flow_analysis.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index fa9e7cf..82cb968 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -5504,7 +5504,17 @@ fn check_for_comparison_guard(
                 };
                 let inf_t = inf.as_cow_type(i_s);
                 if !truthy.is_simple_sub_type_of(i_s, &inf_t).bool() {
-                    truthy = Type::Never(NeverCause::Other);
+                    // Literals and enum members are still instances of exactly that class.
+                    truthy = inf_t.retain_in_union(|t| match t {
+                        Type::Literal(l) => l
+                            .fallback_type(i_s.db)
+                            .is_simple_same_type(i_s, base_truthy)
+                            .bool(),
+                        Type::EnumMember(m) => Type::Enum(m.enum_.clone())
+                            .is_simple_same_type(i_s, base_truthy)
+                            .bool(),
+                        _ => false,
+                    });
                 }
                 Some(FramesWithParentUnions {
                     truthy: Frame::from_type(key.clone(), truthy),
-- 
2.43.0


From 0ad7cc92b5705d88aafe80595e0666d79ec8ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:56 +0000
Subject: [PATCH 37/53] fix: a class pattern with inner patterns that may not
 match is not exhaustive

---
 crates/zuban_python/src/file/flow_analysis.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index 82cb968..34cbf72 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -3430,6 +3430,8 @@ impl<'file> Inference<'_, 'file, '_> {
         let mut added_no_match_args_issue = false;
         //for e in truthy.into_iter_with_unpacked_unions(i_s.db, true) {
         let mut inner_mismatch = false;
+        // Whether an inner pattern might not match, e.g. in `case Foo(x=3)`
+        let mut maybe_inner_mismatch = false;
         let match_args = OnceCell::new();
         let mut nth_positional = 0;
         let mut find_inner_guards_and_return_unreachable = |node_ref: NodeRef, name: &str, pat| {
@@ -3446,6 +3448,7 @@ impl<'file> Inference<'_, 'file, '_> {
             });
             let inner_result = self.find_guards_in_pattern(inf, None, pat);
             inner_mismatch |= inner_result.truthy_t.as_cow_type(i_s).is_never();
+            maybe_inner_mismatch |= !inner_result.falsey_t.as_cow_type(i_s).is_never();
             inner_mismatch
         };
         let mut used_keywords: Vec<(&str, bool)> = vec![];
@@ -3501,11 +3504,15 @@ impl<'file> Inference<'_, 'file, '_> {
                             return (truthy.clone(), truthy.clone());
                         }
                     } else if params.clone().count() == 1 && is_self_match_type(i_s.db, truthy) {
-                        self.find_guards_in_pattern(
+                        let result = self.find_guards_in_pattern(
                             Inferred::from_type(truthy.clone()),
                             subject_key,
                             pat,
                         );
+                        return (
+                            result.truthy_t.as_type(i_s),
+                            result.falsey_t.as_type(i_s),
+                        );
                     } else {
                         if !added_no_match_args_issue {
                             node_ref.add_issue(
@@ -3548,6 +3555,8 @@ impl<'file> Inference<'_, 'file, '_> {
         }
         if inner_mismatch {
             (Type::NEVER, truthy.clone())
+        } else if maybe_inner_mismatch {
+            (truthy.clone(), truthy.clone())
         } else {
             (truthy.clone(), Type::NEVER)
         }
-- 
2.43.0


From ad09c85c96b30293158168fe1337b40d1a69e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:28 +0000
Subject: [PATCH 38/53] fix: comparing the type of a LiteralString with str
 made the branch unreachable

---
 crates/zuban_python/src/file/flow_analysis.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index 34cbf72..7d1b65d 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -5522,6 +5522,12 @@ fn check_for_comparison_guard(
                         Type::EnumMember(m) => Type::Enum(m.enum_.clone())
                             .is_simple_same_type(i_s, base_truthy)
                             .bool(),
+                        Type::LiteralString { .. } => i_s
+                            .db
+                            .python_state
+                            .str_type()
+                            .is_simple_same_type(i_s, base_truthy)
+                            .bool(),
                         _ => false,
                     });
                 }
-- 
2.43.0


From db8292d20a509a8227a27fef6ee84bbd4a7de7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:27 +0000
Subject: [PATCH 39/53] fix: the implicit literal on the left of an or was
 expected on its right side

---
 crates/zuban_python/src/file/flow_analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index 7d1b65d..df00f43 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -2997,7 +2997,9 @@ impl<'file> Inference<'_, 'file, '_> {
                 fa.with_frame(left_frames.falsey, || {
                     right_infos = Some(self.find_guards_in_expression_parts_with_context(
                         right,
-                        &mut ResultContext::new_known(&left_t),
+                        &mut ResultContext::new_known(
+                            &left_t.avoid_implicit_literal_cow(self.i_s.db),
+                        ),
                     ));
                 })
             });
-- 
2.43.0


From 1d4e4e6e15031a5bca78818401be30058e202c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:06 +0000
Subject: [PATCH 40/53] fix: a positional pattern in int(..) and the like was
 an error for subclasses

---
 crates/zuban_python/src/file/flow_analysis.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index df00f43..1442ddb 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -3505,7 +3505,10 @@ impl<'file> Inference<'_, 'file, '_> {
                             // __match_args__
                             return (truthy.clone(), truthy.clone());
                         }
-                    } else if params.clone().count() == 1 && is_self_match_type(i_s.db, truthy) {
+                    } else if params.clone().count() == 1
+                        && (is_self_match_type(i_s.db, truthy)
+                            || is_self_match_type(i_s.db, target_t))
+                    {
                         let result = self.find_guards_in_pattern(
                             Inferred::from_type(truthy.clone()),
                             subject_key,
-- 
2.43.0


From 02e0bc6de3b2ea50949f315cfdb1675735a3b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:13 +0000
Subject: [PATCH 41/53] fix: check importers again when a stub or a package
 appears beside the imported module

---
 crates/zuban_python/src/imports.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/zuban_python/src/imports.rs b/crates/zuban_python/src/imports.rs
index 370ba65..4d3b802 100644
--- a/crates/zuban_python/src/imports.rs
+++ b/crates/zuban_python/src/imports.rs
@@ -450,9 +450,18 @@ pub fn python_import_with_needs_exact_case<'x>(
                 return result;
             }
         }
+        let is_stub = stub_file_index.is_some();
         if let Some((file_entry, file_index)) = stub_file_index.take().or(python_file_index.take())
         {
             file_entry.add_invalidation(from_file.file_index);
+            // Packages and stubs have a higher priority and might be added later
+            let mut add_missing = dir.add_missing_entry_callback(from_file.file_index);
+            if check_stubs && !is_stub {
+                add_missing(&name_pyi);
+            }
+            if !had_namespace_dir {
+                add_missing(name);
+            }
             return Some(ImportResult::File(file_index));
         }
         let mut add_missing = dir.add_missing_entry_callback(from_file.file_index);
-- 
2.43.0


From 2aefe4c5a04ec21a9ac36431619f6794df9393ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:13 +0000
Subject: [PATCH 42/53] fix: load files that are only known by an import before
 checking all files

---
 crates/zuban_python/src/select_files.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/select_files.rs b/crates/zuban_python/src/select_files.rs
index daea419..0f90ec1 100644
--- a/crates/zuban_python/src/select_files.rs
+++ b/crates/zuban_python/src/select_files.rs
@@ -101,7 +101,8 @@ impl<'db> FileSelector<'db> {
             .into_inner()
             .unwrap()
             .into_iter()
-            .map(|file_index| db.loaded_python_file(file_index))
+            // An import might have created the file index without loading the file
+            .filter_map(|file_index| db.ensure_file_for_file_index(file_index).ok())
             // TODO shouldn't this be done before name binding?
             .filter(|file| {
                 let p = file.file_entry(db).relative_path(vfs_handler);
-- 
2.43.0


From 0837e9e143feba4b83ec4ad0d1728181d965ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:13 +0000
Subject: [PATCH 43/53] fix: do not report the errors of functions twice after
 an invalidation

---
 crates/zuban_python/src/file/python_file.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zuban_python/src/file/python_file.rs b/crates/zuban_python/src/file/python_file.rs
index 2809fc0..1f519d1 100644
--- a/crates/zuban_python/src/file/python_file.rs
+++ b/crates/zuban_python/src/file/python_file.rs
@@ -261,6 +261,8 @@ impl vfs::VfsFile for PythonFile {
         );
         self.points.invalidate_references_to(file_index);
         self.issues.invalidate_non_name_binder_issues();
+        // All functions will be checked again
+        self.delayed_diagnostics.get_mut().unwrap().clear();
         if let Some(cache) = self.stub_cache.as_mut() {
             *cache = StubCache::default();
         }
-- 
2.43.0


From 3cf8d3f345409eecb1dee62cbcb98ba32b99e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:31 +0000
Subject: [PATCH 44/53] fix: a string annotation of non-ASCII whitespace
 panicked

---
 crates/zuban_python/src/file/type_computation/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/type_computation/mod.rs b/crates/zuban_python/src/file/type_computation/mod.rs
index e08922c..be561a2 100644
--- a/crates/zuban_python/src/file/type_computation/mod.rs
+++ b/crates/zuban_python/src/file/type_computation/mod.rs
@@ -461,7 +461,11 @@ impl<'db: 'x + 'file, 'file, 'i_s, 'c, 'x> TypeComputation<'db, 'file, 'i_s, 'c>
                 }
             }
             // With escapes and other problems, start might be a bit imprecise.
-            let end = (start as usize + f.tree.code().len()).min(self.file.tree.code().len());
+            let code = self.file.tree.code();
+            let mut end = (start as usize + f.tree.code().len()).min(code.len());
+            while !code.is_char_boundary(end) {
+                end += 1;
+            }
             self.file.add_issue(
                 self.i_s,
                 Issue::from_start_stop(
-- 
2.43.0


From 44b5115fb8c664d0cb2d3a46825cb7de186d44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:31 +0000
Subject: [PATCH 45/53] fix: UTF-16 columns after characters beyond the BMP
 were out of bounds at the end of a line

---
 crates/zuban_python/src/lines.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zuban_python/src/lines.rs b/crates/zuban_python/src/lines.rs
index fa3f16e..4c0f1f3 100644
--- a/crates/zuban_python/src/lines.rs
+++ b/crates/zuban_python/src/lines.rs
@@ -199,9 +199,7 @@ impl NewlineIndices {
 fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePositionInfos> {
     let mut utf16_count = 0;
 
-    let mut char_indices_counter = 0;
     for (utf8_idx, c) in s.char_indices() {
-        char_indices_counter += 1;
         if utf16_count == utf16_pos {
             return Ok(BytePositionInfos {
                 byte: utf8_idx as CodeIndex,
@@ -219,7 +217,7 @@ fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePo
     }
     Ok(BytePositionInfos {
         byte: s.len() as CodeIndex,
-        column_out_of_bounds: utf16_pos > char_indices_counter,
+        column_out_of_bounds: utf16_pos > utf16_count,
     })
 }
 
-- 
2.43.0


From 8b38056284b4545db065f973de89d7ff6f0bbbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:31 +0000
Subject: [PATCH 46/53] fix: changes after a full change used the lines of the
 replaced text

---
 crates/zuban_python/src/lsp_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/lsp_utils.rs b/crates/zuban_python/src/lsp_utils.rs
index 8e3b9cf..70ce50d 100644
--- a/crates/zuban_python/src/lsp_utils.rs
+++ b/crates/zuban_python/src/lsp_utils.rs
@@ -13,12 +13,15 @@ pub(crate) fn apply_document_changes(
 ) -> anyhow::Result<String> {
     // If at least one of the changes is a full document change, use the last
     // of them as the starting point and ignore all previous changes.
+    let mut line_indices = Cow::Borrowed(line_indices);
     let (mut text, content_changes) = match content_changes
         .iter()
         .rposition(|change| change.range.is_none())
     {
         Some(idx) => {
             let text = std::mem::take(&mut content_changes[idx].text);
+            // The line indices belong to the text that was replaced
+            line_indices = Cow::Owned(NewlineIndices::new());
             (text, &content_changes[idx + 1..])
         }
         None => (file_contents.to_string(), &content_changes[..]),
@@ -27,7 +30,6 @@ pub(crate) fn apply_document_changes(
         return Ok(text);
     }
 
-    let mut line_indices = Cow::Borrowed(line_indices);
     // The changes we got must be applied sequentially, but can cross lines so we
     // have to keep our line index updated.
     // Some clients (e.g. Code) sort the ranges in reverse. As an optimization, we
-- 
2.43.0


From fbd7606b312a58a333e6cdd8e20b09a1c0bf002b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 14:34:36 +0000
Subject: [PATCH 47/53] fix: completion and signature help look at the call and
 import at the cursor

---
 crates/parsa_python_cst/src/completion.rs | 37 ++++++++++++++---------
 crates/parsa_python_cst/src/signatures.rs | 10 +++---
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 4093541..aa3c843 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -149,13 +149,10 @@ impl Tree {
                     }
                 }
                 "import" => {
-                    if let Some(before_imp) = previous.previous_sibling() {
-                        if before_imp.is_type(Nonterminal(dotted_import_name)) {
-                            return (
-                                scope,
-                                import_from_target_node(before_imp.parent().unwrap()),
-                                rest,
-                            );
+                    if previous.previous_sibling().is_some() {
+                        let parent = previous.parent().unwrap();
+                        if parent.is_type_or_error_thereof(Nonterminal(import_from)) {
+                            return (scope, import_from_target_node(parent), rest);
                         }
                     } else {
                         return (scope, CompletionNode::ImportName { path: None }, rest);
@@ -181,6 +178,11 @@ impl Tree {
                         return (scope, CompletionNode::NecessaryKeyword("import"), rest);
                     }
                 }
+                Nonterminal(dotted_as_names) | ErrorNonterminal(dotted_as_names)
+                    if previous.as_code() == "," =>
+                {
+                    return (scope, CompletionNode::ImportName { path: None }, rest);
+                }
                 Nonterminal(import_from_targets) | ErrorNonterminal(import_from_targets) => {
                     return (
                         scope,
@@ -301,12 +303,17 @@ fn context(node: PyNode) -> Option<CompletionContext> {
 }
 
 fn call_args(node: PyNode) -> Option<CallArgs> {
-    let args = node.parent_until(&[
-        Nonterminal(arguments),
-        ErrorNonterminal(arguments),
-        Nonterminal(stmt),
-        ErrorNonterminal(stmt),
-    ])?;
+    let args = if node.as_code() == "(" {
+        // The parentheses are not part of the arguments, the ancestors belong to an outer call.
+        node.next_sibling()?
+    } else {
+        node.parent_until(&[
+            Nonterminal(arguments),
+            ErrorNonterminal(arguments),
+            Nonterminal(stmt),
+            ErrorNonterminal(stmt),
+        ])?
+    };
     args.is_type_or_error_thereof(Nonterminal(arguments))
         .then_some(CallArgs(args))
 }
@@ -406,7 +413,7 @@ pub(crate) fn scope_for_node<'db>(node: PyNode<'db>) -> Scope<'db> {
 }
 
 fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(CodeIndex, &str)> {
-    if after_node.start() <= position {
+    if after_node.start() < position {
         return None;
     }
     let prefix = after_node.prefix_to_previous_leaf();
@@ -421,7 +428,7 @@ fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(Code
                 }
                 comment_start = Some(i);
             }
-            b'\n' => {
+            b'\n' | b'\r' => {
                 if let Some(comment_start) = comment_start
                     && position_in_prefix as usize <= i
                 {
diff --git a/crates/parsa_python_cst/src/signatures.rs b/crates/parsa_python_cst/src/signatures.rs
index d5d8a91..49a61e5 100644
--- a/crates/parsa_python_cst/src/signatures.rs
+++ b/crates/parsa_python_cst/src/signatures.rs
@@ -50,11 +50,11 @@ impl Tree {
                 continue;
             }
             // Calls on nested targets like `a.b().c = 1` have no expression as a base
-            let base = ExpressionPart::maybe_new(first)?;
+            let base = ExpressionPart::maybe_new(first);
             let Some(maybe_args) = iterator.next() else {
                 return Some((
                     scope,
-                    base,
+                    base?,
                     if next_stmt.is_some() {
                         SignatureArgsIterator::Args {
                             args: SiblingIterator::new_empty(&first),
@@ -73,7 +73,7 @@ impl Tree {
             if maybe_args.is_type_or_error_thereof(Nonterminal(arguments)) {
                 return Some((
                     scope,
-                    base,
+                    base?,
                     SignatureArgsIterator::Args {
                         args: maybe_args.iter_children(),
                         next_stmt: next_stmt
@@ -85,10 +85,10 @@ impl Tree {
                 if maybe_args.start() < position {
                     continue;
                 }
-                return Some((scope, base, SignatureArgsIterator::None));
+                return Some((scope, base?, SignatureArgsIterator::None));
             } else {
                 debug_assert!(maybe_args.is_type_or_error_thereof(Nonterminal(comprehension)));
-                return Some((scope, base, SignatureArgsIterator::Comprehension));
+                return Some((scope, base?, SignatureArgsIterator::Comprehension));
             }
         }
     }
-- 
2.43.0


From 260492da058573f9669740396d5ccc6a322a3105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:05 +0000
Subject: [PATCH 48/53] fix: a more specific pattern of a module section takes
 priority over a more general one

---
 crates/config/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/config/src/lib.rs b/crates/config/src/lib.rs
index 636e0a1..59d714a 100644
--- a/crates/config/src/lib.rs
+++ b/crates/config/src/lib.rs
@@ -538,8 +538,15 @@ fn parse_python_ini(code: &str) -> anyhow::Result<Ini> {
 
 fn order_overrides_for_priority(overrides: &mut [OverrideConfig]) {
     // The overrides with the highest priorities should be last, because they overwrite the flags
-    // for a file at the end
-    overrides.sort_by_key(|o| o.module.kind);
+    // for a file at the end. Of well-structured patterns the more specific one has priority, e.g.
+    // foo.bar.* overwrites foo.*
+    overrides.sort_by_key(|o| {
+        let specificity = match o.module.kind {
+            OverrideKind::WellStructured => o.module.path.len(),
+            OverrideKind::Unstructured | OverrideKind::ModuleName => 0,
+        };
+        (o.module.kind, specificity)
+    });
 }
 
 #[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
-- 
2.43.0


From 126a50e2ae237f66339b7d6caa105b67d71878d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:19 +0000
Subject: [PATCH 49/53] fix: quotes around parts of a configuration comment
 could panic

---
 crates/zuban_python/src/file/python_file.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zuban_python/src/file/python_file.rs b/crates/zuban_python/src/file/python_file.rs
index 1f519d1..c729add 100644
--- a/crates/zuban_python/src/file/python_file.rs
+++ b/crates/zuban_python/src/file/python_file.rs
@@ -1060,10 +1060,11 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
             let (name, value) = if let Some((first, second)) = directive.split_once('=') {
                 let mut second = second.trim();
                 if had_quotation_marks {
-                    if second.chars().next().is_some_and(|first| first == '"')
-                        && second.chars().last().is_some_and(|last| last == '"')
+                    if let Some(inner) = second
+                        .strip_prefix('"')
+                        .and_then(|second| second.strip_suffix('"'))
                     {
-                        second = &second[1..second.len() - 1];
+                        second = inner;
                     } else {
                         self.issues.add(Issue::from_start_stop(
                             start_position - 1,
@@ -1073,7 +1074,7 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
                             ),
                             true,
                         ));
-                        second = &second[1..];
+                        second = second.strip_prefix('"').unwrap_or(second);
                     }
                 }
                 (first.trim(), Some(second))
-- 
2.43.0


From 25962a21460275a117bc03e6710b043870fa213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:19 +0000
Subject: [PATCH 50/53] fix: overlapping paths to check could report import
 errors multiple times

---
 crates/zuban_python/src/select_files.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/zuban_python/src/select_files.rs b/crates/zuban_python/src/select_files.rs
index 0f90ec1..53e0011 100644
--- a/crates/zuban_python/src/select_files.rs
+++ b/crates/zuban_python/src/select_files.rs
@@ -78,13 +78,13 @@ impl<'db> FileSelector<'db> {
     fn find_files(db: &'db Database) -> anyhow::Result<Vec<&'db PythonFile>> {
         let mut selector = Self::new(db);
         selector.search_in_workspaces()?;
-        let loaded_file_entries: Mutex<FastHashSet<ArcPtrWrapper>> = Mutex::new(
-            selector
-                .to_be_loaded
-                .iter()
-                .map(|l| ArcPtrWrapper(Arc::as_ptr(&l.0)))
-                .collect(),
-        );
+        let mut loaded_file_entries: FastHashSet<ArcPtrWrapper> = Default::default();
+        // A file might be listed multiple times, if the paths to check overlap. It must not be
+        // handled by multiple threads, because import errors could then be added multiple times.
+        selector
+            .to_be_loaded
+            .retain(|(file, _)| loaded_file_entries.insert(ArcPtrWrapper(Arc::as_ptr(file))));
+        let loaded_file_entries = Mutex::new(loaded_file_entries);
         selector.to_be_loaded.par_iter().for_each(|(file, _)| {
             if let Some(file) = db.load_file_from_workspace(file) {
                 selector
-- 
2.43.0


From e0a9cfd6357750b1985eaaf027d611d31608a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:19 +0000
Subject: [PATCH 51/53] fix: an explicitly given file with its own flags was
 dropped by an exclude

---
 crates/zuban_python/src/select_files.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/select_files.rs b/crates/zuban_python/src/select_files.rs
index 53e0011..570ec7a 100644
--- a/crates/zuban_python/src/select_files.rs
+++ b/crates/zuban_python/src/select_files.rs
@@ -108,8 +108,11 @@ impl<'db> FileSelector<'db> {
                 let p = file.file_entry(db).relative_path(vfs_handler);
                 if let Some(more_specific_flags) = file.maybe_more_specific_flags(db) {
                     // We need to recheck, because we might have more specific information now for this
-                    // file now that it's parsed.
-                    if should_skip_file(more_specific_flags, &p) {
+                    // file now that it's parsed. A file that the project excludes is only here because
+                    // it was explicitly given, so that the excludes don't apply to it.
+                    if should_skip_file(more_specific_flags, &p)
+                        && !should_skip_file(&db.project.flags, &p)
+                    {
                         return false;
                     }
                 }
-- 
2.43.0


From ab2d9527d4f408413b6331341cb46316970f5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:41 +0000
Subject: [PATCH 52/53] fix: the summary counted notes as errors

---
 crates/zuban_python/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/lib.rs b/crates/zuban_python/src/lib.rs
index 357c44e..0011afe 100644
--- a/crates/zuban_python/src/lib.rs
+++ b/crates/zuban_python/src/lib.rs
@@ -209,7 +209,7 @@ impl Project {
             checked_files += 1;
             let mut issues = file.diagnostics(&self.db).into_vec();
             issues.sort_by_key(|issue| issue.start_position().byte_position);
-            if !issues.is_empty() {
+            if issues.iter().any(|i| i.severity() == Severity::Error) {
                 files_with_errors += 1;
             }
             issues
@@ -583,7 +583,7 @@ impl Diagnostics<'_> {
         } else {
             format!(
                 "Found {error_count} error{e_s} in {fwe} file{fwe_s} (checked {checked} source file{checked_s})",
-                e_s = s_if_plural(self.issues.len()),
+                e_s = s_if_plural(error_count),
                 fwe = self.files_with_errors,
                 fwe_s = s_if_plural(self.files_with_errors),
                 checked = self.checked_files,
-- 
2.43.0


From 17292f9c8d077199ee42fd45bee7903c6e53a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:41 +0000
Subject: [PATCH 53/53] fix: strict in the section of a module panicked

---
 crates/config/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/config/src/lib.rs b/crates/config/src/lib.rs
index 59d714a..7acbbd2 100644
--- a/crates/config/src/lib.rs
+++ b/crates/config/src/lib.rs
@@ -902,7 +902,9 @@ impl OverrideConfig {
             }
         }
         for (key, value) in self.config.iter() {
-            set_flag(flags, key, value.to_value(), false)?;
+            if **key != *"strict" {
+                set_flag(flags, key, value.to_value(), false)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0

