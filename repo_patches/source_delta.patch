From c45b7b001620868dddb1cdaa16c89d86e6293db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:05 +0000
Subject: [PATCH 01/12] fix: stop scanning forever on an outdent between two
 indentation levels

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..6b83fe7 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,7 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From 77643ef43ba1500f9241e461c0207c0521e30d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:05 +0000
Subject: [PATCH 02/12] fix: accept CRLF line endings, which are a single
 grapheme cluster

---
 src/scanner.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 6b83fe7..1f0af29 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,7 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -443,7 +443,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         // Keep the newline next.
                         break;
                     }
@@ -461,7 +461,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
@@ -607,6 +607,11 @@ where
     }
 }
 
+// A carriage return and line feed pair is a single grapheme cluster.
+fn is_newline(grapheme: &str) -> bool {
+    matches!(grapheme, "\n" | "\r\n")
+}
+
 fn is_digit(grapheme: &str) -> bool {
     // Note: built-in is_numeric() uses a more complicated unicode definition of
     // numeric.
-- 
2.43.0


From 4d2d10bc9ad9e492c52abbd3b730350cbb987b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 03/12] fix: comments and trailing spaces do not affect
 indentation or line continuation

---
 src/scanner.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 1f0af29..450f1fa 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -54,7 +54,6 @@ pub struct Scanner<'source, 'g> {
     // Beginning of line spaces used for indentation.
     bol_spaces: u16,
     is_bol: bool,
-    only_comment_on_line: bool,
     is_line_continuation: bool,
     following_line_continuation: bool,
     is_abutting: bool,
@@ -79,7 +78,6 @@ where
             eof: false,
             bol_spaces: 0,
             is_bol: true,
-            only_comment_on_line: false,
             is_line_continuation: false,
             following_line_continuation: false,
             is_abutting: false,
@@ -222,13 +220,14 @@ where
                         following_line_continuation = true;
                     }
                     "/" => {
-                        let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  Like
+                            // whitespace, it doesn't affect indentation or line
+                            // continuation.
+                            is_whitespace = true;
                             self.advance_to_eol();
-                            self.only_comment_on_line = was_bol;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
@@ -270,12 +269,7 @@ where
                     "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
-                        if !self.is_bol
-                            && !continue_line
-                            // When there's only a comment on a line, don't
-                            // insert a terminator.
-                            && !self.only_comment_on_line
-                        {
+                        if !self.is_bol && !continue_line {
                             self.add_token(Terminator);
                         }
                         self.reset_line();
@@ -301,7 +295,10 @@ where
                         }
                     }
                 }
-                self.following_line_continuation = following_line_continuation;
+                if !is_whitespace {
+                    self.following_line_continuation =
+                        following_line_continuation;
+                }
                 self.is_abutting = !is_whitespace;
             }
         }
@@ -313,7 +310,6 @@ where
         self.column = 1;
         self.bol_spaces = 0;
         self.is_bol = true;
-        self.only_comment_on_line = false;
         // If the previous line was blank, do not affect line continuation
         // state.
         if !line_was_blank {
-- 
2.43.0


From bb5c7198a84a730d0a0151f8303d5f35d227203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 04/12] fix: a parenthesis after a line continuation does not
 abut the previous token

---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 450f1fa..985be32 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,6 +243,7 @@ where
                         self.matches("\r");
 
                         if self.matches("\n") || self.matches("\r\n") {
+                            is_whitespace = true;
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
-- 
2.43.0


From c32c3fe2f7bce3d030a3e631b1108f464d437c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 05/12] fix: report scan errors at the column of the offending
 character

---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 985be32..76a301c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -255,7 +255,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -287,7 +287,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -356,7 +356,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From aee46318369df6f5323fe535da5a7e045be1cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 06/12] fix: do not underflow when reporting an error at the
 first token

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..71b100b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1140,6 +1140,10 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
+        if self.current == 0 {
+            return None;
+        }
+
         self.tokens.get(self.current - 1)
     }
 
-- 
2.43.0


From 98b5090755771c6357e08dd22fe52d627eebcbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 07/12] fix: reject break and continue in a function body
 nested in a loop

---
 src/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 71b100b..b02b254 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -227,7 +227,12 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // A loop around the function doesn't extend into the function's body.
+        let enclosing_in_loops = self.in_loops;
+        self.in_loops = 0;
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_in_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
@@ -486,10 +491,12 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            match self
+                .consume_begin_block("Expect '{' or indent before loop body.")
+            {
+                Ok(end_block) => self.finish_block(end_block).map(Stmt::Block),
+                Err(error) => Err(error),
+            }
         } else {
             self.statement()
         };
-- 
2.43.0


From dc2a27dedd7213922a121347306b73b9cc3ef8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 08/12] fix: parse an expression initializer of a for loop

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b02b254..0867e16 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -360,7 +360,12 @@ impl<'a> Parser<'a> {
         } else if self.match_token(TokenType::Var) {
             Some(self.finish_var_declaration(true)?)
         } else {
-            Some(self.expression_statement()?)
+            let init_expr = self.expression()?;
+            self.consume(
+                TokenType::Semicolon,
+                "Expect ';' after for-loop initializer.",
+            )?;
+            Some(Stmt::Expression(init_expr))
         };
         let condition = if self.check(TokenType::Semicolon) {
             Expr::LiteralBool(true)
-- 
2.43.0


From d1b143ff4d3a1006e577d581504cadf23b684ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 09/12] fix: reject the 256th local instead of wrapping its
 slot index

---
 src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..6e008ff 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -619,7 +619,7 @@ fn ensure_scope_index_limit(
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if new_scope_len >= u8::MAX as usize {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From 7784c021fce7cc97cbe0cccd444c1be9130d3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 10/12] fix: do not leave a global declared when its
 initializer fails to resolve

---
 src/resolver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6e008ff..454afdf 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -188,10 +188,12 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                // Define it even if there was an error so that we don't leave
+                // the variable in the state of being initialized.
                 self.define(identifier, loc)?;
 
-                Ok(())
+                result
             }
             Stmt::While(condition, body) => {
                 self.resolve_expression(condition)?;
-- 
2.43.0


From 7637290fdc46b47d633e259c7db3f1bcfc3f49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 11/12] fix: exit the REPL at the end of input

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From b9b779bfd317b8dd94f3fe89bf2c0a2c81947f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:17 +0000
Subject: [PATCH 12/12] fix: only a new name counts against the limit on
 variables in a scope

---
 src/resolver.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 454afdf..d1297fa 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -539,7 +539,9 @@ impl Resolver {
             slot_index,
             defined_state: DeclaredVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        if !scope.contains_key(identifier) {
+            ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        }
 
         let mut already_declared = false;
         scope
@@ -587,7 +589,9 @@ impl Resolver {
             slot_index: scope.len(),
             defined_state: DefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        if !scope.contains_key(identifier) {
+            ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        }
         let mut already_defined = false;
         scope
             .entry(identifier.to_owned())
-- 
2.43.0

