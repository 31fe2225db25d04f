From d53a4519e0d89f0bda1496de1454fc4efdfa146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 01/19] Add guarded verification hook (cfg mofmt_verif)

---
 src/lib.rs    | 10 ++++++++++
 src/parser.rs |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9731f01..f1b6c3b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 // Re-exports
 
 pub use parser::{parse, SyntaxKind, build_tree};
@@ -15,6 +17,14 @@ pub fn pretty_print(tokens: Vec<Token>, comments: Vec<Token>, events: Vec<Syntax
 mod parser;
 mod formatter;
 
+/// Verification hook: token-level access to the lexer and the parser.
+/// Compiled only with `--cfg mofmt_verif`.
+#[cfg(mofmt_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::parser::{events, lex, ModelicaToken, Position, SyntaxEvent, Token};
+}
+
 mod tests {
 
     use super::*;
diff --git a/src/parser.rs b/src/parser.rs
index 462932d..d0383b8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -12,6 +12,9 @@ pub use syntax::SyntaxKind;
 pub use events::SyntaxEvent;
 pub use tree::{Child, Tree, build_tree};
 
+#[cfg(mofmt_verif)]
+pub use {lexing::lex, parsing::events, tokens::Position};
+
 /// Output from the parser.
 /// Contains everything necesary to build a parse tree.
 pub struct ParsedModelica {
-- 
2.43.0


From 887e78cdca6a3c400847b42df7f37f7b440a5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 02/19] fix: lexer position after a multi-byte character

A line comment that ended with a character outside ASCII made the lexer slice
the source inside that character and panic.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From 9de822cb4f59cfdc7327612a404133aa8578842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 03/19] fix: '/*/' does not close the block comment it opens

---
 src/parser/lexing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..4fdff98 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -276,7 +276,10 @@ impl<'a> Lexer<'a> {
         if let Some(c) = self.peek() {
             match c {
                 '/' => self.lex_linecomment(),
-                '*' => self.lex_blockcomment(),
+                '*' => {
+                    self.next();
+                    self.lex_blockcomment()
+                }
                 _ => self.generate_token(ModelicaToken::Slash),
             }
         } else {
-- 
2.43.0


From e9a8009aae4f1495d4f69709467356f588a81cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 04/19] fix: accept real literals without an integer part

UNSIGNED-REAL of the Modelica Specification includes '.5' and '.5e3'; these
were split into a dot and an integer, and valid programs were rejected.
---
 src/parser/lexing.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 4fdff98..38e20b8 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -233,6 +233,8 @@ impl<'a> Lexer<'a> {
             self.generate_token(ModelicaToken::DotSlash)
         } else if self.accept("^") {
             self.generate_token(ModelicaToken::DotFlex)
+        } else if self.peek().is_some_and(|c| c.is_ascii_digit()) {
+            self.lex_fraction()
         } else {
             self.generate_token(ModelicaToken::Dot)
         }
@@ -339,6 +341,11 @@ impl<'a> Lexer<'a> {
             self.accept_digits();
             return self.generate_token(ModelicaToken::UReal);
         }
+        self.lex_fraction()
+    }
+
+    /// Scan the part of a real literal that follows the decimal point
+    fn lex_fraction(&mut self) {
         self.accept_digits();
         if self.accept("eE") {
             self.accept("+-");
-- 
2.43.0


From eba67738c9edb3e2762757bb8ac2f1d51ae89177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/19] fix: report real literals with an empty exponent

'1e', '1e+' and '1.e' were accepted as numbers.
---
 src/parser/lexing.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 38e20b8..81c9590 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -337,9 +337,7 @@ impl<'a> Lexer<'a> {
             if !self.accept("eE") {
                 return self.generate_token(ModelicaToken::UInt);
             }
-            self.accept("+-");
-            self.accept_digits();
-            return self.generate_token(ModelicaToken::UReal);
+            return self.lex_exponent();
         }
         self.lex_fraction()
     }
@@ -348,12 +346,21 @@ impl<'a> Lexer<'a> {
     fn lex_fraction(&mut self) {
         self.accept_digits();
         if self.accept("eE") {
-            self.accept("+-");
-            self.accept_digits();
+            return self.lex_exponent();
         }
         self.generate_token(ModelicaToken::UReal)
     }
 
+    /// Scan the part of a real literal that follows the exponent mark
+    fn lex_exponent(&mut self) {
+        self.accept("+-");
+        if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
+            return self.generate_error(String::from("missing digits of the exponent"));
+        }
+        self.accept_digits();
+        self.generate_token(ModelicaToken::UReal)
+    }
+
     /// Scan the slice that is supposed to be an indentifier or a keyword
     fn lex_nondigit(&mut self) {
         while let Some(c) = self.peek() {
-- 
2.43.0


From 85f5dc191642c7713791a219c96d8c7aad5cd338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 06/19] fix: report unexpected end of file instead of panicking

---
 src/parser/parsing.rs | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..65ba73e 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -185,15 +185,8 @@ impl<'a> Parser<'a> {
     }
 
     fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
+        let (line, col) = self.location();
+        panic!("{}:{}:{}: Parser stuck", self.name, line, col);
     }
 
     /// Return `true` if current token matches the specified type
@@ -216,26 +209,27 @@ impl<'a> Parser<'a> {
         false
     }
 
+    /// Return position of the current token, or of the last one at the end
+    /// of file
+    fn location(&self) -> (usize, usize) {
+        self.tokens
+            .get(self.pos)
+            .or(self.tokens.last())
+            .map_or((1, 1), |tok| (tok.start.line, tok.start.col))
+    }
+
     /// Mark currently parsed token as erroneus.
     fn error(&mut self, msg: String) {
-        if let Some(tok) = self.tokens.get(self.pos) {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name, tok.start.line, tok.start.col, msg
-            ));
-        } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
-        }
+        let (line, col) = self.location();
+        self.errors
+            .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
     }
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
+        if self.eof() {
+            return;
+        }
         let mark = self.enter();
         self.advance();
         self.exit(mark, SyntaxKind::Error);
-- 
2.43.0


From ce565bfb1eaee8e51fb15078c3da13fa21b8edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 07/19] fix: accept equations that begin with the call to
 initial()

---
 src/parser/parsing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 65ba73e..e04247d 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -854,13 +854,19 @@ fn equation_section(p: &mut Parser) {
     let mark = p.enter();
     p.consume(ModelicaToken::Initial);
     p.expect(ModelicaToken::Equation);
-    while !p.check_any(&SECTION_BREAKERS) && !p.eof() {
+    while (!p.check_any(&SECTION_BREAKERS) || is_initial_call(p)) && !p.eof() {
         equation(p);
         p.expect(ModelicaToken::Semicolon);
     }
     p.exit(mark, SyntaxKind::EquationSection);
 }
 
+/// Return `true` if parser is at the call to `initial()`, as opposed to the
+/// beginning of the initial section
+fn is_initial_call(p: &Parser) -> bool {
+    p.check(ModelicaToken::Initial) && p.nth(1) == ModelicaToken::LParen
+}
+
 fn algorithm_section(p: &mut Parser) {
     let mark = p.enter();
     p.consume(ModelicaToken::Initial);
-- 
2.43.0


From 6534b9ef4d176608da2a55df1f891f075830ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 08/19] fix: keep comments that follow the last token

---
 src/formatter/formatting.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..f41de5e 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -109,6 +109,7 @@ pub fn format(tree: Tree, comments: Vec<Token>) -> Vec<Marker> {
         SyntaxKind::AnnotationClause => annotation_clause(&mut f, tree),
         SyntaxKind::Error => (),
     }
+    f.handle_remaining_comments();
     f.markers
 }
 
@@ -186,6 +187,26 @@ impl Formatter {
         }
     }
 
+    /// Insert comments that follow the last token
+    fn handle_remaining_comments(&mut self) {
+        let mut line = self.prev_line;
+        while let Some(comment) = self.comments.next() {
+            if comment.start.line == self.prev_line {
+                if !self.markers.is_empty() {
+                    self.markers.push(Marker::Space);
+                }
+            } else if self.markers.is_empty() {
+                // Blank lines at the beginning of the file are dropped
+            } else if comment.start.line - line > 1 {
+                self.markers.push(Marker::Blank);
+            } else {
+                self.markers.push(Marker::Break);
+            }
+            line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
+        }
+    }
+
     /// Return comments from before the specified token.
     /// First vector contains inline comments.
     fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
-- 
2.43.0


From 0ba0a72ab4b288b4bbdad609c1001aea3ea1e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 09/19] fix: blank lines after an inline block comment with
 several lines

---
 src/formatter/formatting.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index f41de5e..13037dc 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -143,19 +143,21 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
+            line = comment.end.line;
             self.markers.push(Marker::Token(comment.text));
         }
         if let Blank::Required = blanks {
             self.markers.push(Marker::Blank);
         }
-        let mut line = self.prev_line;
+        let mut any_comment = false;
         for comment in comments {
             if let Blank::Required = blanks {
-                if line > self.prev_line {
+                if any_comment {
                     if comment.start.line - line > 1 {
                         self.markers.push(Marker::Blank);
                     } else {
@@ -169,6 +171,7 @@ impl Formatter {
             }
             self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
+            any_comment = true;
         }
         if let Blank::Legal = blanks {
             if tok.start.line - line > 1 {
@@ -178,7 +181,7 @@ impl Formatter {
             }
         } else if let Blank::Illegal = blanks {
             self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
+        } else if any_comment {
             if tok.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
-- 
2.43.0


From 9d01fc1351e1edbc5b17cfd08f0ef00d5bc3ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 10/19] fix: keep comments before the first class, no line
 break at the beginning of the file

---
 src/formatter/formatting.rs | 46 ++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 13037dc..86eab33 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -158,38 +158,36 @@ impl Formatter {
         for comment in comments {
             if let Blank::Required = blanks {
                 if any_comment {
-                    if comment.start.line - line > 1 {
-                        self.markers.push(Marker::Blank);
-                    } else {
-                        self.markers.push(Marker::Break);
-                    }
+                    self.break_or_blank(comment.start.line - line > 1);
                 }
-            } else if comment.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
             } else {
-                self.markers.push(Marker::Break);
+                self.break_or_blank(comment.start.line - line > 1);
             }
             self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
             any_comment = true;
         }
         if let Blank::Legal = blanks {
-            if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
-            }
+            self.break_or_blank(tok.start.line - line > 1);
         } else if let Blank::Illegal = blanks {
-            self.markers.push(Marker::Break);
+            self.break_or_blank(false);
         } else if any_comment {
-            if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
-            }
+            self.break_or_blank(tok.start.line - line > 1);
         }
     }
 
+    /// Insert linebreak marker, unless it is the beginning of the file
+    fn break_or_blank(&mut self, is_blank: bool) {
+        if self.markers.is_empty() {
+            return;
+        }
+        self.markers.push(if is_blank {
+            Marker::Blank
+        } else {
+            Marker::Break
+        });
+    }
+
     /// Insert comments that follow the last token
     fn handle_remaining_comments(&mut self) {
         let mut line = self.prev_line;
@@ -198,12 +196,8 @@ impl Formatter {
                 if !self.markers.is_empty() {
                     self.markers.push(Marker::Space);
                 }
-            } else if self.markers.is_empty() {
-                // Blank lines at the beginning of the file are dropped
-            } else if comment.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
             } else {
-                self.markers.push(Marker::Break);
+                self.break_or_blank(comment.start.line - line > 1);
             }
             line = comment.end.line;
             self.markers.push(Marker::Token(comment.text));
@@ -245,7 +239,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    if f.prev_tok != ModelicaToken::Final {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
@@ -256,7 +250,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
                 let kind = tok.kind;
                 if kind == ModelicaToken::Final {
                     f.handle_break(&tok, Blank::Legal);
-                } else if kind == ModelicaToken::Within && tok.idx > 0 {
+                } else if kind == ModelicaToken::Within {
                     f.handle_break(&tok, Blank::Illegal);
                 }
                 f.handle_token(tok);
-- 
2.43.0


From 1425d2294de969811a4b2f14405802e782a29823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 11/19] fix: restore indentation after a wrapped left side of
 an equation or a statement

---
 src/formatter/formatting.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 86eab33..bd69e8d 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1206,7 +1206,11 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    if simple_expression(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1267,7 +1271,11 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    if output_expression_list(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From 0787c11bbd99c30e2ca6ce1d52a6fbba255ca7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 12/19] fix: indent wrapped arguments of a function partial
 application

---
 src/formatter/formatting.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index bd69e8d..fbd7be6 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -2078,6 +2078,7 @@ fn function_partial_application(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.markers.push(Marker::Indent);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -2100,6 +2101,7 @@ fn function_partial_application(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.markers.push(Marker::Dedent);
 }
 
 fn output_expression_list(f: &mut Formatter, tree: Tree, mut wrapped: bool) -> bool {
-- 
2.43.0


From e02b40c78b8dc26d4a58933533932d2625eafdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 13/19] fix: wrap every list around a rule that starts on a new
 line

---
 src/formatter/formatting.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index fbd7be6..889f191 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -773,7 +773,7 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = (tree.is_multiline() || has_mandatory_break(&tree)) && tree.len() > 2;
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -865,7 +865,7 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = tree.is_multiline() || has_mandatory_break(&tree);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -966,11 +966,18 @@ fn modification_expression(f: &mut Formatter, tree: Tree) {
     }
 }
 
+/// Return `true` if the tree contains a rule that always starts on a new line.
+/// List around such rule has to be wrapped, as it is going to be multiline once
+/// it is formatted
+fn has_mandatory_break(tree: &Tree) -> bool {
+    tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause)
+}
+
 fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline()
-        || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+    let is_multiline = tree.is_multiline() || has_mandatory_break(&tree);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From 21eebc72d5dde7b81d534a7d6d83fcf74257411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 14/19] fix: report a missing operator at an operator entry
 point instead of aborting

---
 src/parser/parsing.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index e04247d..5f46882 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -1207,7 +1207,12 @@ fn relational_operator(p: &mut Parser) {
     let mark = p.enter();
     // It is only called in `relation`, which already does the checking,
     // so no need to check token once again
-    p.advance();
+    // (as an entry point it may still face the end of file)
+    if p.eof() {
+        p.error("expected a relational operator, found EOF".to_string());
+    } else {
+        p.advance();
+    }
     p.exit(mark, SyntaxKind::RelationalOperator);
 }
 
@@ -1234,7 +1239,12 @@ fn add_operator(p: &mut Parser) {
     let mark = p.enter();
     // It is only called in `arithmetic_expression`, which already does the checking,
     // so no need to check token once again
-    p.advance();
+    // (as an entry point it may still face the end of file)
+    if p.eof() {
+        p.error("expected an additive operator, found EOF".to_string());
+    } else {
+        p.advance();
+    }
     p.exit(mark, SyntaxKind::AddOperator);
 }
 
@@ -1258,7 +1268,12 @@ fn mul_operator(p: &mut Parser) {
     let mark = p.enter();
     // It is only called in `term`, which already does the checking,
     // so no need to check token once again
-    p.advance();
+    // (as an entry point it may still face the end of file)
+    if p.eof() {
+        p.error("expected a multiplicative operator, found EOF".to_string());
+    } else {
+        p.advance();
+    }
     p.exit(mark, SyntaxKind::MulOperator);
 }
 
-- 
2.43.0


From 4670c4fe1fc85e8d53cad4e78df3ad473bb528df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 15/19] fix: count a lone carriage return as a line break, as
 line comments do

---
 src/parser/lexing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 81c9590..4c45d69 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -80,7 +80,8 @@ impl<'a> Lexer<'a> {
             Some((i, c)) => {
                 self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
-                if c == '\n' {
+                // A lone carriage return ends a line as well (and a line comment)
+                if c == '\n' || (c == '\r' && self.peek() != Some('\n')) {
                     self.current.line += 1;
                     self.current.col = 1
                 }
-- 
2.43.0


From 82835d8f6a1672798a2674a3e1157ef59cb91353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 16/19] fix: report a stuck parser as a syntax error instead of
 aborting the run

---
 src/parser/parsing.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 5f46882..4629433 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -11,6 +11,9 @@ pub fn events(
 ) -> (Vec<SyntaxEvent>, Vec<String>) {
     let mut parser = Parser::new(name, tokens);
     parser.parse(start);
+    if parser.stuck.replace(false) {
+        parser.error("Parser stuck".to_string());
+    }
     (parser.events, parser.errors)
 }
 
@@ -28,6 +31,9 @@ struct Parser<'a> {
     pos: usize,
     /// Parser lifes
     lifes: Cell<u32>,
+    /// The parser looked too many times at the same token. The rest of
+    /// the file is out of its reach
+    stuck: Cell<bool>,
 }
 
 impl<'a> Parser<'a> {
@@ -138,6 +144,7 @@ impl<'a> Parser<'a> {
             errors: Vec::new(),
             pos: 0,
             lifes: Cell::new(100),
+            stuck: Cell::new(false),
         }
     }
 
@@ -162,21 +169,24 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        assert!(self.pos < self.tokens.len());
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
     }
 
-    /// Return `true` if parser reached the end of file
+    /// Return `true` if parser reached the end of file, or is stuck
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.stuck.get() || self.pos == self.tokens.len()
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
-            self.blowup();
+            self.stuck.set(true);
+        }
+        if self.stuck.get() {
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,11 +194,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let (line, col) = self.location();
-        panic!("{}:{}:{}: Parser stuck", self.name, line, col);
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
@@ -218,8 +223,12 @@ impl<'a> Parser<'a> {
             .map_or((1, 1), |tok| (tok.start.line, tok.start.col))
     }
 
-    /// Mark currently parsed token as erroneus.
+    /// Mark currently parsed token as erroneus. Errors of a stuck parser
+    /// would not say anything new.
     fn error(&mut self, msg: String) {
+        if self.stuck.get() {
+            return;
+        }
         let (line, col) = self.location();
         self.errors
             .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
-- 
2.43.0


From 196cf5df9f08bb594a3f0fe5c58dae63646a3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:52 +0000
Subject: [PATCH 17/19] fix: report a file that cannot be written instead of
 aborting the run

---
 src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..d014d65 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,8 +85,9 @@ fn format_files(args: &[String], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else {
-                        write_file(p, output);
+                    } else if let Err(e) = write_file(p, output) {
+                        eprintln!("{}: error: {}", name, e);
+                        code = 1;
                     }
                 }
             }
@@ -140,6 +141,6 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+fn write_file(to: &Path, code: String) -> Result<(), String> {
+    fs::write(to, code).map_err(|e| e.to_string())
 }
-- 
2.43.0


From 927d6cb50c7a475609fd657ce15b8d4366c449b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:53 +0000
Subject: [PATCH 18/19] fix: report a directory that cannot be read instead of
 aborting the run

---
 src/main.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d014d65..1112cd9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -47,17 +47,22 @@ fn main() {
 fn format_files(args: &[String], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
+    let mut errors = Vec::new();
     let mut lock = stdout().lock();
     args.iter()
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, &mut errors)
             } else {
                 vec![p]
             }
         })
         .for_each(|mut v| files.append(&mut v));
+    errors.iter().for_each(|e| {
+        eprintln!("{}", e);
+        code = 1;
+    });
     files.iter().for_each(|p| {
         let contents = read_file(p);
         let name = p.display();
@@ -100,16 +105,26 @@ fn format_files(args: &[String], check: bool) {
     std::process::exit(code);
 }
 
-/// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
+/// Return all Modelica files from the given directory. Collect errors from
+/// directories that cannot be read.
+fn get_files_from_dir(dir: PathBuf, errors: &mut Vec<String>) -> Vec<PathBuf> {
     let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
+    let paths: Vec<PathBuf> = match fs::read_dir(&dir).and_then(|entries| {
+        entries
+            .map(|entry| entry.map(|e| e.path()))
+            .collect()
+    }) {
+        Ok(paths) => paths,
+        Err(e) => {
+            errors.push(format!("{}: error: {}", dir.display(), e));
+            return files;
+        }
+    };
     paths
-        .map(|e| e.unwrap().path())
+        .into_iter()
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, errors)
             } else if is_modelica(p.as_path()) {
                 vec![p]
             } else {
-- 
2.43.0


From 204fde5de7002ba739a3ba020811cd1888e0677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:54 +0000
Subject: [PATCH 19/19] fix: accept paths that are not valid UTF-8

---
 src/main.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1112cd9..765395e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::ffi::OsString;
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs};
@@ -19,24 +20,26 @@ Options:
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    // Paths don't have to be valid UTF-8, options do
+    let args: Vec<OsString> = env::args_os().collect();
+    let option = args.get(1).map(|a| a.to_string_lossy()).unwrap_or_default();
     if args.len() < 2 {
         eprintln!("Missing PATHS arguments.\n{}", HELP);
         std::process::exit(1);
-    } else if ["-h", "--help"].contains(&args[1].as_str()) {
+    } else if ["-h", "--help"].contains(&option.as_ref()) {
         println!("{}", HELP);
         std::process::exit(0);
-    } else if ["-v", "--version"].contains(&args[1].as_str()) {
+    } else if ["-v", "--version"].contains(&option.as_ref()) {
         println!("mofmt, {}", VERSION);
         std::process::exit(0);
-    } else if args[1].as_str() == "--check" {
+    } else if option == "--check" {
         if args.len() < 3 {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
         format_files(&args[2..], true);
-    } else if args[1].starts_with('-') {
-        eprintln!("Unrecognized option: '{}'.\n{}", args[1], HELP);
+    } else if option.starts_with('-') {
+        eprintln!("Unrecognized option: '{}'.\n{}", option, HELP);
         std::process::exit(1);
     } else {
         format_files(&args[1..], false);
@@ -44,7 +47,7 @@ fn main() {
 }
 
 /// Format files specified in the argument list
-fn format_files(args: &[String], check: bool) {
+fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut errors = Vec::new();
-- 
2.43.0

