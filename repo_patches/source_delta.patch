From 07597f3035fcb090eb2f4af3fa646f0eaae7d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 01/11] fix: resolve `with` variable names in the template that
 defines them

---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..c31fabd 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if &source[v.first().access.span()] == *name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From 2ef4a6694c4a909ad3e66190fa0e92df75e9f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 02/11] fix: evaluate missing optional member of loop variable
 to none

---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..b3b6c2d 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,7 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From 1330b300223022f887a8203a4e7f9f4b13ea58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 03/11] fix: short-circuit missing optional member of `loop`

---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index b3b6c2d..eb1cbff 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -268,7 +268,7 @@ impl<'a> LoopState<'a> {
             (_, "index") => Value::Integer(i as i64),
             (_, "first") => Value::Bool(i == 0),
             (_, "last") => Value::Bool(rem == 0),
-            (ast::AccessOp::Optional, _) => Value::None,
+            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
             (ast::AccessOp::Direct, _) => {
                 return Err(Error::render("not found in map", source, member.span))
             }
-- 
2.43.0


From 1e583744fd212bd57784fdeb64d506fbda2a3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 04/11] fix: allow escaped backslash at the end of a string
 literal

---
 src/compile/lex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..3ae84ab 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -379,6 +379,10 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '"')) if curr != '\\' => {
                     return Ok((Token::String, j + 1));
                 }
+                // An escaped backslash does not escape the next character.
+                Some((_, '\\')) if curr == '\\' => {
+                    curr = '"';
+                }
                 Some((_, c)) => {
                     curr = c;
                 }
-- 
2.43.0


From eb363fee31515a6d30de7fbb110346e568fa3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 05/11] fix: allow empty comments

---
 src/compile/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..90b8052 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,10 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    // The comment is possibly empty
+                    if !self.is_next(Token::EndComment)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From 3fa47f1f5f12326da9c3d9226f6977308f9e7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 06/11] fix: allow number literal after a keyword that follows
 a path

---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 3ae84ab..afff43f 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From be68c84e57909a9e09b0333871f0b7ddc95242f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 07/11] fix: do not trim past the start of the raw template

---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index afff43f..dcf7fe5 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -173,7 +173,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
 
         let mut trim_raw_token = |mut i, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From 22384cbea802df962d30e15e1be74ce517e0131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 08/11] fix: point at the invalid digit in signed literals

---
 src/compile/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 90b8052..d9592c7 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -685,7 +685,8 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    // The span includes the sign so count back from the end
+                    let m = span.n - raw.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From 24b0409267cae6d12a3ff9b9399fa06be0919404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 09/11] fix: locate errors by byte offset and only use display
 width for columns

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..c01ff95 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -278,9 +278,9 @@ impl Pretty {
 fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
     let mut n = 0;
     for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
+        let len = line.len() + 1;
         if n + len > offset {
-            return (i, offset - n);
+            return (i, display_width(&line[..offset - n]));
         }
         n += len;
     }
-- 
2.43.0


From 197463d5e92368fb8fc51396cbcb49e65cc89a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 10/11] fix: show the last line for errors at the end of the
 template

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index c01ff95..95c4b1c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,7 +229,7 @@ struct Pretty {
 
 impl Pretty {
     fn build(source: &str, span: Span) -> Self {
-        let lines: Vec<_> = source.split_terminator('\n').collect();
+        let lines: Vec<_> = source.split('\n').collect();
         let (ln, col) = to_ln_col(&lines, span.m);
         let width = max(1, display_width(&source[span]));
         let text = lines
-- 
2.43.0


From b4f871928ae187f05696c6c077d96edcc976c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 11/11] fix: allow trimming end tag directly after a number
 literal

---
 src/compile/lex.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index dcf7fe5..f1f6315 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -275,7 +275,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                     '"' => self.lex_string(iter, i)?,
                     c if c.is_ascii_digit() => match block_state {
                         BlockState::Path => self.lex_index(iter),
-                        BlockState::Unknown => self.lex_number(iter),
+                        BlockState::Unknown => self.lex_number(iter, i),
                     },
                     c if is_whitespace(c) => self.lex_whitespace(iter),
                     c if is_ident_start(c) => self.lex_ident_or_keyword(iter, i),
@@ -390,11 +390,18 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         }
     }
 
-    fn lex_number<I>(&mut self, iter: I) -> (Token, usize)
+    fn lex_number<I>(&mut self, iter: I, i: usize) -> (Token, usize)
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Number, self.lex_while(iter, is_number))
+        let j = self.lex_while(iter, is_number);
+        // A trimming end tag starts with a character that is valid in a number
+        // so we have to make sure not to consume part of the tag.
+        let j = match self.engine.searcher.find_at(self.source, i) {
+            Some((_, k, _)) if k < j => k,
+            _ => j,
+        };
+        (Token::Number, j)
     }
 
     fn lex_index<I>(&mut self, iter: I) -> (Token, usize)
-- 
2.43.0

