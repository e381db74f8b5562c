From 229aabba546b22663204d136b3a536b376891b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 01/44] fix: seek to the character boundary when rewinding past
 non ASCII characters

---
 lexer/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..32bf929 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -507,7 +507,13 @@ impl Seek for Lexer<'_> {
             SeekFrom::Current(offset) => (self.reader.position() as i64 + offset) as u64,
         };
 
-        let offset = pos as usize;
+        // Positions are not exact after a non ASCII character, the item always starts at the first
+        // character boundary at or after the position.
+        let mut offset = pos as usize;
+        while offset < self.data.len() && !self.data.is_char_boundary(offset) {
+            offset += 1;
+        }
+
         self.reader = PeekReader::with_offset(self.data[offset..].char_indices(), offset).unwrap();
         self.first_on_line = true;
 
-- 
2.43.0


From 4023ca909131c4a8ef52995002659b2f2dc20ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 02/44] fix: emit errors next to non ASCII characters and on
 very long lines

---
 parser/src/error/emitter.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..8ad9c7d 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -19,7 +19,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
-        let span = &error.span;
+        let span = &self.get_char_boundaries(&error.span);
         let line_span = self.get_line_boundaries(span);
         let col_number = span.start - line_span.start + 1;
         let line_number = self.get_line_number(span);
@@ -54,13 +54,19 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let line_number_str = line_number.to_string();
         let padding = line_number_str.len() + 1;
 
-        let err_span = error.span.translate(-(line_span.start as isize));
-        let err_token_length = err_span.end - err_span.start;
-
-        writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
+        let err_span = self
+            .get_char_boundaries(&error.span)
+            .translate(-(line_span.start as isize));
 
         let line = &self.source[line_span.start..line_span.end];
         let tab_indents = &line[0..err_span.start].matches('\t').count();
+
+        // The formatter do not support any larger widths than this.
+        let max_width = u16::MAX as usize;
+        let err_offset = (err_span.start + tab_indents * 3).min(max_width);
+        let err_token_length = (err_span.end - err_span.start).min(max_width);
+
+        writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
         writeln!(
             self.out,
             "{:<pad$}| {}",
@@ -76,7 +82,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             "^",
             label,
             pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
+            err_offset = err_offset,
             err_mark = err_token_length
         )?;
 
@@ -87,6 +93,19 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         self.source[..span.end].matches('\n').count() + 1
     }
 
+    /// Positions are not exact after a non ASCII character, this moves the span to the closest
+    /// following character boundaries of the source.
+    fn get_char_boundaries(&self, span: &Span) -> Span {
+        let boundary = |position: usize| {
+            (position..self.source.len())
+                .find(|position| self.source.is_char_boundary(*position))
+                .unwrap_or(self.source.len())
+        };
+
+        let start = boundary(span.start);
+        Span::new(start, boundary(span.end).max(start))
+    }
+
     fn get_line_boundaries(&self, span: &Span) -> Span {
         let start = self.source[..span.start]
             .rfind('\n')
@@ -107,7 +126,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let span = self.get_char_boundaries(&error.span);
+                let token_value = &self.source[span.start..span.end];
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
-- 
2.43.0


From 4128fe515f77a70c3175d776df9d4c7aaf07aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 03/44] fix: return error instead of panic when module
 specifier is not a string

---
 parser/src/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..0c02053 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -201,6 +201,10 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
+        if !self.current_matches_string_literal() {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
         let module_name = self
             .parse_literal()?
             .unwrap_literal()
-- 
2.43.0


From bd23d06c9f59f1773b138519d2f7aeec5ddaf9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 04/44] fix: async and function on different lines is not an
 async function

---
 parser/src/module.rs | 13 +++++++++----
 parser/src/stmt.rs   |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 0c02053..9ab9414 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..21564ca 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From 032694066734330af51da7cc490535a68bd579cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 05/44] fix: span of the error when a declaration is missing
 after export

---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 9ab9414..5a80c8c 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -103,7 +103,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From e5066bb34fdf785f3b83ab3aaf69346ea80c1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 06/44] fix: allow async as an identifier reference

---
 parser/src/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..d4ae6f9 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -762,7 +762,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
-- 
2.43.0


From 7043edd2354d7e3fbaec9f9287851d5d13773667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 07/44] fix: new line is not allowed between async and arrow
 function parameters

---
 parser/src/expr.rs     | 4 +++-
 parser/src/function.rs | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index d4ae6f9..4bb0df8 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -191,7 +191,9 @@ where
         match self.peek() {
             token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
             token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
+            _ if self.peek_is_identifier() && !self.followed_by_new_line() => {
+                self.parse_async_arrow_function_expr()
+            }
             _ => self.parse_conditional_expr(),
         }
     }
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..3cf0027 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -27,6 +27,10 @@ where
         let asynchronous = true;
         let span_start = self.position();
         self.consume_assert(&keyword!("async"))?;
+        if self.first_on_line() {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
         self.parse_arrow_function(span_start, asynchronous)
     }
 
-- 
2.43.0


From b77d5a91b512ff7e135e934306dcd931a8918ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 08/44] fix: allow methods with the name async

---
 parser/src/method.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..1b8dc51 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.followed_by_new_line() && !self.peek_matches(&punct!("(")) =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 257b45e72b44033c72babeaf893cf5f2f41612b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 09/44] fix: allow async, get, set and static as shorthand
 properties

---
 parser/src/literal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..342ef44 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -262,9 +262,13 @@ where
     pub fn is_object_method_definition(&self) -> bool {
         match self.current() {
             token_matches!(ok: punct!("*") | punct!("[")) => true,
-            token_matches!(ok: keyword!("static")) => true,
-            token_matches!(ok: keyword!("async")) if !self.peek_matches(&punct!(":")) => true,
-            token_matches!(ok: keyword!("get") | keyword!("set")) => true,
+            token_matches!(
+                ok: keyword!("static") | keyword!("async") | keyword!("get") | keyword!("set")
+            ) => {
+                !self.peek_matches(&punct!(","))
+                    && !self.peek_matches(&punct!("}"))
+                    && !self.peek_matches(&punct!("="))
+            }
             _ => self.peek_matches(&punct!("(")),
         }
     }
-- 
2.43.0


From 569f4f84f83b1cd4eac3467c49f1cd48e6503e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 10/44] fix: allow the in operator inside of declarations,
 brackets and templates

---
 parser/src/assignment_pattern.rs |  5 ++++-
 parser/src/expr.rs               |  8 ++++++--
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            | 11 ++++++++---
 parser/src/member_access.rs      |  2 +-
 parser/src/stmt.rs               |  2 +-
 parser/src/variable.rs           |  9 +++------
 7 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..3d44b13 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -188,7 +188,10 @@ where
         let ident = self.parse_identifier()?;
         let initializer = self
             .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+            .then_try(|| {
+                self.with_context(self.context.with_in(true))
+                    .parse_initializer()
+            })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 4bb0df8..343780d 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -291,7 +291,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -567,7 +569,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..b646ce8 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -423,7 +423,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 342ef44..f2f7043 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
@@ -129,7 +130,9 @@ where
                 break;
             }
 
-            let element = self.parse_array_element()?;
+            let element = self
+                .with_context(self.context.with_in(true))
+                .parse_array_element()?;
             if element != ArrayElement::Elision {
                 self.consume_list_delimiter(&punct!("]"))?;
             }
@@ -174,7 +177,9 @@ where
                 break;
             }
 
-            let prop = self.parse_property_definition()?;
+            let prop = self
+                .with_context(self.context.with_in(true))
+                .parse_property_definition()?;
 
             // This is covered by the `CoverInitializedName` production. It is invalid syntax in an
             // object literal.
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..5602bac 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -148,7 +148,7 @@ where
 
     fn parse_computed_property(&mut self) -> Result<Expr> {
         self.consume_assert(&punct!("["))?;
-        let expr = self.parse_expr()?;
+        let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!("]"))?;
 
         Ok(expr)
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 21564ca..109fa22 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -302,7 +302,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..e5e3973 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.maybe_consume(&punct!(";"))?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From e37f5fbd2e2bcfb31d03e94dd3aa7579d2b4ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 11/44] fix: require a semicolon where it cannot be inserted

---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 109fa22..d37eddd 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -190,7 +190,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -202,7 +202,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -222,7 +222,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -251,7 +251,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -266,7 +266,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index e5e3973..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -18,7 +18,7 @@ where
         let declarations = self
             .with_context(self.context.with_in(true))
             .parse_variable_declarations()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From 84747c1b8953552ed055f2d7433d0fdda8d7f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 12/44] fix: restore lexer state when reading with another
 state fails

---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 32bf929..7f79c33 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -566,10 +566,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From 1da8516f67c1073c19a63c2ccabf18c6deb57b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/44] fix: token following a template is only first on line
 after a new line

---
 lexer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 7f79c33..888a3d7 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -398,6 +398,8 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
+        self.first_on_line = false;
+
         let span = Span::new(span_start, self.reader.position());
         Ok(Token {
             span,
-- 
2.43.0


From 67cad4f54a78d448733a37c39c33e609880da22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 14/44] fix: html comments start with <!-- and not <!

---
 lexer/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 888a3d7..c7114fa 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.is_html_open_comment() => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.position();
                         return Err(Error::syntax_error(
@@ -287,6 +287,22 @@ impl<'a> Lexer<'a> {
         Ok(())
     }
 
+    /// Returns `true` if current position is the start of a legacy html comment: `<!--`
+    fn is_html_open_comment(&self) -> bool {
+        let start = self.char_boundary(self.reader.position());
+        self.data[start..].starts_with("<!--")
+    }
+
+    /// Positions are not exact after a non ASCII character, the next item always starts at the first
+    /// character boundary at or after the position.
+    fn char_boundary(&self, position: usize) -> usize {
+        let mut boundary = position;
+        while boundary < self.data.len() && !self.data.is_char_boundary(boundary) {
+            boundary += 1;
+        }
+        boundary
+    }
+
     fn skip_single_line_comment(&mut self) {
         self.reader.consume().unwrap();
         self.reader.consume().unwrap();
@@ -509,13 +525,7 @@ impl Seek for Lexer<'_> {
             SeekFrom::Current(offset) => (self.reader.position() as i64 + offset) as u64,
         };
 
-        // Positions are not exact after a non ASCII character, the item always starts at the first
-        // character boundary at or after the position.
-        let mut offset = pos as usize;
-        while offset < self.data.len() && !self.data.is_char_boundary(offset) {
-            offset += 1;
-        }
-
+        let offset = self.char_boundary(pos as usize);
         self.reader = PeekReader::with_offset(self.data[offset..].char_indices(), offset).unwrap();
         self.first_on_line = true;
 
-- 
2.43.0


From 694a036cc707896cf9e0821b8f312c3addaaf40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 15/44] fix: allow reserved words as property names in optional
 chains

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 5602bac..5e66a5c 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From a4c89de135f07edfc459aa8e81a077f1fe52840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 16/44] fix: allow templates with substitutions to be tagged
 with a call expression

---
 parser/src/expr.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 343780d..4747670 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -14,7 +14,7 @@ use fajt_ast::{
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::{Token, TokenValue};
+use fajt_lexer::token::Token;
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -501,9 +501,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From a65e10145e0184030e69d07df768c7f889054a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 17/44] fix: require comma between elements of array assignment
 patterns

---
 parser/src/assignment_pattern.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 3d44b13..f44a103 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,10 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+                    if !self.current_matches(&punct!(",")) && !self.current_matches(&punct!("]")) {
+                        let token = self.consume()?;
+                        return Err(Error::expected_other_token(token, &punct!(",")));
+                    }
                 }
             }
         }
-- 
2.43.0


From 58018a954ae10d5d6bf2f1971f26c64efa0f890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 18/44] fix: methods do not inherit await and super from the
 enclosing function

---
 parser/src/literal.rs | 11 +++++++++--
 parser/src/method.rs  |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index f2f7043..10261bc 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -243,8 +243,15 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
-                .map(PropertyDefinition::Method)
+            self.with_context(
+                self.context
+                    .with_yield(false)
+                    .with_await(false)
+                    .with_in_method(true)
+                    .with_super_call_allowed(false),
+            )
+            .parse_method(span_start, false, name, MethodKind::Method)
+            .map(PropertyDefinition::Method)
         }
     }
 
diff --git a/parser/src/method.rs b/parser/src/method.rs
index 1b8dc51..4ac16fc 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -35,7 +35,8 @@ where
             _ => {
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
-                self.parse_method(span_start, is_static, name, MethodKind::Method)
+                self.with_context(self.context.with_await(false))
+                    .parse_method(span_start, is_static, name, MethodKind::Method)
             }
         }
     }
@@ -59,7 +60,8 @@ where
         self.consume()?;
 
         let name = self.parse_property_name()?;
-        self.parse_method(span_start, is_static, name, kind)
+        self.with_context(self.context.with_await(false))
+            .parse_method(span_start, is_static, name, kind)
     }
 
     /// Parses the `AsyncMethod` and `AsyncGeneratorMethod` production.
-- 
2.43.0


From b2feb38a2fc0392a29e400298c7acdd365bf9d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 19/44] fix: arrow functions inherit strict mode

---
 parser/src/function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index 3cf0027..2c5a4fa 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -51,6 +51,7 @@ where
                 self.context
                     .reset_parameters()
                     .with_in(self.context.is_in)
+                    .with_strict(self.context.is_strict)
                     .with_await(asynchronous),
             )
             .parse_concise_body()?;
-- 
2.43.0


From 7291a1db8720d11a074837cec25284e2503f4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 20/44] fix: function identifier is only optional directly
 after export default

---
 parser/src/function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index 2c5a4fa..7153544 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -277,7 +277,12 @@ where
         let is_strict = self.context.is_strict || directives.as_slice().contains_strict();
 
         let statements = self
-            .with_context(self.context.with_strict(is_strict).with_return(true))
+            .with_context(
+                self.context
+                    .with_strict(is_strict)
+                    .with_default(false)
+                    .with_return(true),
+            )
             .parse_function_body_stmt_list()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From 4211323b0e8be078cd85e82e78d7c1d2e590171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 21/44] fix: module code is always strict mode code

---
 parser/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b646ce8..99f600b 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -194,7 +194,9 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        // Module code is always strict mode code.
+        let strict_mode = parser.source_type == SourceType::Module
+            || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
-- 
2.43.0


From 69105b5cdaf43ee4332dcc4569f1a773dbb0f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 22/44] fix: traverse the namespace binding of imports, and
 named imports only once

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..e1d08f5 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From af13b6bda19658430eb33ab955ef970e3ccf3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 23/44] fix: traverse the alternate of conditional expressions

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index e1d08f5..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From cdde10ced922ae1e0fc81c0d59e66d6eaad11728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 24/44] fix: traverse and generate declarations in for-in and
 for-of

---
 ast/src/traverse/mod.rs | 4 +++-
 codegen/src/lib.rs      | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..0364702 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 0da100c..016ee2b 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -576,6 +576,14 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_for_binding(&mut self, node: &mut ForBinding) -> bool {
+        self.string(&node.kind.to_string());
+        self.space();
+        node.binding.traverse(self);
+        self.space();
+        false
+    }
+
     fn exit_for_init(&mut self, node: &mut ForInit) {
         if matches!(node, ForInit::Declaration(_)) {
             // Variable statements ends with semicolon, don't want that inside for syntax.
-- 
2.43.0


From c6b5da71bac7e534ea337ff0af8ce043b1345e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 25/44] fix: traverse the content of assignment patterns

---
 ast/src/traverse/mod.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 0364702..6d20028 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -198,7 +198,13 @@ generate_fold_and_visit! {
         }
 
         AssignmentPattern: (enter: enter_assignment_pattern, exit: exit_assignment_pattern) {
-            // TODO
+            Array
+            Object
+        }
+
+        AssignmentProp: (enter: enter_assignment_prop, exit: exit_assignment_prop) {
+            Single
+            Named
         }
     }
 
@@ -469,6 +475,32 @@ generate_fold_and_visit! {
             binding
         }
 
+        ArrayAssignmentPattern: (enter: enter_array_assignment_pattern, exit: exit_array_assignment_pattern) {
+            elements
+            rest
+        }
+
+        ObjectAssignmentPattern: (enter: enter_object_assignment_pattern, exit: exit_object_assignment_pattern) {
+            props
+            rest
+        }
+
+        AssignmentElement: (enter: enter_assignment_element, exit: exit_assignment_element) {
+            target
+            initializer
+        }
+
+        SingleNameAssignmentProp: (enter: enter_single_name_assignment_prop, exit: exit_single_name_assignment_prop) {
+            ident
+            initializer
+        }
+
+        NamedAssignmentProp: (enter: enter_named_assignment_prop, exit: exit_named_assignment_prop) {
+            name
+            value
+            initializer
+        }
+
         NamedProperty: (enter: enter_named_property, exit: exit_named_property) {
             name
             value
-- 
2.43.0


From 236e64d754581ddfbcadf86e6bfc1769e2c05041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 26/44] fix: generate assignment patterns

---
 codegen/src/lib.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 016ee2b..97ca28f 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1139,6 +1139,56 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
+        let spaced = !node.elements.is_empty() || node.rest.is_some();
+        self.parenthesize('[', spaced, |s| {
+            // The elements contains a `None` for each comma, see `parse_array_assignment_pattern`.
+            for element in &mut node.elements {
+                if element.is_some() {
+                    element.traverse(s);
+                } else {
+                    s.char(',');
+                    s.space();
+                }
+            }
+
+            if let Some(rest) = node.rest.as_mut() {
+                s.string("...");
+                rest.traverse(s);
+            }
+        });
+        false
+    }
+
+    fn enter_object_assignment_pattern(&mut self, node: &mut ObjectAssignmentPattern) -> bool {
+        let spaced = !node.props.is_empty() || node.rest.is_some();
+        self.parenthesize('{', spaced, |s| {
+            s.comma_separated_with_rest(&mut node.props, &mut node.rest);
+        });
+        false
+    }
+
+    fn enter_assignment_element(&mut self, node: &mut AssignmentElement) -> bool {
+        node.target.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_single_name_assignment_prop(&mut self, node: &mut SingleNameAssignmentProp) -> bool {
+        node.ident.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_named_assignment_prop(&mut self, node: &mut NamedAssignmentProp) -> bool {
+        node.name.traverse(self);
+        self.char(':');
+        self.space();
+        node.value.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
     fn enter_variable_declaration(&mut self, node: &mut VariableDeclaration) -> bool {
         node.pattern.traverse(self);
 
-- 
2.43.0


From 8d5b0537571a9b5ba57779146e1e1b448f745299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 27/44] fix: generate semicolon after throw and namespace
 exports

---
 codegen/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 97ca28f..fea7f31 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -463,6 +463,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
+        self.char(';');
         false
     }
 
@@ -910,6 +911,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
+        self.char(';');
         false
     }
 
-- 
2.43.0


From 4135cdf3505ce5c9cc0515f4509dc4c7791b6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 28/44] fix: do not remove empty statements from minified code

---
 codegen/src/lib.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index fea7f31..dd42a98 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -46,6 +46,7 @@ impl Default for GeneratorContext {
 struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
+    last_empty_statement: Cell<usize>,
 }
 
 impl Index {
@@ -53,6 +54,7 @@ impl Index {
         Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
+            last_empty_statement: Cell::new(0),
         }
     }
 
@@ -71,6 +73,14 @@ impl Index {
     fn set_block_start(&self, pos: usize) {
         self.last_block_start.replace(pos);
     }
+
+    fn last_empty_statement(&self) -> usize {
+        self.last_empty_statement.get()
+    }
+
+    fn set_empty_statement(&self, pos: usize) {
+        self.last_empty_statement.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -287,6 +297,14 @@ impl CodeGenerator<'_> {
         false
     }
 
+    /// Remove last semicolon, unless it is an empty statement since it may be the required body of
+    /// another statement, removing it would result in invalid code like `for(true)`, `else`, ...
+    fn remove_last_semicolon(&mut self) {
+        if self.index.last_empty_statement() != self.pos() {
+            self.remove_last(';');
+        }
+    }
+
     fn last(&self) -> Option<char> {
         self.data.chars().last()
     }
@@ -342,7 +360,7 @@ impl CodeGenerator<'_> {
 
         if self.ctx.minified {
             // No ';' is necessary before a '}'.
-            self.remove_last(';');
+            self.remove_last_semicolon();
         }
 
         self.char('}');
@@ -393,10 +411,8 @@ impl CodeGenerator<'_> {
 
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
-        if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
-            // Don't remove semi colon if that render the last char a ')' since that could
-            // result in invalid code like `for(true)`, `if(true)`, ...
-            self.char(';');
+        if self.ctx.minified {
+            self.remove_last_semicolon();
         }
     }
 
@@ -1032,6 +1048,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_empty_statement(&mut self, _node: &mut StmtEmpty) -> bool {
         self.char(';');
+        self.index.set_empty_statement(self.pos());
         false
     }
 
-- 
2.43.0


From 76d9705091fc8e6982fb29e9a1f84afc0a460647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 29/44] fix: generate trailing elisions of arrays

---
 codegen/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index dd42a98..e1be12b 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1114,21 +1114,17 @@ impl Visitor for CodeGenerator<'_> {
             while let Some(element) = elements.next() {
                 element.traverse(s);
 
-                if elements.peek().is_some() || element.is_none() {
+                // A trailing elision must also be followed by a comma to not be lost.
+                if elements.peek().is_some() || element.is_none() || node.rest.is_some() {
                     s.char(',');
                 }
 
-                if elements.peek().is_some() {
+                if elements.peek().is_some() || node.rest.is_some() {
                     s.space();
                 }
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if !node.elements.is_empty() {
-                    s.char(',');
-                    s.space();
-                }
-
                 s.string("...");
                 rest.traverse(s);
             }
@@ -1266,6 +1262,11 @@ impl Visitor for CodeGenerator<'_> {
         let spaced = !node.elements.is_empty();
         self.parenthesize('[', spaced, |s| {
             s.comma_separated(&mut node.elements);
+
+            // A trailing elision must also be followed by a comma to not be lost.
+            if matches!(node.elements.last(), Some(ArrayElement::Elision)) {
+                s.char(',');
+            }
         });
         false
     }
-- 
2.43.0


From a4b96123a22458633cd498df1affddddbb9d9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 30/44] fix: separate generated tokens that would be merged

---
 codegen/src/lib.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index e1be12b..2e7747b 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -47,6 +47,7 @@ struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
     last_empty_statement: Cell<usize>,
+    last_regexp: Cell<usize>,
 }
 
 impl Index {
@@ -55,6 +56,7 @@ impl Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
             last_empty_statement: Cell::new(0),
+            last_regexp: Cell::new(0),
         }
     }
 
@@ -81,6 +83,14 @@ impl Index {
     fn set_empty_statement(&self, pos: usize) {
         self.last_empty_statement.replace(pos);
     }
+
+    fn last_regexp(&self) -> usize {
+        self.last_regexp.get()
+    }
+
+    fn set_regexp(&self, pos: usize) {
+        self.last_regexp.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -399,16 +409,30 @@ impl CodeGenerator<'_> {
 
     /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
     fn must_add_space_before(&self, str: &str) -> bool {
-        let last_is_alphanumeric = self.last().map(char::is_alphanumeric).unwrap_or(false);
-        let first_is_alphanumeric = str
-            .chars()
-            .next()
-            .map(char::is_alphanumeric)
-            .unwrap_or(false);
-        last_is_alphanumeric && first_is_alphanumeric
+        let (last, first) = match (self.last(), str.chars().next()) {
+            (Some(last), Some(first)) => (last, first),
+            _ => return false,
+        };
+
+        match (last, first) {
+            // `+ +`, `+ ++`, `- -`, `- --`, ...
+            ('+', '+') | ('-', '-') => true,
+            // Division followed by regexp would be a comment.
+            ('/', '/') => true,
+            // `a <! --b` would be a html comment.
+            ('<', '!') => true,
+            // Regexp followed by keyword would be parsed as flags.
+            ('/', first) if self.index.last_regexp() == self.pos() => is_word_char(first),
+            _ => is_word_char(last) && is_word_char(first),
+        }
     }
 }
 
+/// Returns `true` if `char` can be part of a keyword, identifier or number.
+fn is_word_char(char: char) -> bool {
+    char.is_alphanumeric() || !(char.is_ascii() || char.is_whitespace()) || matches!(char, '_' | '$')
+}
+
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
         if self.ctx.minified {
@@ -1239,7 +1263,10 @@ impl Visitor for CodeGenerator<'_> {
             Literal::Null => self.string("null"),
             Literal::Boolean(true) => self.string("true"),
             Literal::Boolean(false) => self.string("false"),
-            Literal::Regexp(str) => self.string(str),
+            Literal::Regexp(str) => {
+                self.string(str);
+                self.index.set_regexp(self.pos());
+            }
             _ => return true,
         }
 
-- 
2.43.0


From e7ff6733f5fb899c5c89a8942f1d1e492db95834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 31/44] fix: dynamic import and import.meta at the start of an
 expression statement

---
 parser/src/stmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index d37eddd..a124b95 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -78,7 +78,10 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            // `import(` and `import.` are the start of an expression statement.
+            token_matches!(keyword!("import"))
+                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
+            {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
-- 
2.43.0


From 77b998b1f8066cb0be4794e90e9de87f06eb5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 32/44] fix: the right side of for-of is an
 AssignmentExpression, not a sequence

---
 parser/src/iteration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 3c9ed3e..c3e2344 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -173,7 +173,9 @@ where
     ) -> Result<Stmt> {
         self.consume_assert(&keyword!("of"))?;
 
-        let right = self.with_context(self.context.with_in(true)).parse_expr()?;
+        let right = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
 
         self.consume_assert(&punct!(")"))?;
 
-- 
2.43.0


From 4a5be8020bc01c486da1e2fb702eed4fd7c1a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 33/44] fix: only new with arguments can be the base of an
 optional chain

---
 parser/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 4747670..0c1e59b 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -475,9 +475,9 @@ where
         }?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
+            // The NewExpression production (`new` without arguments) is not included in the
             // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            if matches!(&expr, Expr::New(new) if new.arguments_span.is_none()) {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From 9ba72ef60fb7306392b2c33994429486e5e00308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 34/44] fix: async as the start of calls, members and
 assignments

---
 parser/src/cover.rs | 16 ++++++++++------
 parser/src/expr.rs  | 31 ++++++++++++-------------------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 8df052c..53b6c53 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -46,16 +46,20 @@ where
     }
 
     /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production.
+    /// As for parenthesized expressions, an async arrow function is returned as an error that must
+    /// be caught higher up.
     pub(super) fn parse_cover_call_or_async_arrow_head(&mut self) -> Result<Expr> {
         let start_token = self.current()?.clone();
         match self.parse_covered_call_expression() {
-            Ok(expr) if !self.current_matches(&punct!("=>")) => Ok(expr),
-            Ok(_) => {
-                self.reader.rewind_to(&start_token)?;
-                self.parse_async_arrow_function_expr()
-            }
-            error => error,
+            Ok(expr) if !self.current_matches(&punct!("=>")) => return Ok(expr),
+            Err(error) if error.kind() != &InitializedNameNotAllowed => return Err(error),
+            _ => {}
         }
+
+        self.reader.rewind_to(&start_token)?;
+        Err(Error::arrow_function_not_allowed(
+            self.parse_async_arrow_function_expr()?,
+        ))
     }
 
     /// Parses the `CallExpression` covered by `CoverCallExpressionAndAsyncArrowHead`.
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 0c1e59b..10f7457 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -59,10 +59,14 @@ where
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
             }
-            token_matches!(ok: keyword!("async")) => self.parse_assignment_expr_async(),
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
+            token_matches!(ok: keyword!("async"))
+                if self.peek_is_identifier() && !self.followed_by_new_line() =>
+            {
+                self.parse_async_arrow_function_expr()
+            }
             _ => {
                 /// When parsing an expression, it may fail during object literal parsing because
                 /// of the `CoverInitializedName` production. When that happens, we must retry
@@ -181,23 +185,6 @@ where
         }
     }
 
-    /// Parses the part of `AssignmentExpression` that starts with the `async` keyword.
-    /// Examples:
-    /// 1. `async => {}` // Non async arrow function with the name async.
-    /// 2. `async a => {}` // Async arrow function without parameter parentheses.
-    /// 3. `async(a) => {}` // Async arrow function with parentheses.
-    /// 4. `async(a)` // Function call where `async` is an identifier and not a keyword.
-    fn parse_assignment_expr_async(&mut self) -> Result<Expr> {
-        match self.peek() {
-            token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
-            token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() && !self.followed_by_new_line() => {
-                self.parse_async_arrow_function_expr()
-            }
-            _ => self.parse_conditional_expr(),
-        }
-    }
-
     /// Parses the part of `AssignmentExpression` that is an assignment.
     fn parse_assignment(
         &mut self,
@@ -468,7 +455,13 @@ where
             }
             _ => {
                 let span_start = self.position();
-                let expr = self.parse_new_or_member_expr()?;
+                let expr = if token_matches!(self.current(), ok: keyword!("async"))
+                    && self.peek_matches(&punct!("("))
+                {
+                    self.parse_cover_call_or_async_arrow_head()?
+                } else {
+                    self.parse_new_or_member_expr()?
+                };
                 let call_expr = self.parse_recursive_call_expression(span_start, expr)?;
                 Ok(call_expr)
             }
-- 
2.43.0


From 45009155345151c043f2179347ab42ebdec397bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 35/44] fix: find duplicate parameter names inside binding
 patterns

---
 parser/src/static_semantics/mod.rs | 35 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 5002e41..da7b07d 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, Spanned};
+use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp, Spanned};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -91,13 +91,34 @@ impl_trait!(
                 BindingPattern::Ident(ident) => {
                     vec![ident.name.as_ref()]
                 }
-                BindingPattern::Array(_arr) => {
-                    // TODO
-                    vec![]
+                BindingPattern::Array(array) => {
+                    let mut names = Vec::new();
+                    for element in array.elements.iter().flatten() {
+                        names.append(&mut element.pattern.get_bound_names());
+                    }
+
+                    if let Some(rest) = &array.rest {
+                        names.append(&mut rest.get_bound_names());
+                    }
+
+                    names
                 }
-                BindingPattern::Object(_obj) => {
-                    // TODO
-                    vec![]
+                BindingPattern::Object(object) => {
+                    let mut names = Vec::new();
+                    for prop in &object.props {
+                        match prop {
+                            ObjectBindingProp::Single(single) => names.push(single.ident.name.as_ref()),
+                            ObjectBindingProp::Named(named) => {
+                                names.append(&mut named.binding.pattern.get_bound_names())
+                            }
+                        }
+                    }
+
+                    if let Some(rest) = &object.rest {
+                        names.append(&mut rest.get_bound_names());
+                    }
+
+                    names
                 }
             }
         }
-- 
2.43.0


From 6d89bcc1489a87abf6e9b94e850805df69cfbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 36/44] fix: keep the backslashes of template literals

The parts of a template literal lost their escape sequences, the generated code for `\n` was `n`.
---
 lexer/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index c7114fa..20adae8 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -441,9 +441,7 @@ impl<'a> Lexer<'a> {
             }
 
             escape = c == '\\' && !escape;
-            if !escape {
-                result.push(c);
-            }
+            result.push(c);
         }
     }
 
-- 
2.43.0


From 128493784df8b77c5183e3313c88b9b728c6f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 37/44] fix: no line terminators in regular expression literals

Only a line feed outside of classes was rejected.
---
 lexer/src/regexp.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..c4b25cd 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -14,22 +14,13 @@ impl Lexer<'_> {
         result.push(regexp_start);
 
         loop {
-            let c = self.reader.consume()?;
+            let c = self.read_regexp_char(span_start)?;
             result.push(c);
 
             match c {
-                '\n' => {
-                    let span_end = self.reader.position();
-                    return Err(Error::syntax_error(
-                        "Unterminated regular expression literal".to_owned(),
-                        (span_start, span_end - 1),
-                    ));
-                }
                 '/' => break,
-                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
-                    result.push(self.reader.consume()?)
-                }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '\\' => result.push(self.read_regexp_char(span_start)?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,19 +31,33 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
-            let c = self.reader.consume()?;
+            let c = self.read_regexp_char(span_start)?;
             result.push(c);
 
             match c {
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' => result.push(self.read_regexp_char(span_start)?),
                 _ => {}
             }
         }
 
         Ok(result)
     }
+
+    /// Line terminators are not allowed anywhere in a regular expression literal.
+    fn read_regexp_char(&mut self, span_start: usize) -> Result<char> {
+        let span_end = self.reader.position();
+        let c = self.reader.consume()?;
+        if c.is_ecma_line_terminator() {
+            return Err(Error::syntax_error(
+                "Unterminated regular expression literal".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
+        Ok(c)
+    }
 }
-- 
2.43.0


From ad4ecb181cd64b0da640c8d40e710f97ef9f2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 38/44] fix: numeric separators only between digits, no digit
 after a binary or octal literal

`0x_1`, `1e_1`, `0_1` were accepted and `0b12` was read as two numbers.
---
 lexer/src/number.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..072382f 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -25,7 +25,7 @@ impl<'a> Lexer<'a> {
             .reader
             .current()
             .ok()
-            .map_or(false, CodePoint::is_start_of_identifier)
+            .map_or(false, |c| c.is_start_of_identifier() || c.is_ascii_digit())
         {
             let position = self.reader.position();
             return Err(Error::syntax_error(
@@ -141,6 +141,14 @@ impl<'a> Lexer<'a> {
             ));
         }
 
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         if number_str.ends_with('_') {
             let span_end = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From 327cb4a0da92a340295aef01e1f77bbd1f90a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:04 +0000
Subject: [PATCH 39/44] fix: no space is added before a substitution in a
 template literal

A template text that ends with a letter, digit, _ or $ got a space between itself and the following ${.
---
 codegen/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 2e7747b..b1eba36 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1312,7 +1312,9 @@ impl Visitor for CodeGenerator<'_> {
                 self.string(str);
             }
             TemplatePart::Expr(expr) => {
-                self.string("${");
+                // Not a keyword, no separation must be added inside of the template.
+                self.char('$');
+                self.char('{');
                 expr.traverse(self);
                 self.char('}');
             }
-- 
2.43.0


From e0563e4aae20e59ad94e92c516eac3ca4caf5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:18 +0000
Subject: [PATCH 40/44] fix: members of integer literals are separated from the
 number

`1 .a` was written as `1.a`, where the dot is the decimal point of the number.
---
 codegen/src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index b1eba36..71b09a9 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -48,6 +48,7 @@ struct Index {
     last_block_start: Cell<usize>,
     last_empty_statement: Cell<usize>,
     last_regexp: Cell<usize>,
+    last_integer: Cell<usize>,
 }
 
 impl Index {
@@ -57,6 +58,7 @@ impl Index {
             last_block_start: Cell::new(0),
             last_empty_statement: Cell::new(0),
             last_regexp: Cell::new(0),
+            last_integer: Cell::new(0),
         }
     }
 
@@ -91,6 +93,14 @@ impl Index {
     fn set_regexp(&self, pos: usize) {
         self.last_regexp.replace(pos);
     }
+
+    fn last_integer(&self) -> usize {
+        self.last_integer.get()
+    }
+
+    fn set_integer(&self, pos: usize) {
+        self.last_integer.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -789,6 +799,10 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_member_property(&mut self, node: &mut MemberProperty) -> bool {
         match node {
             MemberProperty::Ident(i) => {
+                // The dot in `1.a` would be parsed as the decimal point of the number.
+                if self.index.last_integer() == self.pos() {
+                    self.data.push(' ');
+                }
                 self.char('.');
                 i.traverse(self)
             }
@@ -1399,6 +1413,9 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
         self.string(&node.raw);
+        if node.raw.chars().all(|c| c.is_ascii_digit() || c == '_') {
+            self.index.set_integer(self.pos());
+        }
         false
     }
 
-- 
2.43.0


From be74254fd904fb9da8e5320cea47c2ccfe879cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:21 +0000
Subject: [PATCH 41/44] fix: keep keywords separated from numbers ending with a
 decimal point

---
 codegen/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 71b09a9..2c5ba70 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -49,6 +49,7 @@ struct Index {
     last_empty_statement: Cell<usize>,
     last_regexp: Cell<usize>,
     last_integer: Cell<usize>,
+    last_decimal_point: Cell<usize>,
 }
 
 impl Index {
@@ -59,6 +60,7 @@ impl Index {
             last_empty_statement: Cell::new(0),
             last_regexp: Cell::new(0),
             last_integer: Cell::new(0),
+            last_decimal_point: Cell::new(0),
         }
     }
 
@@ -101,6 +103,14 @@ impl Index {
     fn set_integer(&self, pos: usize) {
         self.last_integer.replace(pos);
     }
+
+    fn last_decimal_point(&self) -> usize {
+        self.last_decimal_point.get()
+    }
+
+    fn set_decimal_point(&self, pos: usize) {
+        self.last_decimal_point.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -433,6 +443,8 @@ impl CodeGenerator<'_> {
             ('<', '!') => true,
             // Regexp followed by keyword would be parsed as flags.
             ('/', first) if self.index.last_regexp() == self.pos() => is_word_char(first),
+            // Number ending with a decimal point followed by keyword, `1.in` is not valid.
+            ('.', first) if self.index.last_decimal_point() == self.pos() => is_word_char(first),
             _ => is_word_char(last) && is_word_char(first),
         }
     }
@@ -1416,6 +1428,9 @@ impl Visitor for CodeGenerator<'_> {
         if node.raw.chars().all(|c| c.is_ascii_digit() || c == '_') {
             self.index.set_integer(self.pos());
         }
+        if node.raw.ends_with('.') {
+            self.index.set_decimal_point(self.pos());
+        }
         false
     }
 
-- 
2.43.0


From 8c8bcad4b26b9723d60f89df801e70c31917f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 42/44] fix: reserved words are no import bindings

---
 parser/src/module.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 5a80c8c..c87e6c2 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -246,10 +246,15 @@ where
     /// Parses the `ImportSpecifier` production.
     fn parse_import_specifier(&mut self) -> Result<NamedImport> {
         let span_start = self.position();
-        let name = self.parse_identifier_name()?;
-        let alias = self
-            .maybe_consume(&keyword!("as"))?
-            .then_try(|| self.parse_identifier())?;
+        let (name, alias) = if self.peek_matches(&keyword!("as")) {
+            let name = self.parse_identifier_name()?;
+            self.consume_assert(&keyword!("as"))?;
+            (name, Some(self.parse_identifier()?))
+        } else {
+            // Without alias the name is the binding, it cannot be a reserved word.
+            (self.parse_identifier()?, None)
+        };
+
         let span = self.span_from(span_start);
         Ok(NamedImport { span, name, alias })
     }
-- 
2.43.0


From d459469e809a81cb5065109d7d5c2e4f9f81d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:10 +0000
Subject: [PATCH 43/44] fix: the line of an error is the line where it starts

---
 parser/src/error/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 8ad9c7d..f0f568d 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -90,7 +90,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..span.start].matches('\n').count() + 1
     }
 
     /// Positions are not exact after a non ASCII character, this moves the span to the closest
-- 
2.43.0


From f7d9f75d33ee370c48a08c515fec531f2a0aadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:19 +0000
Subject: [PATCH 44/44] fix: a malformed span in serialised input is an error,
 not a panic

---
 ast/src/span.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ast/src/span.rs b/ast/src/span.rs
index 73968e3..6a1fac6 100644
--- a/ast/src/span.rs
+++ b/ast/src/span.rs
@@ -57,11 +57,9 @@ impl<'de> Deserialize<'de> for Span {
                 E: serde::de::Error,
             {
                 let mut parts = str.split(':');
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    Ok(Span {
-                        start: start.parse().unwrap(),
-                        end: end.parse().unwrap(),
-                    })
+                let mut position = || parts.next().and_then(|part| part.parse().ok());
+                if let (Some(start), Some(end)) = (position(), position()) {
+                    Ok(Span { start, end })
                 } else {
                     Err(serde::de::Error::custom(format!(
                         "{str} is not a valid span."
-- 
2.43.0

