From 5121f5a57c2171763a5fd2639a800491cfa6b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 1/9] fix: accept options after a single number in an extension
 range

---
 protox-parse/src/parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..4e1486b 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -846,7 +846,9 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma | Token::Semicolon | Token::LeftBracket, _)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From cb06fc918ff7e17e54ec70d6bcc1418092ed3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 2/9] fix: keep locations with the same path in source order

---
 protox-parse/src/generate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 6298bee..c276b07 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -32,7 +32,7 @@ pub(crate) fn generate_file(
     let file = ctx.generate_file_descriptor(name, ast);
 
     if ctx.errors.is_empty() {
-        ctx.locations.sort_unstable_by(|l, r| l.path.cmp(&r.path));
+        ctx.locations.sort_by(|l, r| l.path.cmp(&r.path));
 
         Ok(FileDescriptorProto {
             source_code_info: Some(SourceCodeInfo {
-- 
2.43.0


From 23636171f77edf4d7e3d3bd16c274ff1d19ad208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 3/9] fix: allow reserved names that start with an underscore

---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From b2d9402824219b357f39dd2f84be41e511f9b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 4/9] fix: reject decimal digits after a leading zero instead
 of reading the number as 0

---
 protox-parse/src/lex/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..fb7a503 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -14,7 +14,7 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
+    #[regex("0", zero)]
     #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
@@ -169,6 +169,19 @@ pub(crate) struct TokenExtras {
     pub text_format_mode: bool,
 }
 
+fn zero<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Result<u64, ()> {
+    if lex.slice() != "0" {
+        // The lexer may extend the match over further digits while looking for a float literal,
+        // but numbers with a leading zero must be octal.
+        lex.extras
+            .errors
+            .push(ParseErrorKind::InvalidToken { span: lex.span() });
+        return Ok(0);
+    }
+
+    int(lex, 10, 0)
+}
+
 fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Result<u64, ()> {
     debug_assert!(lex.slice().len() > prefix_len);
     let span = lex.span().start + prefix_len..lex.span().end;
-- 
2.43.0


From 81550aece388e78b2aebdfaa3b5bf638871a9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 5/9] fix: attach the comment after a method's opening brace to
 the method

---
 protox-parse/src/parse/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 4e1486b..8a5c92b 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -556,14 +556,15 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::RightParen)?;
 
         let mut options = Vec::new();
-        let end = match self.peek_skip_comments()? {
+        let (comments, end) = match self.peek_skip_comments()? {
             Some((Token::Semicolon, span)) => {
                 self.bump();
-                span
+                (self.parse_trailing_comment(leading_comments), span)
             }
             Some((Token::LeftBrace, _)) => {
                 self.bump();
-                loop {
+                let comments = self.parse_trailing_comment(leading_comments);
+                let end = loop {
                     match self.peek()? {
                         Some((Token::OPTION, _)) => {
                             options.push(self.parse_option()?);
@@ -575,13 +576,12 @@ impl<'a> Parser<'a> {
                         }
                         _ => self.unexpected_token("'option', '}' or ';'")?,
                     }
-                }
+                };
+                (comments, end)
             }
             _ => self.unexpected_token("';' or '{'")?,
         };
 
-        let comments = self.parse_trailing_comment(leading_comments);
-
         Ok(ast::Method {
             name,
             input_ty,
-- 
2.43.0


From 3fce0247cd4f123f05e76e7371c7953957761618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 6/9] fix: limit message nesting so that deeply nested input
 cannot overflow the stack

---
 protox-parse/src/error.rs     |  8 +++++++-
 protox-parse/src/lib.rs       |  1 +
 protox-parse/src/parse/mod.rs | 17 +++++++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..66e356b 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -4,7 +4,7 @@ use logos::Span;
 use miette::{Diagnostic, NamedSource, SourceCode};
 use thiserror::Error;
 
-use crate::MAX_MESSAGE_FIELD_NUMBER;
+use crate::{MAX_MESSAGE_FIELD_NUMBER, MAX_MESSAGE_NESTING};
 
 /// An error that may occur while parsing a protobuf source file.
 #[derive(Error, Diagnostic)]
@@ -210,6 +210,11 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
+    #[error("messages may be nested at most {} levels deep", MAX_MESSAGE_NESTING)]
+    NestingTooDeep {
+        #[label("found here")]
+        span: Span,
+    },
     #[error("file is too large")]
     #[diagnostic(help("the maximum file length is 2,147,483,647 bytes"))]
     FileTooLarge,
@@ -274,6 +279,7 @@ impl ParseError {
             ParseErrorKind::ValueInvalidType { span, .. } => Some(span.clone()),
             ParseErrorKind::IntegerValueOutOfRange { span, .. } => Some(span.clone()),
             ParseErrorKind::EmptyOneof { span } => Some(span.clone()),
+            ParseErrorKind::NestingTooDeep { span } => Some(span.clone()),
             ParseErrorKind::FileTooLarge => None,
         }
     }
diff --git a/protox-parse/src/lib.rs b/protox-parse/src/lib.rs
index 290dc35..e2c4d5e 100644
--- a/protox-parse/src/lib.rs
+++ b/protox-parse/src/lib.rs
@@ -21,6 +21,7 @@ mod tag;
 mod tests;
 
 const MAX_MESSAGE_FIELD_NUMBER: i32 = 536_870_911;
+const MAX_MESSAGE_NESTING: usize = 31;
 
 /// Parses a single protobuf source file into a [`FileDescriptorProto`].
 ///
diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 8a5c92b..ff3df58 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -13,6 +13,7 @@ use crate::{
     error::ParseErrorKind,
     join_span,
     lex::{EqFloat, Token},
+    MAX_MESSAGE_NESTING,
 };
 
 mod comments;
@@ -31,6 +32,7 @@ struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ()>>,
     comments: Comments,
+    depth: usize,
 }
 
 #[derive(Debug, Clone)]
@@ -56,6 +58,7 @@ impl<'a> Parser<'a> {
             lexer: Token::lexer(source),
             comments: Comments::new(),
             peek: None,
+            depth: 0,
         }
     }
 
@@ -261,6 +264,20 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_message_body(&mut self) -> Result<(ast::MessageBody, Span), ()> {
+        if self.depth >= MAX_MESSAGE_NESTING {
+            self.add_error(ParseErrorKind::NestingTooDeep {
+                span: self.lexer.span(),
+            });
+            return Err(());
+        }
+
+        self.depth += 1;
+        let result = self.parse_message_body_items();
+        self.depth -= 1;
+        result
+    }
+
+    fn parse_message_body_items(&mut self) -> Result<(ast::MessageBody, Span), ()> {
         let mut items = Vec::new();
         let mut options = Vec::new();
         let mut reserved = Vec::new();
-- 
2.43.0


From e2dd7a8847845137a12676ddebb7322f79397bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 7/9] fix: attach a block comment at the end of a line to the
 token before it

---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index ff3df58..e230f37 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1217,6 +1217,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From 915f4e1935db582d9248fc272cfe047411148e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 8/9] fix: keep blank lines in block comments

---
 protox-parse/src/lex/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index fb7a503..6432d84 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -411,7 +411,10 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                // Blank lines are part of the comment, so only strip whitespace up to the next newline.
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches(|ch: char| ch.is_whitespace() && ch != '\n');
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From 91fe450864aedb8facf6156f43fac402fd3f01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 9/9] fix: reject decimal digits in an octal number instead of
 panicking

---
 protox-parse/src/lex/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index 6432d84..8af62ec 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -200,6 +200,13 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
 
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
+        Err(err) if err.kind() == &IntErrorKind::InvalidDigit => {
+            // As for `zero`, the match of an octal number may include decimal digits.
+            lex.extras
+                .errors
+                .push(ParseErrorKind::InvalidToken { span: lex.span() });
+            Ok(Default::default())
+        }
         Err(err) => {
             debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
             lex.extras
-- 
2.43.0

