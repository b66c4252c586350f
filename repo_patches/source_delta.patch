From d205c59fda869d9f73e3aa9d559c8a7722bb9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 01/21] fix: report an error instead of panicking when the
 input ends inside a regexp or a \u{} escape

---
 crates/joker/src/lexer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..53f48d7 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -248,6 +248,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
+        if self.peek().is_none() {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         self.reread('/');
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
@@ -278,6 +281,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
+        if self.peek().is_none() {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         s.push(self.reread(']'));
         Ok(())
     }
@@ -448,6 +454,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
+            if self.peek().is_none() {
+                return Err(Error::MissingHexDigits);
+            }
             s.push(self.reread('}'));
             Ok(add_digits(digits, 16))
         } else {
-- 
2.43.0


From ff6c236ac0f5d182cd97236582efaa7b8df75236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/21] fix: do not overflow on \u{} escapes of eight or more
 digits

---
 crates/joker/src/lexer.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 53f48d7..574782f 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,13 +11,8 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
+    // Saturate, so that an over-long escape stays out of range instead of overflowing.
+    digits.iter().fold(0u32, |sum, &digit| sum.saturating_mul(radix).saturating_add(digit))
 }
 
 struct SpanTracker {
-- 
2.43.0


From 78fbc0d299973ccb72c9497c4add0675b713d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 03/21] fix: a regexp class cannot contain a line terminator

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 574782f..dea5263 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -286,6 +286,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From c8a14cb290ac66f2849fd6afd2fb73750ad99770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 04/21] fix: U+2007 and U+2008 are whitespace

---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From 534543fd71282f7c55ce19bce28618bd6b171a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 05/21] fix: an escaped identifier cannot immediately follow a
 number

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index dea5263..961f237 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -400,7 +400,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch.is_es_identifier_start() || ch == '\\' => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From 9793068954976d6f653ccfd7009584e05c91fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 06/21] fix: an escaped identifier character must be an
 identifier character

---
 crates/joker/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 961f237..6805490 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -555,9 +555,13 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
+        let first = s.text.is_empty();
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if ch.is_es_identifier_start() || (!first && ch.is_es_identifier_continue()) => {
+                s.text.push(ch);
+                Ok(())
+            }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From 76e582405550d61a393d7f401c29b63576b8b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/21] fix: allow an HTML close comment after a multi-line
 block comment

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 6805490..1af8ab8 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -607,7 +607,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From 6624bdf416b84a55d8e256346c67b5ea14392a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 08/21] fix: lex the arrow punctuator as one token

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 1af8ab8..01f50a0 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -677,6 +677,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (Some('='), Some('='))                       => {
                 Ok(self.read_punc2_3('=', TokenData::Eq, TokenData::StrictEq))
             }
+            (Some('='), Some('>'))                       => Ok(self.read_punc2(TokenData::Arrow)),
             (Some('='), _)                               => Ok(self.read_punc(TokenData::Assign)),
             (Some('+'), Some('+'))                       => Ok(self.read_punc2(TokenData::Inc)),
             (Some('+'), Some('='))                       => {
-- 
2.43.0


From b3a8a3b1a1c7a0d831568e70a5f6a050193c62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 09/21] fix: round the value of a binary, octal or hexadecimal
 literal only once

---
 crates/joker/src/token.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/joker/src/token.rs b/crates/joker/src/token.rs
index edacecd..7a51175 100644
--- a/crates/joker/src/token.rs
+++ b/crates/joker/src/token.rs
@@ -212,11 +212,20 @@ impl NumberSource {
             }
             NumberSource::RadixInt(ref radix, ref src) => {
                 let radix = radix.value();
-                let mult = radix as f64;
 
-                src.chars()
-                .map(|c| c.to_digit(radix).unwrap() as f64)
-                .fold(0f64, |res, digit| res.mul_add(mult, digit))
+                // Accumulate exactly while the digits fit; after that only keep track of
+                // the scale and of whether any digit is nonzero, so that the conversion to
+                // a float is the only rounding step.
+                let (mantissa, scale, sticky) = src.chars()
+                .map(|c| c.to_digit(radix).unwrap() as u64)
+                .fold((0u64, 1f64, 0u64), |(mantissa, scale, sticky), digit| {
+                    if mantissa >> 59 == 0 {
+                        (mantissa * radix as u64 + digit, scale, sticky)
+                    } else {
+                        (mantissa, scale * radix as f64, sticky | (digit != 0) as u64)
+                    }
+                });
+                (mantissa | sticky) as f64 * scale
             }
             NumberSource::Float(ref ip, ref fp, None) => {
                 format!("{}.{}", format_int(ip), format_int(fp)).parse().unwrap()
-- 
2.43.0


From e2af9497d6bc4f67622daccef6a7a9b2cb946f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 10/21] fix: numeric accessors of an optional or extracted
 field accept what the required getter accepts

---
 crates/unjson/src/unjson.rs | 48 ++++++++++---------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index a7e9af4..e7acebe 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -73,25 +73,22 @@ impl ValueEx for Value {
 
     fn as_i64_opt(&self) -> Result<Option<i64>> {
         Ok(match self {
-            &Value::Null       => None,
-            &Value::I64(ref v) => Some(*v),
-            _ => { return type_error("i64 or null", self.ty()); }
+            &Value::Null => None,
+            _ => Some(self.as_i64().ok_type("i64 or null", self.ty())?),
         })
     }
 
     fn as_u64_opt(&self) -> Result<Option<u64>> {
         Ok(match self {
-            &Value::Null       => None,
-            &Value::U64(ref v) => Some(*v),
-            _ => { return type_error("u64 or null", self.ty()); }
+            &Value::Null => None,
+            _ => Some(self.as_u64().ok_type("u64 or null", self.ty())?),
         })
     }
 
     fn as_f64_opt(&self) -> Result<Option<f64>> {
         Ok(match self {
-            &Value::Null       => None,
-            &Value::F64(ref v) => Some(*v),
-            _ => { return type_error("f64 or null", self.ty()); }
+            &Value::Null => None,
+            _ => Some(self.as_f64().ok_type("f64 or null", self.ty())?),
         })
     }
 
@@ -188,48 +185,27 @@ impl Unjson for Value {
     }
 
     fn to_i64(&self) -> Result<i64> {
-        match *self {
-            Value::I64(i) => Ok(i),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64().ok_type("i64", self.ty())
     }
 
     fn to_i64_opt(&self) -> Result<Option<i64>> {
-        match *self {
-            Value::I64(i) => Ok(Some(i)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64_opt()
     }
 
     fn to_u64(&self) -> Result<u64> {
-        match *self {
-            Value::U64(u) => Ok(u),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64().ok_type("u64", self.ty())
     }
 
     fn to_u64_opt(&self) -> Result<Option<u64>> {
-        match *self {
-            Value::U64(u) => Ok(Some(u)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64_opt()
     }
 
     fn to_f64(&self) -> Result<f64> {
-        match *self {
-            Value::F64(f) => Ok(f),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64().ok_type("f64", self.ty())
     }
 
     fn to_f64_opt(&self) -> Result<Option<f64>> {
-        match *self {
-            Value::F64(f) => Ok(Some(f)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64_opt()
     }
 
     fn to_number(&self) -> Result<f64> {
-- 
2.43.0


From a43fd753017871aa3917753ec9feaa10b12b1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 11/21] fix: recognise directive prologues by the text between
 their quotes

---
 crates/easter/src/stmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..1b47ca4 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,7 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            &source[1..source.len() - 1] // without the quotes
         } else {
             &self.string.value
         }
-- 
2.43.0


From 73f9e24376d670390818827d1e7b6479a1e1c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 12/21] fix: a script must extend to the end of the input

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..eab9a52 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From 8c0b8419bbf18ecbe93dff78adab42fb6e243dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 13/21] fix: a slash after a leading string literal is a
 division

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index eab9a52..e5bc321 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From d7de2b1ba17584934fe5f858f9b2c5e585151233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 14/21] fix: break, continue and return without argument may
 end the input

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From 1384ea393dbecfc5fd1b61f246ba92ae810dc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 15/21] fix: report import and export as unsupported instead of
 panicking

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e5bc321..e792db7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -303,9 +303,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => { return Err(Error::UnsupportedFeature("import")); }
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => { return Err(Error::UnsupportedFeature("export")); }
                 _ => { }
             }
 
-- 
2.43.0


From 0cd84895215a78c186d232537ece28aac38d4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 16/21] fix: the object of a for-in loop may be a comma
 expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e792db7..6a67513 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -922,7 +922,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From 6a92101f030951b4d02adc6633c98f00b841b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 17/21] fix: accept a rest element with a location in an array
 assignment pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From bd0147ffa95d63f9336501c4efe4d52f6ab4b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 18/21] fix: a label cannot be redeclared inside the statement
 it labels

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index bcbf6de..479811f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -6,6 +6,7 @@ use joker::word::Name;
 use joker::track::span;
 use easter::stmt::Stmt;
 use easter::id::Id;
+use error::Error;
 use result::Result;
 use parser::{Parser, Strict};
 
@@ -23,6 +24,9 @@ impl<I: Iterator<Item=char>> WithContext for Parser<I> {
         let mut label_strings = Vec::new();
         for id in labels.iter() {
             let label = Rc::new(id.name.clone());
+            if self.context.labels.contains_key(&label) {
+                return Err(Error::InvalidLabel(id.clone()));
+            }
             self.context.labels.insert(label.clone(), label_type);
             label_strings.push(label);
         }
-- 
2.43.0


From bda6bfef89df2fa9f6cdb1632440c2e3e6776563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 19/21] fix: a member access may follow the arguments of an
 inner new

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6a67513..8028bbf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1395,6 +1395,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
             };
+            if has_args {
+                while let Some(deref) = self.deref_opt()? {
+                    base = deref.append_to(base);
+                }
+            }
         }
         self.more_suffixes(base)
     }
-- 
2.43.0


From 9f54682c40fefdf5860d4b7f055df1bed3e7816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 20/21] fix: an error after 'for (const' is reported at the
 offending token

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8028bbf..0cc486a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -827,8 +827,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     fn for_const(&mut self) -> Result<Stmt> {
         let const_token = self.reread(TokenData::Reserved(Reserved::Const));
         if !self.peek()?.first_binding() {
-            self.lexer.unread_token(const_token);
-            return self.for_expr();
+            return self.unexpected();
         }
         let const_location = Some(const_token.location);
         // 'for' '(' 'const' . !{id, patt} ==> error
-- 
2.43.0


From 7be0b9e1f0374f5aade648b069ae343f17545fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 21/21] fix: a declarator made of a name and an initialiser
 extends to the end of the initialiser

---
 crates/easter/src/decl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/decl.rs b/crates/easter/src/decl.rs
index bf9b341..5b17f7f 100644
--- a/crates/easter/src/decl.rs
+++ b/crates/easter/src/decl.rs
@@ -65,8 +65,11 @@ impl DtorExt for Dtor {
 
     fn from_init_opt(lhs: Patt<Id>, rhs: Option<Expr>) -> Result<Dtor, Patt<Id>> {
         match (lhs, rhs) {
-            (Patt::Simple(id), rhs) => {
-                Ok(Dtor::Simple(*id.tracking_ref(), id, rhs))
+            (Patt::Simple(id), None) => {
+                Ok(Dtor::Simple(*id.tracking_ref(), id, None))
+            }
+            (Patt::Simple(id), Some(rhs)) => {
+                Ok(Dtor::from_simple_init(id, rhs))
             }
             (lhs @ Patt::Compound(_), None) => Err(lhs),
             (Patt::Compound(patt), Some(rhs)) => {
-- 
2.43.0

