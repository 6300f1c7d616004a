From 695e4c0255469eee4f61a472cf5935c6747c2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 01/23] fix: decode the \b escape to U+0008

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..4479a6c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -236,7 +236,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From 885ebf7c5c7e1cb24fd4f084af32e2823a805448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 02/23] fix: reject a sign inside a \u escape

---
 src/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4479a6c..e35a66d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -258,9 +258,12 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
                             }
                         }
 
+                        // from_str_radix accepts a leading sign, the escape doesn't
+                        let all_hex = temp_code_point.chars().all(|x| x.is_ascii_hexdigit());
+
                         // convert our hex string into a u32, then convert that into a char
                         match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {
-                            Ok(Some(unicode_char)) => res.push(unicode_char),
+                            Ok(Some(unicode_char)) if all_hex => res.push(unicode_char),
                             _ => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     format_args!(
-- 
2.43.0


From 055dfd0e059f396e8e618f10faa7a11a8802a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 03/23] fix: measure block string indentation in spaces and
 tabs only

Other Unicode white space was counted in bytes, so that removing the common
indentation could panic in the middle of a character.
---
 src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index e35a66d..6976bf4 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -179,7 +179,8 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // Only spaces and tabs count as indentation, other white space is text.
+        let indent = line.len() - line.trim_start_matches(&[' ', '\t'][..]).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From 21937ba19282dcc8232de1947ec8c79b465e4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 04/23] fix: write \u escapes in hexadecimal and astral
 characters as they are

---
 src/format.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..2ff40f8 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -129,7 +129,7 @@ impl<'a> Formatter<'a> {
         for c in s.chars() {
             match c {
                 '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
+                '\r' | '\t' | '\u{0020}'..='\u{10FFFF}' => {}
                 _ => has_nonprintable = true,
             }
         }
@@ -143,8 +143,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'..='\u{10FFFF}' => self.buf.push(c),
+                    _ => write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From 0b069ae1654562c767e2e91f95922e2600dec9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 05/23] fix: use a block string only for text that it can
 represent

Reading a block string drops blank lines at both ends, the common
indentation and carriage returns, so such text changed in a round trip.
---
 src/format.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 2ff40f8..d13b589 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -129,11 +129,11 @@ impl<'a> Formatter<'a> {
         for c in s.chars() {
             match c {
                 '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{10FFFF}' => {}
+                '\t' | '\u{0020}'..='\u{10FFFF}' => {}
                 _ => has_nonprintable = true,
             }
         }
-        if !has_newline || has_nonprintable {
+        if !has_newline || has_nonprintable || !fits_block_string(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -153,7 +153,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
@@ -177,6 +177,26 @@ impl<'a> Formatter<'a> {
     }
 }
 
+/// Checks that reading a block string would give back the same text: it drops
+/// blank lines at both ends and the indentation common to all lines
+fn fits_block_string(s: &str) -> bool {
+    let mut is_first = true;
+    let mut is_blank = true;
+    let mut has_unindented = false;
+    for line in s.lines() {
+        let text = line.trim_start_matches(&[' ', '\t'][..]);
+        is_blank = text.is_empty();
+        if is_first && is_blank {
+            return false;
+        }
+        is_first = false;
+        if !is_blank && text.len() == line.len() {
+            has_unindented = true;
+        }
+    }
+    has_unindented && !is_blank && !s.ends_with('\n')
+}
+
 pub(crate) fn format_directives<'a, T>(dirs: &[Directive<'a, T>], f: &mut Formatter)
 where
     T: crate::common::Text<'a>,
-- 
2.43.0


From 0284000d3745de6977f7098145afc2a45c5264fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 06/23] fix: write the variables of a subscription that has no
 name

---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..6cad181 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From a0690a689a33729be41a09e8adb6687fb1793675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/23] fix: accept exponents starting with 9 and require
 digits after the sign

---
 src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..d4ece65 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,10 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first == '-' || first == '+' {
+        return check_dec(&value[1..]);
+    }
+    if first <= '0' || first > '9' {
         return false;
     }
 
-- 
2.43.0


From 17d3aa127cfcbb0fe83b42e72a7a5dcb34a919d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 08/23] fix: end a number at a quote or a byte order mark

Both can follow a number token without other space between.
---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d4ece65..5b35a10 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -231,7 +231,9 @@ impl<'a> TokenStream<'a> {
                     match cur_char {
                         // just scan for now, will validate later on
                         ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => {
+                            break idx
+                        }
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
-- 
2.43.0


From 733d535df4b2c1a16427239f7a6244183e9d8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 09/23] fix: count the line break after a comment once if it is
 CRLF

---
 src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5b35a10..1f68fdd 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -330,8 +330,12 @@ impl<'a> TokenStream<'a> {
                 }
                 //comment
                 '#' => {
-                    for (_, cur_char) in iter.by_ref() {
+                    while let Some((_, cur_char)) = iter.next() {
                         // TODO(tailhook) ensure SourceCharacter
+                        if cur_char == '\r' && iter.as_str().starts_with('\n') {
+                            // this is a single line break, count it at '\n'
+                            break;
+                        }
                         if cur_char == '\r' || cur_char == '\n' {
                             self.position.column = 1;
                             self.position.line += 1;
-- 
2.43.0


From 2f1e7ad87323f51aa88710d719cab64caf86c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 10/23] fix: accept an interface extension that only implements
 interfaces

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From 3ff248ac86da0d06d23a96ef7ec167564991a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 11/23] fix: require a location in a directive definition

One without locations was formatted without `on`, which can't be parsed.
---
 src/schema/grammar.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 62cee67..b3d01dc 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -570,13 +570,13 @@ where
 pub fn directive_locations<'a>(
     input: &mut TokenStream<'a>,
 ) -> StdParseResult<Vec<DirectiveLocation>, TokenStream<'a>> {
-    optional(optional(punct("|")).with(sep_by1(
-        kind(T::Name).and_then(|tok| tok.value.parse::<DirectiveLocation>()),
-        punct("|"),
-    )))
-    .map(|opt| opt.unwrap_or_default())
-    .parse_stream(input)
-    .into_result()
+    optional(punct("|"))
+        .with(sep_by1(
+            kind(T::Name).and_then(|tok| tok.value.parse::<DirectiveLocation>()),
+            punct("|"),
+        ))
+        .parse_stream(input)
+        .into_result()
 }
 
 pub fn directive_definition<'a, T>(
-- 
2.43.0


From 9cb7149f5c27c69e13db9dea83ca13febae49bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 12/23] fix: reject a float that is out of range, as for
 integers

It was parsed as an infinity, which has no representation in GraphQL.
---
 src/common.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 6976bf4..34c4cf1 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -1,6 +1,7 @@
 use std::{collections::BTreeMap, fmt};
 
 use combine::easy::{Error, Info};
+use combine::error::StreamError;
 use combine::{choice, many, many1, optional, position, StdParseResult};
 use combine::{parser, Parser};
 
@@ -165,7 +166,13 @@ where
     S: Text<'a>,
 {
     kind(T::FloatValue)
-        .and_then(|tok| tok.value.parse())
+        .and_then(|tok| match tok.value.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            Ok(_) => Err(Error::message_static_message(
+                "number too large to fit in target type",
+            )),
+            Err(e) => Err(e.into()),
+        })
         .map(Value::Float)
         .parse_stream(input)
         .into_result()
-- 
2.43.0


From fb4ed593173675e245e30ab9282cb1a63093b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 13/23] fix: write large floats with an exponent

---
 src/query/format.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/query/format.rs b/src/query/format.rs
index 6cad181..0e6458e 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -251,6 +251,8 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
+            // Without an exponent it would be read as an integer out of range
+            Value::Float(val) if val.abs() >= 1e18 => f.write(&format!("{:e}", val)),
             Value::Float(val) => f.write(&format!("{}", val)),
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
-- 
2.43.0


From 3126644128fd8d024d26da0cbc16c135d266213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 14/23] fix: keep the space between a number and a spread when
 minifying

---
 src/query/minify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/minify.rs b/src/query/minify.rs
index c2d44a7..f2d76c2 100644
--- a/src/query/minify.rs
+++ b/src/query/minify.rs
@@ -11,6 +11,7 @@ pub fn minify_query(source: String) -> Result<String, MinifyError> {
     let mut bits: Vec<&str> = Vec::new();
     let mut stream = TokenStream::new(source.as_str());
     let mut prev_was_punctuator = false;
+    let mut prev_was_number = false;
 
     loop {
         match stream.uncons() {
@@ -18,12 +19,16 @@ pub fn minify_query(source: String) -> Result<String, MinifyError> {
                 let token: Token = x;
                 let is_non_punctuator = token.kind != Kind::Punctuator;
 
-                if prev_was_punctuator && is_non_punctuator {
+                // A number can't be followed by a dot
+                let is_spread_after_number = prev_was_number && token.value == "...";
+
+                if prev_was_punctuator && is_non_punctuator || is_spread_after_number {
                     bits.push(" ");
                 }
 
                 bits.push(token.value);
                 prev_was_punctuator = is_non_punctuator;
+                prev_was_number = matches!(token.kind, Kind::IntValue | Kind::FloatValue);
             }
             Err(ref e) if e == &combine::easy::Error::end_of_input() => break,
             Err(e) => return Err(MinifyError(e.to_string())),
-- 
2.43.0


From b293cd32088b7ee3cbcec44512e4b2d377f354d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 15/23] expose the tokenizer under cfg(gp_verif) for
 verification

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 561cf66..236900c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -104,6 +104,13 @@ pub mod query;
 pub mod schema;
 mod tokenizer;
 
+/// Verification hook: the token stream, for the checks only.
+#[cfg(gp_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::tokenizer::{Kind, Token, TokenStream};
+}
+
 pub use crate::format::Style;
 pub use crate::position::Pos;
 pub use crate::query::minify_query;
-- 
2.43.0


From a9e7d6b1edbede9873bde03cac060289f2bce251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 16/23] fix: reject a carriage return inside a quoted string

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 1f68fdd..9958e5f 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -286,7 +286,7 @@ impl<'a> TokenStream<'a> {
                                 self.off += idx + 1;
                                 return Ok((StringValue, idx + 1));
                             }
-                            '\n' => {
+                            '\n' | '\r' => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     "unterminated string value".to_string(),
                                 )));
-- 
2.43.0


From 97d539e0ce0610c18d28b2c52197e46557134f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 17/23] fix: remove blank lines' indentation in block strings
 even if it is short

---
 src/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 34c4cf1..808836f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -214,8 +214,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // A blank line may be shorter than the common indentation.
+                &line[common_indent.min(line.len())..]
             } else {
                 line
             }
-- 
2.43.0


From 92e133478b1cf2739d5f7436d8e084edbf34d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 18/23] fix: count VARIABLE_DEFINITION as an executable
 location

---
 src/schema/ast.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/schema/ast.rs b/src/schema/ast.rs
index db2908f..0abc3da 100644
--- a/src/schema/ast.rs
+++ b/src/schema/ast.rs
@@ -411,6 +411,8 @@ pub enum DirectiveLocation {
     EnumValue,
     InputObject,
     InputFieldDefinition,
+
+    // executable, too
     VariableDefinition,
 }
 
@@ -472,10 +474,10 @@ impl DirectiveLocation {
         use self::DirectiveLocation::*;
         match *self {
             Query | Mutation | Subscription | Field | FragmentDefinition | FragmentSpread
-            | InlineFragment => true,
+            | InlineFragment | VariableDefinition => true,
 
             Schema | Scalar | Object | FieldDefinition | ArgumentDefinition | Interface | Union
-            | Enum | EnumValue | InputObject | InputFieldDefinition | VariableDefinition => false,
+            | Enum | EnumValue | InputObject | InputFieldDefinition => false,
         }
     }
 
-- 
2.43.0


From fbbd47e045454b701c0a38a0ec8a657d56df3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 19/23] fix: a fragment could be named on, which no spread can
 refer to

---
 src/query/grammar.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/query/grammar.rs b/src/query/grammar.rs
index cf31bec..6725354 100644
--- a/src/query/grammar.rs
+++ b/src/query/grammar.rs
@@ -1,12 +1,14 @@
+use combine::easy::Error;
+use combine::error::StreamError;
 use combine::{eof, many1, optional, position, StdParseResult};
 use combine::{parser, Parser};
 
 use crate::common::Directive;
 use crate::common::{arguments, default_value, directives, parse_type};
-use crate::helpers::{ident, name, punct};
+use crate::helpers::{ident, kind, name, punct};
 use crate::query::ast::*;
 use crate::query::error::ParseError;
-use crate::tokenizer::TokenStream;
+use crate::tokenizer::{Kind, TokenStream};
 
 pub fn field<'a, S>(input: &mut TokenStream<'a>) -> StdParseResult<Field<'a, S>, TokenStream<'a>>
 where
@@ -218,7 +220,10 @@ pub fn fragment_definition<'a, T: Text<'a>>(
 ) -> StdParseResult<FragmentDefinition<'a, T>, TokenStream<'a>> {
     (
         position().skip(ident("fragment")),
-        name::<'a, T>(),
+        kind(Kind::Name).and_then(|tok| match tok.value {
+            "on" => Err(Error::unexpected_token(tok)),
+            name => Ok(T::Value::from(name)),
+        }),
         ident("on").with(name::<'a, T>()).map(TypeCondition::On),
         parser(directives),
         parser(selection_set),
-- 
2.43.0


From fb1473c0949096c38ed776ca7c4466da3898c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 20/23] fix: true, false and null were accepted as the names of
 enum values

---
 src/schema/grammar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index b3d01dc..f278264 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -415,18 +415,21 @@ where
         .into_result()
 }
 
-pub fn enum_values<'a, T>(
+pub fn enum_values<'a, X>(
     input: &mut TokenStream<'a>,
-) -> StdParseResult<Vec<EnumValue<'a, T>>, TokenStream<'a>>
+) -> StdParseResult<Vec<EnumValue<'a, X>>, TokenStream<'a>>
 where
-    T: Text<'a>,
+    X: Text<'a>,
 {
     punct("{")
         .with(many1(
             (
                 position(),
                 optional(parser(string)),
-                name::<'a, T>(),
+                kind(T::Name).and_then(|tok| match tok.value {
+                    "true" | "false" | "null" => Err(Error::unexpected_token(tok)),
+                    name => Ok(X::Value::from(name)),
+                }),
                 parser(directives),
             )
                 .map(|(position, description, name, directives)| EnumValue {
-- 
2.43.0


From 5ff01cc49df045a91ec836cf86125320eba65d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 21/23] fix: a schema definition without an operation was
 accepted

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index f278264..d9047fa 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -1,7 +1,7 @@
 use combine::easy::{Error, Errors};
 use combine::error::StreamError;
 use combine::sep_by1;
-use combine::{choice, eof, many, many1, optional, position};
+use combine::{choice, eof, many1, optional, position};
 use combine::{parser, Parser, StdParseResult};
 
 use crate::common::{default_value, directives, parse_type, string, Text};
@@ -20,7 +20,7 @@ where
         position().skip(ident("schema")),
         parser(directives),
         punct("{")
-            .with(many((kind(T::Name).skip(punct(":")), name::<'a, S>())))
+            .with(many1((kind(T::Name).skip(punct(":")), name::<'a, S>())))
             .skip(punct("}")),
     )
         .flat_map(
-- 
2.43.0


From 92f33fdc9286ce0e87b2c080c97a4313b044abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 22/23] fix: variables were accepted in the directives of a
 schema

---
 src/common.rs         | 41 +++++++++++++++++++++++++++++++++++++++++
 src/schema/grammar.rs | 34 +++++++++++++++++-----------------
 2 files changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 808836f..78a66a0 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -145,6 +145,47 @@ where
     .into_result()
 }
 
+/// Directives whose arguments hold no variables
+pub fn const_directives<'a, T>(
+    input: &mut TokenStream<'a>,
+) -> StdParseResult<Vec<Directive<'a, T>>, TokenStream<'a>>
+where
+    T: Text<'a>,
+{
+    many(
+        position()
+            .skip(punct("@"))
+            .and(name::<'a, T>())
+            .and(parser(const_arguments))
+            .map(|((position, name), arguments)| Directive {
+                position,
+                name,
+                arguments,
+            }),
+    )
+    .parse_stream(input)
+    .into_result()
+}
+
+#[allow(clippy::type_complexity)]
+pub fn const_arguments<'a, T>(
+    input: &mut TokenStream<'a>,
+) -> StdParseResult<Vec<(T::Value, Value<'a, T>)>, TokenStream<'a>>
+where
+    T: Text<'a>,
+{
+    optional(
+        punct("(")
+            .with(many1(
+                name::<'a, T>().skip(punct(":")).and(parser(default_value)),
+            ))
+            .skip(punct(")")),
+    )
+    .map(|opt| opt.unwrap_or_default())
+    .parse_stream(input)
+    .into_result()
+}
+
 pub fn int_value<'a, S>(
     input: &mut TokenStream<'a>,
 ) -> StdParseResult<Value<'a, S>, TokenStream<'a>>
diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index d9047fa..e0c3e81 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -4,7 +4,7 @@ use combine::sep_by1;
 use combine::{choice, eof, many1, optional, position};
 use combine::{parser, Parser, StdParseResult};
 
-use crate::common::{default_value, directives, parse_type, string, Text};
+use crate::common::{const_directives, default_value, parse_type, string, Text};
 use crate::helpers::{ident, kind, name, punct};
 use crate::schema::ast::*;
 use crate::schema::error::ParseError;
@@ -18,7 +18,7 @@ where
 {
     (
         position().skip(ident("schema")),
-        parser(directives),
+        parser(const_directives),
         punct("{")
             .with(many1((kind(T::Name).skip(punct(":")), name::<'a, S>())))
             .skip(punct("}")),
@@ -88,7 +88,7 @@ where
     (
         position(),
         ident("scalar").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
     )
         .map(|(position, name, directives)| ScalarType {
             position,
@@ -109,7 +109,7 @@ where
     (
         position(),
         ident("scalar").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
     )
         .flat_map(|(position, name, directives)| {
             if directives.is_empty() {
@@ -158,7 +158,7 @@ where
         name::<'a, X>(),
         punct(":").with(parser(parse_type)),
         optional(punct("=").with(parser(default_value))),
-        parser(directives),
+        parser(const_directives),
     )
         .map(
             |(position, description, name, value_type, default_value, directives)| InputValue {
@@ -196,7 +196,7 @@ where
         name::<'a, S>(),
         parser(arguments_definition),
         punct(":").with(parser(parse_type)),
-        parser(directives),
+        parser(const_directives),
     )
         .map(
             |(position, description, name, arguments, field_type, directives)| Field {
@@ -234,7 +234,7 @@ where
         position(),
         ident("type").with(name::<'a, S>()),
         parser(implements_interfaces::<S>),
-        parser(directives),
+        parser(const_directives),
         parser(fields),
     )
         .map(|(position, name, interfaces, directives, fields)| {
@@ -261,7 +261,7 @@ where
         position(),
         ident("type").with(name::<'a, S>()),
         parser(implements_interfaces::<S>),
-        parser(directives),
+        parser(const_directives),
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
@@ -295,7 +295,7 @@ where
         position(),
         ident("interface").with(name::<'a, T>()),
         parser(implements_interfaces::<T>),
-        parser(directives),
+        parser(const_directives),
         parser(fields),
     )
         .map(|(position, name, interfaces, directives, fields)| {
@@ -322,7 +322,7 @@ where
         position(),
         ident("interface").with(name::<'a, T>()),
         parser(implements_interfaces::<T>),
-        parser(directives),
+        parser(const_directives),
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
@@ -367,7 +367,7 @@ where
     (
         position(),
         ident("union").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
         optional(punct("=").with(parser(union_members::<T>))),
     )
         .map(|(position, name, directives, types)| {
@@ -392,7 +392,7 @@ where
     (
         position(),
         ident("union").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
         optional(punct("=").with(parser(union_members::<T>))),
     )
         .flat_map(|(position, name, directives, types)| {
@@ -430,7 +430,7 @@ where
                     "true" | "false" | "null" => Err(Error::unexpected_token(tok)),
                     name => Ok(X::Value::from(name)),
                 }),
-                parser(directives),
+                parser(const_directives),
             )
                 .map(|(position, description, name, directives)| EnumValue {
                     position,
@@ -453,7 +453,7 @@ where
     (
         position(),
         ident("enum").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
         optional(parser(enum_values)),
     )
         .map(|(position, name, directives, values)| {
@@ -478,7 +478,7 @@ where
     (
         position(),
         ident("enum").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
         optional(parser(enum_values)),
     )
         .flat_map(|(position, name, directives, values)| {
@@ -522,7 +522,7 @@ where
     (
         position(),
         ident("input").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
         parser(input_fields),
     )
         .map(|(position, name, directives, fields)| {
@@ -547,7 +547,7 @@ where
     (
         position(),
         ident("input").with(name::<'a, T>()),
-        parser(directives),
+        parser(const_directives),
         parser(input_fields),
     )
         .flat_map(|(position, name, directives, fields)| {
-- 
2.43.0


From 5f0a537095c17a7cf46a364eae4fa4b322cfc614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 23/23] fix: very wide indentation overflowed and panicked

---
 src/format.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index d13b589..71b420c 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -7,7 +7,7 @@ use crate::common::Directive;
 pub(crate) struct Formatter<'a> {
     buf: String,
     style: &'a Style,
-    indent: u32,
+    indent: u64,
 }
 
 /// A configuration of formatting style
@@ -151,7 +151,7 @@ impl<'a> Formatter<'a> {
         } else {
             self.buf.push_str(r#"""""#);
             self.endline();
-            self.indent += self.style.indent;
+            self.indent += u64::from(self.style.indent);
             for line in s.lines() {
                 if !line.is_empty() {
                     self.indent();
@@ -159,20 +159,20 @@ impl<'a> Formatter<'a> {
                 }
                 self.endline();
             }
-            self.indent -= self.style.indent;
+            self.indent -= u64::from(self.style.indent);
             self.indent();
             self.buf.push_str(r#"""""#);
         }
     }
 
     fn inc_indent(&mut self) {
-        self.indent += self.style.indent;
+        self.indent += u64::from(self.style.indent);
     }
 
     fn dec_indent(&mut self) {
         self.indent = self
             .indent
-            .checked_sub(self.style.indent)
+            .checked_sub(u64::from(self.style.indent))
             .expect("negative indent");
     }
 }
-- 
2.43.0

