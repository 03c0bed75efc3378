From 5650f087b3c31afa18d906b9472405806bb1e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 01/26] fix: keep the whitespace between a children block and
 its terminator when parsing

The node_space0 after the terminator lookahead was consumed but recorded
nowhere, so `a {} ` and `a {} ; b` did not print back as written.
---
 src/v2_parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..03678ff 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -403,7 +403,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     .parse_next(input)?;
     let (before_terminator, terminator) = if children.is_some() {
         (
-            opt(slashdashed_children).take(),
+            (opt(slashdashed_children), node_space0).take(),
             peek(opt(node_terminator).take()),
         )
             .parse_next(input)?
@@ -414,7 +414,6 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
         )
             .parse_next(input)?
     };
-    node_space0.parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
     let (before_children, children) = children
         .map(|(before_children, children)| (before_children.into(), Some(children)))
-- 
2.43.0


From 66de97d6e0227c09eecfa4fe20da9fa9d10ef5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 02/26] fix: print the whitespace and comments around a node's
 type annotation

KdlNodeFormat records before_ty_name, after_ty_name and after_ty, but
printing a node dropped them, so `( t )a` printed back as `(t)a`.
Autoformatting clears them, as it already does for entries.
---
 src/node.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..fcefc11 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -281,9 +281,14 @@ impl KdlNode {
             terminator,
             trailing,
             before_children,
-            ..
+            before_ty_name,
+            after_ty_name,
+            after_ty,
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,17 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            if let Some(KdlNodeFormat {
+                before_ty_name,
+                after_ty_name,
+                after_ty,
+                ..
+            }) = self.format()
+            {
+                write!(f, "({before_ty_name}{ty}{after_ty_name}){after_ty}")?;
+            } else {
+                write!(f, "({ty})")?;
+            }
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-- 
2.43.0


From 7e2afd606ac9da908f95d9904b8f3e0c9c141801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 03/26] fix: reject a literal U+007F (delete) as the
 specification demands

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 03678ff..b24bb1d 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1576,6 +1576,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From f20909520235fba1e257392c05c710c0cef39867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 04/26] fix: apply the single-line raw string check to every
 body that starts like a multi-line string, and only to single-line strings

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index b24bb1d..21d2ed0 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1362,7 +1362,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if !is_multiline && (body == "\"" || body.starts_with("\"\"")) {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From eae7867999c77bcb2429e1f6c52bd8ffc9ffbb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 05/26] fix: treat the terminator of a slashdashed node like
 that of any other node

---
 src/v2_parser.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 21d2ed0..4fee3ea 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,7 +280,7 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let mut leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -293,7 +293,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
     opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let trailing = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -327,7 +327,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -338,6 +338,21 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
     Ok(nd)
 }
 
+/// `slashdashed-node := slashdash base-node node-terminator`, where the
+/// terminator is optional for the last node of a document or children block.
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (slashdash, base_node).parse_next(input)?;
+    resume_after_cut(
+        cut_err(alt((node_terminator, eof.void(), peek("}").void()))).context(
+            cx().msg("Slashdashed node is not terminated")
+                .lbl("node terminator"),
+        ),
+        empty,
+    )
+    .void()
+    .parse_next(input)
+}
+
 fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     trace("children closing check", not(alt(("}".void(), eof.void())))).parse_next(input)?;
     let _start = input.checkpoint();
-- 
2.43.0


From 449e02e89aa2b876257d1e09c4e14dc48b2e9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 06/26] fix: reject -inf as an identifier string like the other
 reserved words

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 4fee3ea..b79928c 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1001,6 +1001,7 @@ fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
 
 /// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)?`
 fn signed_ident(input: &mut Input<'_>) -> PResult<()> {
+    not(("-inf", not(identifier_char))).parse_next(input)?;
     alt(("+", "-")).parse_next(input)?;
     not(alt((digit1.void(), ".".void()))).parse_next(input)?;
     repeat(0.., identifier_char).parse_next(input)
-- 
2.43.0


From 0a24485229a2c94ac0ea9d524eda65629ee14fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 07/26] fix: accept floats whose digit groups do not fit an
 i128

---
 src/v2_parser.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index b79928c..05dbe6c 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1782,27 +1782,27 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, decimal_digits),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        decimal_digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(decimal_digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, decimal_digits),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    decimal_digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1881,16 +1881,23 @@ fn decimal_test() {
 
 /// `integer := digit (digit | '_')*`
 fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    decimal_digits
+        .take()
+        .try_map(|digits: &str| T::from_str_radix(&str::replace(digits, "_", ""), 10))
+        .parse_next(input)
+}
+
+/// The text of an `integer`, whatever its magnitude.
+fn decimal_digits(input: &mut Input<'_>) -> PResult<()> {
     (
         digit1,
         repeat(
             0..,
             alt(("_", take_while(1.., AsChar::is_dec_digit).take())),
-        ),
+        )
+        .map(|()| ()),
     )
-        .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
-        })
+        .void()
         .parse_next(input)
 }
 
-- 
2.43.0


From c968077aab582980b6b14de91355be09d3ef1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 08/26] fix: quote strings such as +.5 and -.5 that are not
 identifier strings

---
 src/value.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..226310d 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -154,13 +154,12 @@ impl Display for KdlValue {
 }
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
-    let ident_bytes = ident.as_bytes();
+    let unsigned = ident.strip_prefix(['+', '-']).unwrap_or(ident);
+    let undotted = unsigned.strip_prefix('.').unwrap_or(unsigned);
     ident
         .find(crate::v2_parser::is_disallowed_ident_char)
         .is_none()
-        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
-        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
-            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+        && !undotted.starts_with(|c: char| c.is_ascii_digit())
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
-- 
2.43.0


From 81483ced80e0e498ba024cd2a1786bfea4b23a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 09/26] fix: escape newlines and disallowed code points when
 printing a string

---
 src/value.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index 226310d..aba5d11 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -190,6 +190,13 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // These may not appear literally in a quoted string
+                    '\u{0B}' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
+                    _ if crate::v2_parser::is_disallowed_unicode(char) => {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From ef50b6e6aa8bb7ad6a4934c891f54e28e61fd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 10/26] fix: terminate nodes that have no format when printing
 them

---
 src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index fcefc11..6c1082e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -888,6 +888,8 @@ impl KdlNode {
         }) = self.format()
         {
             write!(f, "{before_terminator}{terminator}{trailing}")?;
+        } else {
+            writeln!(f)?;
         }
         Ok(())
     }
-- 
2.43.0


From 53c4b6862d18d2ab410ea22876d11232bd76faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 11/26] fix: reject a slashdashed node that follows an
 unterminated node

---
 src/v2_parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 05dbe6c..aab2143 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -292,11 +292,19 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     )
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    // Only a terminated node can be followed by more (slashdashed) nodes.
+    let terminated = opt(node_terminator).parse_next(input)?.is_some() || ns.is_empty();
+    let trailing = if terminated {
+        repeat(0.., alt((line_space.void(), slashdashed_node)))
+            .map(|()| ())
+            .take()
+            .parse_next(input)?
+    } else {
+        repeat(0.., line_space)
+            .map(|()| ())
+            .take()
+            .parse_next(input)?
+    };
 
     // If there is a node, let it have the leading format
     // This gives more consistent behavior
-- 
2.43.0


From 2de98d18c9f098f885d8830f8fc1bdc74e454d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 12/26] fix: reject a slashdash that is itself slashdashed

---
 src/v2_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index aab2143..453bb2f 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -626,7 +626,8 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    // `node_entry` would take another slashdash as its leading trivia.
+    separated(1.., (slashdash, not("/-"), node_entry), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From 2bd35b7359568f32058b47209d586c73efc31e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 13/26] fix: keep escaped lines and multi-line strings intact
 when autoformatting leading trivia

---
 src/document.rs |  2 +-
 src/fmt.rs      | 36 ++++++++++++++++++++++++++++++++++--
 src/node.rs     |  2 +-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 300f176..6251448 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -252,7 +252,7 @@ impl KdlDocument {
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
-            crate::fmt::autoformat_leading(leading, config);
+            crate::fmt::autoformat_leading(leading, false, config);
         }
         let mut has_nodes = false;
         for node in &mut self.nodes {
diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..376334f 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -111,11 +111,43 @@ impl<'a> FormatConfigBuilder<'a> {
     }
 }
 
-pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
+const NEWLINES: [char; 7] = [
+    '\n', '\r', '\u{0B}', '\u{0C}', '\u{85}', '\u{2028}', '\u{2029}',
+];
+
+/// Whether moving or dropping line breaks and indentation could change what
+/// the text means: escaped lines and multi-line strings (of slashdashed nodes).
+fn is_line_sensitive(leading: &str) -> bool {
+    leading.contains("\"\"\"")
+        || leading.match_indices('\\').any(|(at, _)| {
+            let rest = &leading[at + 1..];
+            rest.is_empty()
+                || rest.starts_with(char::is_whitespace)
+                || rest.starts_with("//")
+                || rest.starts_with("/*")
+        })
+}
+
+pub(crate) fn autoformat_leading(
+    leading: &mut String,
+    before_node: bool,
+    config: &FormatConfig<'_>,
+) {
     let mut result = String::new();
     if !config.no_comments {
         let input = leading.trim();
-        if !input.is_empty() {
+        if is_line_sensitive(input) {
+            // Keep the lines as they are, as well as an empty one that follows:
+            // it ends what an escaped line continues.
+            for _ in 0..config.indent_level {
+                result.push_str(config.indent);
+            }
+            writeln!(result, "{input}").unwrap();
+            let after = leading.trim_start()[input.len()..].replace("\r\n", "\n");
+            if before_node && after.matches(NEWLINES).count() > 1 {
+                result.push('\n');
+            }
+        } else if !input.is_empty() {
             for line in input.lines() {
                 let trimmed = line.trim();
                 if !trimmed.is_empty() {
diff --git a/src/node.rs b/src/node.rs
index 6c1082e..7e79068 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -289,7 +289,7 @@ impl KdlNode {
             before_ty_name.clear();
             after_ty_name.clear();
             after_ty.clear();
-            crate::fmt::autoformat_leading(leading, config);
+            crate::fmt::autoformat_leading(leading, true, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
             *trailing = trailing.trim().into();
-- 
2.43.0


From e488696c318ddb5d371576d6238b962a431921c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 14/26] fix: accept integer literals equal to i128::MIN

---
 src/v2_parser.rs | 133 ++++++++++++++---------------------------------
 1 file changed, 39 insertions(+), 94 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 453bb2f..5623f55 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -5,7 +5,6 @@ use std::{
 
 use miette::{Severity, SourceSpan};
 
-use num_traits::CheckedMul;
 use winnow::{
     LocatingSlice,
     ascii::{Caseless, digit1, hex_digit1, oct_digit1},
@@ -164,20 +163,6 @@ impl<'a> FromExternalError<Input<'a>, ParseFloatError> for KdlParseError {
     }
 }
 
-struct NegativeUnsignedError;
-
-impl<'a> FromExternalError<Input<'a>, NegativeUnsignedError> for KdlParseError {
-    fn from_external_error(_input: &Input<'a>, _e: NegativeUnsignedError) -> Self {
-        Self {
-            span: None,
-            message: Some("Tried to parse a negative number as an unsigned integer".into()),
-            label: Some("negative unsigned int".into()),
-            help: None,
-            severity: Some(Severity::Error),
-        }
-    }
-}
-
 impl<I: Stream + Location> FromRecoverableError<I, Self> for KdlParseError {
     #[inline]
     fn from_recoverable_error(
@@ -1866,17 +1851,9 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    udecimal(input, positive)
 }
 
 #[cfg(test)]
@@ -1889,10 +1866,10 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn udecimal<T: FromStrRadix>(input: &mut Input<'_>, positive: bool) -> PResult<T> {
     decimal_digits
         .take()
-        .try_map(|digits: &str| T::from_str_radix(&str::replace(digits, "_", ""), 10))
+        .try_map(|digits: &str| from_digits(positive, &str::replace(digits, "_", ""), 10))
         .parse_next(input)
 }
 
@@ -1911,20 +1888,12 @@ fn decimal_digits(input: &mut Input<'_>) -> PResult<()> {
 }
 
 /// `hex := sign? '0x' hex-digit (hex-digit | '_')*`
-fn hex<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn hex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uhex::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    uhex(input, positive)
 }
 
-fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uhex<T: FromStrRadix>(input: &mut Input<'_>, positive: bool) -> PResult<T> {
     alt(("0x", "0X")).parse_next(input)?;
     cut_err((
         hex_digit1,
@@ -1934,7 +1903,11 @@ fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
+        from_digits(
+            positive,
+            &format!("{l}{}", str::replace(&r.join(""), "_", "")),
+            16,
+        )
     })
     .context(cx().lbl("hexadecimal"))
     .parse_next(input)
@@ -1967,20 +1940,12 @@ fn test_hex() {
 }
 
 /// `octal := sign? '0o' [0-7] [0-7_]*`
-fn octal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn octal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uoctal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    uoctal(input, positive)
 }
 
-fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uoctal<T: FromStrRadix>(input: &mut Input<'_>, positive: bool) -> PResult<T> {
     alt(("0o", "0O")).parse_next(input)?;
     cut_err((
         oct_digit1,
@@ -1990,7 +1955,11 @@ fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 8)
+        from_digits(
+            positive,
+            &format!("{l}{}", str::replace(&r.join(""), "_", "")),
+            8,
+        )
     })
     .context(cx().lbl("octal"))
     .parse_next(input)
@@ -2006,25 +1975,21 @@ fn test_octal() {
 }
 
 /// `binary := sign? '0b' ('0' | '1') ('0' | '1' | '_')*`
-fn binary<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn binary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    ubinary::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    ubinary(input, positive)
 }
 
-fn ubinary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn ubinary<T: FromStrRadix>(input: &mut Input<'_>, positive: bool) -> PResult<T> {
     alt(("0b", "0B")).parse_next(input)?;
     cut_err(
         (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
             move |(x, xs): (&str, Vec<&str>)| {
-                T::from_str_radix(&format!("{x}{}", str::replace(&xs.join(""), "_", "")), 2)
+                from_digits(
+                    positive,
+                    &format!("{x}{}", str::replace(&xs.join(""), "_", "")),
+                    2,
+                )
             },
         ),
     )
@@ -2059,6 +2024,17 @@ fn signum(input: &mut Input<'_>) -> PResult<bool> {
     Ok(mult)
 }
 
+/// The sign takes part in the conversion, because the magnitude of the smallest
+/// integer does not fit the type on its own.
+fn from_digits<T: FromStrRadix>(
+    positive: bool,
+    digits: &str,
+    radix: u32,
+) -> Result<T, ParseIntError> {
+    let sign = if positive { "" } else { "-" };
+    T::from_str_radix(&format!("{sign}{digits}"), radix)
+}
+
 trait FromStrRadix {
     fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseIntError>
     where
@@ -2081,34 +2057,6 @@ impl_from_str_radix!(
     i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize
 );
 
-trait MaybeNegatable: CheckedMul {
-    fn negated(&self) -> Option<Self>;
-}
-
-macro_rules! impl_negatable_signed {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    Some(self * -1)
-                }
-            }
-        )*
-    };
-}
-
-macro_rules! impl_negatable_unsigned {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    None
-                }
-            }
-        )*
-    };
-}
-
 trait ParseFloat {
     fn parse_float(input: &str) -> Result<Self, ParseFloatError>
     where
@@ -2126,9 +2074,6 @@ impl ParseFloat for f64 {
     }
 }
 
-impl_negatable_signed!(i8, i16, i32, i64, i128, isize);
-impl_negatable_unsigned!(u8, u16, u32, u64, u128, usize);
-
 #[cfg(test)]
 mod failure_tests {
     use miette::Severity;
-- 
2.43.0


From fa2b8299671d7413c8ef2b9b7a6246aae4769f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 15/26] fix: remove a property by its name however it is
 spelled

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 7e79068..faf3d5e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -705,7 +705,7 @@ impl KdlNode {
         match key {
             NodeKey::Key(key) => {
                 for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
+                    if entry.name.as_ref().map(|i| i.value()) == Some(key.value()) {
                         return Some(self.entries.remove(idx));
                     }
                 }
-- 
2.43.0


From 043450dd6e441aa331ddafce655bbb6cf67cad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 16/26] fix: setting a value or identifier replaces its stored
 text

---
 src/entry.rs      | 3 +++
 src/identifier.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..453316b 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -79,6 +79,9 @@ impl KdlEntry {
     /// Sets the entry's value.
     pub fn set_value(&mut self, value: impl Into<KdlValue>) {
         self.value = value.into();
+        if let Some(format) = &mut self.format {
+            format.value_repr = self.value.to_string();
+        }
     }
 
     /// Gets this entry's span.
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..40da7be 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -38,6 +38,7 @@ impl KdlIdentifier {
     /// Sets the string value for this identifier.
     pub fn set_value(&mut self, value: impl Into<String>) {
         self.value = value.into();
+        self.repr = None;
     }
 
     /// Gets this identifier's span.
-- 
2.43.0


From 8468e4447f87bd3b82955f15a877a35f614fb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 17/26] fix: order values consistently with their equality

---
 src/value.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index aba5d11..5058472 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
-use std::fmt::Display;
+use std::{cmp::Ordering, fmt::Display};
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,28 @@ impl PartialEq for KdlValue {
     }
 }
 
+// Not derived: this has to agree with `PartialEq` on non-finite floats.
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        let rank = |value: &Self| match value {
+            Self::String(_) => 0,
+            Self::Integer(_) => 1,
+            Self::Float(_) => 2,
+            Self::Bool(_) => 3,
+            Self::Null => 4,
+        };
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From 9bebcb84e35318e5a3084e88c6fe9824f4dbd7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 18/26] fix: separate a node from the unterminated text before
 it when printing

---
 src/document.rs | 21 +++++++++++++++++++--
 src/node.rs     | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 6251448..0b6a4c3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -4,7 +4,7 @@ use std::fmt::Display;
 
 #[cfg(feature = "v1")]
 use crate::KdlNodeFormat;
-use crate::{FormatConfig, KdlError, KdlNode, KdlValue};
+use crate::{FormatConfig, KdlError, KdlNode, KdlValue, v2_parser::NEWLINES};
 
 /// Represents a KDL
 /// [`Document`](https://github.com/kdl-org/kdl/blob/main/SPEC.md#document).
@@ -540,9 +540,26 @@ impl KdlDocument {
     ) -> std::fmt::Result {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
+            // The text of a document without nodes is all leading, and may
+            // end in a comment or in a slashdashed node without a terminator.
+            if let Some(first) = self.nodes.first()
+                && (leading.contains("//") || leading.contains("/-"))
+                && !NEWLINES.iter().any(|newline| leading.ends_with(newline))
+                && !first.starts_with_newline()
+            {
+                writeln!(f)?;
+            }
         }
-        for node in &self.nodes {
+        for (idx, node) in self.nodes.iter().enumerate() {
             node.stringify(f, indent)?;
+            // Nodes at the end of a document or block may have been written
+            // without a terminator, but still need one before another node.
+            if let Some(next) = self.nodes.get(idx + 1)
+                && !node.is_terminated()
+                && !next.starts_with_newline()
+            {
+                writeln!(f)?;
+            }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
             write!(f, "{trailing}")?;
diff --git a/src/node.rs b/src/node.rs
index faf3d5e..0549879 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -829,6 +829,25 @@ impl Display for KdlNode {
 }
 
 impl KdlNode {
+    /// Whether another node may directly follow the text of this one.
+    pub(crate) fn is_terminated(&self) -> bool {
+        self.format().is_none_or(|format| {
+            !format.terminator.is_empty()
+                || v2_parser::NEWLINES
+                    .iter()
+                    .any(|newline| format.trailing.contains(newline))
+        })
+    }
+
+    /// Whether this node's text starts on a line of its own.
+    pub(crate) fn starts_with_newline(&self) -> bool {
+        self.format().is_some_and(|format| {
+            v2_parser::NEWLINES
+                .iter()
+                .any(|newline| format.leading.starts_with(newline))
+        })
+    }
+
     pub(crate) fn stringify(
         &self,
         f: &mut std::fmt::Formatter<'_>,
-- 
2.43.0


From 98d46f9e6ef8decf0cc71428f3d49e942bafdf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 19/26] fix: keep slashdashed parts, comments and escaped lines
 intact when nodes around them change

---
 src/document.rs  | 27 ++++++++++++++++++++-------
 src/node.rs      | 40 ++++++++++++++++++++++++++++++++++------
 src/v2_parser.rs | 21 +++++++++++++++++++++
 3 files changed, 75 insertions(+), 13 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0b6a4c3..f55a96f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -4,7 +4,10 @@ use std::fmt::Display;
 
 #[cfg(feature = "v1")]
 use crate::KdlNodeFormat;
-use crate::{FormatConfig, KdlError, KdlNode, KdlValue, v2_parser::NEWLINES};
+use crate::{
+    FormatConfig, KdlError, KdlNode, KdlValue,
+    v2_parser::{self, NEWLINES},
+};
 
 /// Represents a KDL
 /// [`Document`](https://github.com/kdl-org/kdl/blob/main/SPEC.md#document).
@@ -543,11 +546,17 @@ impl KdlDocument {
             // The text of a document without nodes is all leading, and may
             // end in a comment or in a slashdashed node without a terminator.
             if let Some(first) = self.nodes.first()
-                && (leading.contains("//") || leading.contains("/-"))
-                && !NEWLINES.iter().any(|newline| leading.ends_with(newline))
-                && !first.starts_with_newline()
+                && ["//", "/-", "\\"].iter().any(|s| leading.contains(s))
             {
-                writeln!(f)?;
+                if v2_parser::newline_is_escaped(leading) {
+                    writeln!(f)?;
+                }
+                if (leading.contains('\\')
+                    || !NEWLINES.iter().any(|newline| leading.ends_with(newline)))
+                    && !first.starts_with_newline()
+                {
+                    writeln!(f)?;
+                }
             }
         }
         for (idx, node) in self.nodes.iter().enumerate() {
@@ -556,9 +565,13 @@ impl KdlDocument {
             // without a terminator, but still need one before another node.
             if let Some(next) = self.nodes.get(idx + 1)
                 && !node.is_terminated()
-                && !next.starts_with_newline()
             {
-                writeln!(f)?;
+                if node.newline_after_is_escaped() {
+                    writeln!(f)?;
+                }
+                if !next.starts_with_newline() {
+                    writeln!(f)?;
+                }
             }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
diff --git a/src/node.rs b/src/node.rs
index 0549879..85ce91d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -832,13 +832,21 @@ impl KdlNode {
     /// Whether another node may directly follow the text of this one.
     pub(crate) fn is_terminated(&self) -> bool {
         self.format().is_none_or(|format| {
-            !format.terminator.is_empty()
-                || v2_parser::NEWLINES
-                    .iter()
-                    .any(|newline| format.trailing.contains(newline))
+            // A comment at the end of the text has no newline in it.
+            (!format.terminator.is_empty() && !format.terminator.starts_with("//"))
+                || v2_parser::NEWLINES.iter().any(|newline| {
+                    format.terminator.contains(newline) || format.trailing.contains(newline)
+                })
         })
     }
 
+    /// Whether a newline directly after this node would become a part of an
+    /// escaped line.
+    pub(crate) fn newline_after_is_escaped(&self) -> bool {
+        self.format()
+            .is_some_and(|format| v2_parser::newline_is_escaped(&format.before_terminator))
+    }
+
     /// Whether this node's text starts on a line of its own.
     pub(crate) fn starts_with_newline(&self) -> bool {
         self.format().is_some_and(|format| {
@@ -880,6 +888,24 @@ impl KdlNode {
             write!(f, "{entry}")?;
             space_before_children = entry.format().is_none();
         }
+        // Slashdashed entries and children are kept with the rest of the
+        // spacing, but are only valid in some places around the children.
+        let before_terminator = self
+            .format()
+            .map_or("", |format| format.before_terminator.as_str());
+        let slashdashed = before_terminator.contains("/-");
+        let mut after_children = true;
+        if self.children.is_none() {
+            if slashdashed && !v2_parser::can_follow_entries(before_terminator) {
+                write!(f, " ")?;
+            }
+        } else if slashdashed && !v2_parser::can_follow_children(before_terminator) {
+            after_children = false;
+            write!(f, "{before_terminator}")?;
+            if v2_parser::newline_is_escaped(before_terminator) {
+                writeln!(f)?;
+            }
+        }
         if let Some(children) = &self.children {
             if let Some(KdlNodeFormat {
                 before_children, ..
@@ -900,13 +926,15 @@ impl KdlNode {
             write!(f, "}}")?;
         }
         if let Some(KdlNodeFormat {
-            before_terminator,
             terminator,
             trailing,
             ..
         }) = self.format()
         {
-            write!(f, "{before_terminator}{terminator}{trailing}")?;
+            if after_children {
+                write!(f, "{before_terminator}")?;
+            }
+            write!(f, "{terminator}{trailing}")?;
         } else {
             writeln!(f)?;
         }
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 5623f55..f9bd0a8 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -757,6 +757,27 @@ fn slashdashed_children(input: &mut Input<'_>) -> PResult<()> {
     .parse_next(input)
 }
 
+/// Whether the given spacing, with slashdashed entries and children in it, is
+/// valid between a node's entries and its terminator.
+pub(crate) fn can_follow_entries(text: &str) -> bool {
+    try_parse(before_node_children, text).is_ok()
+}
+
+/// Whether the given spacing, with slashdashed children in it, is valid
+/// between a node's children and its terminator.
+pub(crate) fn can_follow_children(text: &str) -> bool {
+    try_parse((opt(slashdashed_children), node_space0), text).is_ok()
+}
+
+/// Whether a newline directly after the given spacing would become a part of
+/// an escaped line in it.
+pub(crate) fn newline_is_escaped(text: &str) -> bool {
+    let last_line = NEWLINES.iter().fold(text, |line, newline| {
+        line.rsplit(newline).next().unwrap_or(line)
+    });
+    last_line.contains('\\') || (text.contains('\\') && text.ends_with('\r'))
+}
+
 #[cfg(test)]
 #[test]
 fn around_children_test() {
-- 
2.43.0


From 9bc0b9c478a9af658da08371bd3913b3cc91bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:25 +0000
Subject: [PATCH 20/26] fix: do not leave a newline between a slashdashed child
 block and the terminator when autoformatting

---
 src/node.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 85ce91d..f525740 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -291,6 +291,14 @@ impl KdlNode {
             after_ty.clear();
             crate::fmt::autoformat_leading(leading, true, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
+            // The newline after the last comment belongs to the terminator,
+            // unless it ends an escaped line.
+            if before_terminator.ends_with('\n')
+                && !v2_parser::can_follow_entries(before_terminator)
+                && !v2_parser::can_follow_children(before_terminator)
+            {
+                before_terminator.pop();
+            }
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
             *trailing = trailing.trim().into();
             if !terminator.starts_with('\n') {
@@ -902,7 +910,7 @@ impl KdlNode {
         } else if slashdashed && !v2_parser::can_follow_children(before_terminator) {
             after_children = false;
             write!(f, "{before_terminator}")?;
-            if v2_parser::newline_is_escaped(before_terminator) {
+            if v2_parser::can_follow_entries(&format!("{before_terminator}\n")) {
                 writeln!(f)?;
             }
         }
-- 
2.43.0


From 951c5125557b52ca36f67ebb5eb0cf6d4345516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 21/26] fix: read map keys, enum fields, type annotations and
 top-level values the way they are written

---
 src/de.rs | 264 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 224 insertions(+), 40 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..14a5e71 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,7 +205,6 @@ use std::{fmt, iter};
 
 use miette::{Diagnostic, LabeledSpan, Severity, SourceCode, SourceSpan};
 use serde::Deserialize;
-use serde::de::value::StringDeserializer;
 use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
 
 use crate::{KdlDiagnostic, KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue};
@@ -338,6 +337,67 @@ fn str_deserializer(s: &str) -> de::value::StrDeserializer<'_, Error> {
     de::IntoDeserializer::into_deserializer(s)
 }
 
+/// Deserializes a key of a map, which may be a number or a boolean that was
+/// written as a string.
+struct KeyDeserializer<'a> {
+    key: &'a str,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident $visit:ident)*) => {
+        $(fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+            match self.key.parse() {
+                Ok(value) => visitor.$visit(value),
+                Err(_) => visitor.visit_str(self.key),
+            }
+        })*
+    };
+}
+
+impl<'de, 'a> de::Deserializer<'de> for KeyDeserializer<'a> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_str(self.key)
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        str_deserializer(self.key).deserialize_enum(name, variants, visitor)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool visit_bool deserialize_i8 visit_i8
+        deserialize_i16 visit_i16 deserialize_i32 visit_i32
+        deserialize_i64 visit_i64 deserialize_i128 visit_i128
+        deserialize_u8 visit_u8 deserialize_u16 visit_u16
+        deserialize_u32 visit_u32 deserialize_u64 visit_u64
+        deserialize_u128 visit_u128 deserialize_f32 visit_f32
+        deserialize_f64 visit_f64
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
 fn entry_span(entry: &KdlEntry) -> SourceSpan {
     #[cfg(feature = "span")]
     {
@@ -434,6 +494,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         visitor.visit_newtype_struct(self)
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -446,7 +510,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
@@ -561,6 +625,17 @@ impl<'de, 'a> de::Deserializer<'de> for ValueDeserializer<'a> {
     }
 }
 
+macro_rules! deserialize_document_scalar {
+    ($($method:ident)*) => {
+        $(fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+            match self.value_node() {
+                Some(node) => node.$method(visitor),
+                None => self.deserialize_any(visitor),
+            }
+        })*
+    };
+}
+
 struct DocumentDeserializer<'a> {
     doc: &'a KdlDocument,
     input: &'a Arc<String>,
@@ -623,15 +698,19 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
 
     fn deserialize_enum<V: Visitor<'de>>(
         self,
-        _name: &'static str,
-        _variants: &'static [&'static str],
+        name: &'static str,
+        variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
         // For enums at document level, treat as a single-node document where
         // the node name is the variant.
         let nodes = self.doc.nodes();
-        if nodes.len() == 1 {
+        if let Some(node) = self.value_node() {
+            // A unit variant is written as a value.
+            node.deserialize_enum(name, variants, visitor)
+        } else if nodes.len() == 1 {
             visitor.visit_enum(NodeEnumAccess {
+                parent: None,
                 node: &nodes[0],
                 input: self.input,
             })
@@ -643,13 +722,47 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         }
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    deserialize_document_scalar! {
+        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32
+        deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16
+        deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32
+        deserialize_f64 deserialize_char deserialize_str deserialize_string
+        deserialize_bytes deserialize_byte_buf
+    }
+
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32
-        i64 i128 u8 u16
-        u32 u64 u128 f32
-        f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        identifier ignored_any
+    }
+}
+
+impl<'a> DocumentDeserializer<'a> {
+    /// The only node of a document that holds a single value, which is named
+    /// `-`.
+    fn value_node(&self) -> Option<NodeDeserializer<'a>> {
+        match self.doc.nodes() {
+            [node] if node.name().value() == "-" => Some(NodeDeserializer {
+                node,
+                input: self.input,
+            }),
+            _ => None,
+        }
     }
 }
 
@@ -701,7 +814,7 @@ impl<'de, 'a> MapAccess<'de> for DocumentMapAccess<'a> {
             return Ok(None);
         }
         let key = self.keys[self.idx];
-        seed.deserialize(str_deserializer(key)).map(Some)
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
@@ -975,6 +1088,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
             let child_nodes = children.nodes();
             if child_nodes.len() == 1 {
                 return visitor.visit_enum(NodeEnumAccess {
+                    parent: Some(self.node),
                     node: &child_nodes[0],
                     input: self.input,
                 });
@@ -995,6 +1109,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
 
         // Fall back: just node name is variant
         visitor.visit_enum(NodeEnumAccess {
+            parent: None,
             node: self.node,
             input: self.input,
         })
@@ -1081,9 +1196,21 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         })
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
@@ -1116,6 +1243,8 @@ impl<'de, 'a> SeqAccess<'de> for NodeGroupSeqAccess<'a> {
 struct NodeMapAccess<'a> {
     /// Properties and children combined as (key, value_source).
     entries: Vec<(Cow<'a, str>, NodeMapValue<'a>)>,
+    /// Names of the properties and children in there.
+    used_names: Vec<&'a str>,
     idx: usize,
     input: &'a Arc<String>,
 }
@@ -1135,8 +1264,34 @@ impl<'a> NodeMapAccess<'a> {
         node: &'a KdlNode,
         input: &'a Arc<String>,
         fields: Option<&'static [&'static str]>,
+    ) -> Self {
+        let mut access = Self::new_present(None, node, input, fields);
+        if let Some(fields) = fields {
+            for field in fields {
+                if !field.starts_with('#') && !access.used_names.contains(field) {
+                    access
+                        .entries
+                        .push((String::from(*field).into(), NodeMapValue::Omitted));
+                }
+            }
+        }
+        access
+    }
+
+    /// As [`Self::new`], without values for the fields that are not there.
+    fn new_present(
+        parent: Option<&'a KdlNode>,
+        node: &'a KdlNode,
+        input: &'a Arc<String>,
+        fields: Option<&'static [&'static str]>,
     ) -> Self {
         let mut entries: Vec<(Cow<'a, str>, NodeMapValue<'a>)> = Vec::new();
+        // Renamed fields of an enum variant may also be written on the node
+        // that holds the variant.
+        let (node_entries, is_parent) = match parent {
+            Some(parent) if node.entries().is_empty() => (parent.entries(), true),
+            _ => (node.entries(), false),
+        };
 
         if let Some(fields) = fields {
             if fields.contains(&"#name") {
@@ -1154,8 +1309,7 @@ impl<'a> NodeMapAccess<'a> {
         {
             let mut args = Vec::new();
             let mut rest = Vec::new();
-            for (i, arg) in node
-                .entries()
+            for (i, arg) in node_entries
                 .iter()
                 .filter(|e| e.name().is_none())
                 .enumerate()
@@ -1165,7 +1319,9 @@ impl<'a> NodeMapAccess<'a> {
                 }
                 let idx_name = format!("#{i}");
                 let ty_name = format!("{idx_name}#type");
-                if let Some(ty) = arg.ty() {
+                if let Some(ty) = arg.ty()
+                    && fields.contains(&ty_name.as_ref())
+                {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
                 if fields.contains(&idx_name.as_ref()) {
@@ -1183,14 +1339,16 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in node.entries().iter().filter(|e| e.name().is_some()) {
+        for prop in node_entries.iter().filter(|e| e.name().is_some()) {
             // SAFETY: we just filtered for things with names.
             let name = prop.name().unwrap().value();
+            let mut is_renamed = false;
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
                 if fields.contains(&hash_name.as_ref()) {
                     entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
+                    is_renamed = true;
                 }
                 if let Some(ty) = prop.ty()
                     && fields.contains(&ty_name.as_ref())
@@ -1198,8 +1356,11 @@ impl<'a> NodeMapAccess<'a> {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
             }
-            entries.push((name.into(), NodeMapValue::Arg(prop)));
-            used_names.push(name);
+            // A field without the prefix is then another one.
+            if !is_renamed && !is_parent {
+                entries.push((name.into(), NodeMapValue::Arg(prop)));
+                used_names.push(name);
+            }
         }
 
         // Add children (grouped by node name)
@@ -1224,16 +1385,10 @@ impl<'a> NodeMapAccess<'a> {
                 }
             }
         }
-        if let Some(fields) = fields {
-            for field in fields {
-                if !field.starts_with('#') && !used_names.contains(field) {
-                    entries.push((String::from(*field).into(), NodeMapValue::Omitted));
-                }
-            }
-        }
 
         NodeMapAccess {
             entries,
+            used_names,
             idx: 0,
             input,
         }
@@ -1250,11 +1405,8 @@ impl<'de, 'a> MapAccess<'de> for NodeMapAccess<'a> {
         if self.idx >= self.entries.len() {
             return Ok(None);
         }
-        match &self.entries[self.idx].0 {
-            Cow::Borrowed(s) => seed.deserialize(str_deserializer(s)),
-            Cow::Owned(s) => seed.deserialize(StringDeserializer::new(s.clone())),
-        }
-        .map(Some)
+        let key = &self.entries[self.idx].0;
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
@@ -1353,14 +1505,45 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_unit_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
 
 struct NodeEnumAccess<'a> {
+    /// The node with the enum, if the variant has one of its own.
+    parent: Option<&'a KdlNode>,
     node: &'a KdlNode,
     input: &'a Arc<String>,
 }
@@ -1386,6 +1569,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
         Ok((
             val,
             NodeVariantAccess {
+                parent: self.parent,
                 node: self.node,
                 input: self.input,
             },
@@ -1394,6 +1578,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
 }
 
 struct NodeVariantAccess<'a> {
+    parent: Option<&'a KdlNode>,
     node: &'a KdlNode,
     input: &'a Arc<String>,
 }
@@ -1431,16 +1616,15 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
 
     fn struct_variant<V: Visitor<'de>>(
         self,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_map(
-            NodeDeserializer {
-                node: self.node,
-                input: self.input,
-            },
-            visitor,
-        )
+        visitor.visit_map(NodeMapAccess::new_present(
+            self.parent,
+            self.node,
+            self.input,
+            Some(fields),
+        ))
     }
 }
 
-- 
2.43.0


From ba0e9c745b510acb4fd1f3098341ca681f2777a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 22/26] fix: write renamed fields, enum variants and absent
 values so that they read back

---
 src/se.rs | 613 +++++++++++++++++++++---------------------------------
 1 file changed, 238 insertions(+), 375 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..7f70bae 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::{collections::BTreeMap, fmt};
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -106,7 +106,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     type SerializeSeq = SeqNodeSerializer<'a>;
     type SerializeTuple = SeqNodeSerializer<'a>;
     type SerializeTupleStruct = SeqNodeSerializer<'a>;
-    type SerializeTupleVariant = SeqNodeSerializer<'a>;
+    type SerializeTupleVariant = TupleVariantSerializer<'a>;
     type SerializeMap = MapNodeSerializer<'a>;
     type SerializeStruct = MapNodeSerializer<'a>;
     type SerializeStructVariant = StructVariantSerializer<'a>;
@@ -256,9 +256,9 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqNodeSerializer {
+        Ok(TupleVariantSerializer {
             nodes: &mut self.doc.nodes,
-            node_name: variant,
+            node: KdlNode::new(variant),
         })
     }
 
@@ -288,10 +288,8 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(StructVariantSerializer {
-            parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            nodes: &mut self.doc.nodes,
+            variant: StructVariantNode::new(variant),
         })
     }
 }
@@ -343,16 +341,24 @@ impl<'a> ser::SerializeTupleStruct for SeqNodeSerializer<'a> {
     }
 }
 
-impl<'a> ser::SerializeTupleVariant for SeqNodeSerializer<'a> {
+struct TupleVariantSerializer<'a> {
+    nodes: &'a mut Vec<KdlNode>,
+    node: KdlNode,
+}
+
+impl<'a> ser::SerializeTupleVariant for TupleVariantSerializer<'a> {
     type Ok = ();
     type Error = Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
+        let kdl_val = to_kdl_value(value)?;
+        self.node.entries_mut().push(KdlEntry::new(kdl_val));
+        Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
+        self.nodes.push(self.node);
+        Ok(())
     }
 }
 
@@ -396,14 +402,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
         value: &T,
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
-        serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if !serialize_value_into_node(&mut node, value)? {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -414,10 +414,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 }
 
 struct StructVariantSerializer<'a> {
-    parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    nodes: &'a mut Vec<KdlNode>,
+    variant: StructVariantNode,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -429,65 +427,200 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
+        self.variant.serialize_field(key, value)
+    }
+
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        self.nodes.push(self.variant.finish()?);
+        Ok(())
+    }
+}
+
+/// The node of a struct variant.
+struct StructVariantNode {
+    name: &'static str,
+    node: KdlNode,
+    parts: NodeParts,
+}
+
+impl StructVariantNode {
+    fn new(name: &'static str) -> Self {
+        StructVariantNode {
+            name,
+            node: KdlNode::new(name),
+            parts: NodeParts::default(),
+        }
+    }
+
+    fn serialize_field<T: ?Sized + Serialize>(
+        &mut self,
+        key: &'static str,
+        value: &T,
+    ) -> Result<(), Error> {
+        if key.starts_with('#') {
+            return self.parts.serialize_part(&mut self.node, key, value);
+        }
+        let mut child = KdlNode::new(key);
+        let is_absent = serialize_value_into_node(&mut child, value)?;
+        // Here, only options are read as absent.
+        if !is_absent || child.get(0) != Some(&KdlValue::Null) {
+            self.node.ensure_children().nodes_mut().push(child);
+        }
+        Ok(())
+    }
+
+    fn finish(mut self) -> Result<KdlNode, Error> {
+        self.parts.finish(&mut self.node)?;
+        self.node.set_name(self.name);
+        self.node.ensure_children();
+        Ok(self.node)
+    }
+}
+
+/// The fields of a struct that are renamed to parts of its node.
+#[derive(Default)]
+struct NodeParts {
+    args: BTreeMap<usize, KdlEntry>,
+    all_args: Option<Vec<KdlEntry>>,
+    rest: Option<Vec<KdlEntry>>,
+    arg_types: Vec<(usize, KdlValue)>,
+    prop_types: Vec<(&'static str, KdlValue)>,
+}
+
+impl NodeParts {
+    fn serialize_part<T: ?Sized + Serialize>(
+        &mut self,
+        node: &mut KdlNode,
+        key: &'static str,
+        value: &T,
+    ) -> Result<(), Error> {
         if let Some(attr_name) = key.strip_prefix("#@") {
             let kdl_val = to_kdl_value(value)?;
-            node.entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
+            match attr_name.strip_suffix("#type") {
+                Some(attr_name) => self.prop_types.push((attr_name, kdl_val)),
+                None => node
+                    .entries_mut()
+                    .push(KdlEntry::new_prop(attr_name, kdl_val)),
+            }
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
+            self.all_args = Some(collect_args(value)?);
         } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
+            self.rest = Some(collect_args(value)?);
+        } else if key == "#name" {
+            node.set_name(key_to_string(value)?);
+        } else if key == "#type" {
+            if let Some(ty) = type_name(to_kdl_value(value)?)? {
+                node.set_ty(ty);
+            }
+        } else {
+            let index = key.strip_prefix('#').unwrap_or(key);
+            let (index, is_type) = match index.strip_suffix("#type") {
+                Some(index) => (index, true),
+                None => (index, false),
             };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
+            let index = index.parse().map_err(|e| Error {
                 msg: format!("Failed to parse index rename {key}: {e}"),
             })?;
-            self.used_indices.insert(idx);
             let kdl_val = to_kdl_value(value)?;
-            node.entries_mut().push(KdlEntry::new(kdl_val));
+            if is_type {
+                self.arg_types.push((index, kdl_val));
+            } else {
+                self.args.insert(index, KdlEntry::new(kdl_val));
+            }
+        }
+        Ok(())
+    }
+
+    /// Adds the collected arguments, in order, and type annotations.
+    fn finish(&mut self, node: &mut KdlNode) -> Result<(), Error> {
+        let mut args = Vec::new();
+        if let Some(all_args) = self.all_args.take() {
+            // The other arguments are some of these.
+            args = all_args;
         } else {
-            let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
-            let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
+            let has_rest = self.rest.is_some();
+            let mut rest = self.rest.take().unwrap_or_default().into_iter();
+            for (index, arg) in std::mem::take(&mut self.args) {
+                while args.len() < index {
+                    args.push(match rest.next() {
+                        Some(arg) => arg,
+                        None if has_rest => {
+                            return Err(ser::Error::custom(format!(
+                                "there is no argument before #{index} to fill position {}",
+                                args.len()
+                            )));
+                        }
+                        None => KdlEntry::new(KdlValue::Null),
+                    });
                 }
+                args.push(arg);
+            }
+            args.extend(rest);
+        }
+        for (index, ty) in self.arg_types.drain(..) {
+            if let Some(ty) = type_name(ty)? {
+                args.get_mut(index)
+                    .ok_or_else(|| {
+                        <Error as ser::Error>::custom(format!("there is no argument #{index}"))
+                    })?
+                    .set_ty(ty);
+            }
+        }
+        node.entries_mut().splice(0..0, args);
+        for (name, ty) in self.prop_types.drain(..) {
+            if let Some(ty) = type_name(ty)? {
+                node.entry_mut(name)
+                    .ok_or_else(|| {
+                        <Error as ser::Error>::custom(format!("there is no property {name}"))
+                    })?
+                    .set_ty(ty);
             }
         }
         Ok(())
     }
+}
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
-        Ok(())
+fn collect_args<T: ?Sized + Serialize>(value: &T) -> Result<Vec<KdlEntry>, Error> {
+    let mut node = KdlNode::new("-");
+    let mut ser = ArgsSerializer { node: &mut node };
+    value.serialize(&mut ser)?;
+    Ok(std::mem::take(node.entries_mut()))
+}
+
+fn type_name(value: KdlValue) -> Result<Option<String>, Error> {
+    match value {
+        KdlValue::String(ty) => Ok(Some(ty)),
+        KdlValue::Null => Ok(None),
+        _ => Err(ser::Error::custom("type annotations must be strings")),
     }
 }
 
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
+///
+/// Returns whether the value is one that structs leave out: `false`, `None` or
+/// a unit, but not one of those within something else.
 fn serialize_value_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
     value: &T,
-) -> Result<(), Error> {
-    let mut ser = NodeValueSerializer { node };
-    value.serialize(&mut ser)
+) -> Result<bool, Error> {
+    let mut is_absent = false;
+    let mut ser = NodeValueSerializer {
+        node,
+        in_some: false,
+        is_absent: &mut is_absent,
+    };
+    value.serialize(&mut ser)?;
+    Ok(is_absent)
 }
 
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
+    /// Whether the value is the content of a `Some`.
+    in_some: bool,
+    /// Whether the value turned out to be one that structs leave out.
+    is_absent: &'a mut bool,
 }
 
 impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
@@ -503,6 +636,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     type SerializeStructVariant = NodeChildStructVariantSerializer<'a>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
+        *self.is_absent = !v && !self.in_some;
         self.node.entries_mut().push(KdlEntry::new(v));
         Ok(())
     }
@@ -569,15 +703,16 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
+        self.serialize_unit()
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        self.in_some = true;
         value.serialize(self)
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
+        *self.is_absent = !self.in_some;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
@@ -619,7 +754,10 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(NodeSeqSerializer { node: self.node })
+        Ok(NodeSeqSerializer {
+            node: self.node,
+            in_some: self.in_some,
+        })
     }
 
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
@@ -651,7 +789,9 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(NodeChildMapSerializer {
             node: self.node,
+            in_some: self.in_some,
             current_key: None,
+            parts: NodeParts::default(),
         })
     }
 
@@ -662,7 +802,9 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     ) -> Result<Self::SerializeStruct, Self::Error> {
         Ok(NodeChildMapSerializer {
             node: self.node,
+            in_some: self.in_some,
             current_key: None,
+            parts: NodeParts::default(),
         })
     }
 
@@ -675,14 +817,22 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(NodeChildStructVariantSerializer {
             parent: self.node,
-            variant,
-            children: KdlDocument::new(),
+            variant: StructVariantNode::new(variant),
         })
     }
 }
 
+/// Marks an empty node for the content of a `Some`, since a node without
+/// anything in it is a `None`.
+fn mark_some(node: &mut KdlNode) {
+    if node.entries().is_empty() {
+        node.ensure_children();
+    }
+}
+
 struct NodeSeqSerializer<'a> {
     node: &'a mut KdlNode,
+    in_some: bool,
 }
 
 impl<'a> ser::SerializeSeq for NodeSeqSerializer<'a> {
@@ -696,6 +846,9 @@ impl<'a> ser::SerializeSeq for NodeSeqSerializer<'a> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if self.in_some {
+            mark_some(self.node);
+        }
         Ok(())
     }
 }
@@ -756,7 +909,9 @@ impl<'a> ser::SerializeTupleVariant for NodeChildSeqSerializer<'a> {
 
 struct NodeChildMapSerializer<'a> {
     node: &'a mut KdlNode,
+    in_some: bool,
     current_key: Option<String>,
+    parts: NodeParts,
 }
 
 impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
@@ -774,21 +929,16 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        let mut child_ser = NodeValueSerializer { node: &mut child };
-        value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
-        }
+        serialize_value_into_node(&mut child, value)?;
+        let children = self.node.ensure_children();
+        children.nodes_mut().push(child);
         Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if self.in_some {
+            mark_some(self.node);
+        }
         Ok(())
     }
 }
@@ -802,49 +952,30 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.node
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
-            let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
-            }
+        if key.starts_with('#') {
+            return self.parts.serialize_part(self.node, key, value);
+        }
+        let mut child = KdlNode::new(key);
+        let is_absent = serialize_value_into_node(&mut child, value)?;
+        let children = self.node.ensure_children();
+        if !is_absent {
+            children.nodes_mut().push(child);
         }
         Ok(())
     }
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
+    fn end(mut self) -> Result<Self::Ok, Self::Error> {
+        self.parts.finish(self.node)?;
+        if self.in_some {
+            mark_some(self.node);
+        }
         Ok(())
     }
 }
 
 struct NodeChildStructVariantSerializer<'a> {
     parent: &'a mut KdlNode,
-    variant: &'static str,
-    children: KdlDocument,
+    variant: StructVariantNode,
 }
 
 impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
@@ -856,42 +987,13 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.parent
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.parent.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child_ser = NodeValueSerializer { node: &mut node };
-            value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
-            }
-        }
-        Ok(())
+        self.variant.serialize_field(key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
+        let mut node = self.variant.finish()?;
+        // Arguments and properties are those of the node with the enum.
+        self.parent.entries_mut().append(node.entries_mut());
         let parent_children = self.parent.ensure_children();
         parent_children.nodes_mut().push(node);
         Ok(())
@@ -1263,245 +1365,6 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
-- 
2.43.0


From 0b978eff0170ccbd598e7568bb63c480f8de1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 23/26] fix: do not read repeated nodes as the fields of a
 struct, nor properties spelled like renamed fields as those

---
 src/de.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 14a5e71..7155baa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1208,10 +1208,20 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         visitor.visit_newtype_struct(self)
     }
 
+    fn deserialize_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        // A struct is one node: repeated ones are not its fields in order.
+        Err(de::Error::invalid_type(de::Unexpected::Seq, &visitor))
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf unit unit_struct tuple
-        tuple_struct map struct enum identifier ignored_any
+        tuple_struct map enum identifier ignored_any
     }
 }
 
@@ -1259,6 +1269,17 @@ enum NodeMapValue<'a> {
     Omitted,
 }
 
+/// The key for a property or child with this name. One that happens to be
+/// spelled like a renamed field (`"#0"`, say) is not what that field asks for.
+fn plain_key<'a>(name: &'a str, fields: Option<&'static [&'static str]>) -> Cow<'a, str> {
+    match fields {
+        Some(fields) if name.starts_with('#') && fields.contains(&name) => {
+            format!("#{name}").into()
+        }
+        _ => name.into(),
+    }
+}
+
 impl<'a> NodeMapAccess<'a> {
     fn new(
         node: &'a KdlNode,
@@ -1358,7 +1379,7 @@ impl<'a> NodeMapAccess<'a> {
             }
             // A field without the prefix is then another one.
             if !is_renamed && !is_parent {
-                entries.push((name.into(), NodeMapValue::Arg(prop)));
+                entries.push((plain_key(name, fields), NodeMapValue::Arg(prop)));
                 used_names.push(name);
             }
         }
@@ -1378,10 +1399,11 @@ impl<'a> NodeMapAccess<'a> {
             }
             for key in child_keys {
                 let group = child_groups.remove(key).unwrap();
+                let key = plain_key(key, fields);
                 if group.len() == 1 {
-                    entries.push((key.into(), NodeMapValue::SingleNode(group[0])));
+                    entries.push((key, NodeMapValue::SingleNode(group[0])));
                 } else {
-                    entries.push((key.into(), NodeMapValue::MultiNode(group)));
+                    entries.push((key, NodeMapValue::MultiNode(group)));
                 }
             }
         }
-- 
2.43.0


From 192431622190ddd4844bb6faa2665dd41b0edee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 24/26] fix: autoformat what was built or cleared like what was
 parsed, and indent the first line once

Nodes and documents without a format were left without indentation, so
that formatting the result again changed it; with an indent level, the
first line was indented twice, and a byte order mark was moved away from
the start of the text.
---
 src/document.rs |  3 +++
 src/fmt.rs      | 13 +++++++++++--
 src/node.rs     | 12 +++++++-----
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f55a96f..e9f3a93 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -254,6 +254,9 @@ impl KdlDocument {
 
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
+        if self.format.is_none() {
+            self.set_format(KdlDocumentFormat::default());
+        }
         if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
             crate::fmt::autoformat_leading(leading, false, config);
         }
diff --git a/src/fmt.rs b/src/fmt.rs
index 376334f..4d03825 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -134,6 +134,13 @@ pub(crate) fn autoformat_leading(
     config: &FormatConfig<'_>,
 ) {
     let mut result = String::new();
+    if let Some(rest) = leading.strip_prefix('\u{FEFF}') {
+        // A byte order mark is only that at the very start.
+        if !config.no_comments {
+            result.push('\u{FEFF}');
+        }
+        *leading = rest.to_string();
+    }
     if !config.no_comments {
         let input = leading.trim();
         if is_line_sensitive(input) {
@@ -159,8 +166,10 @@ pub(crate) fn autoformat_leading(
             }
         }
     }
-    for _ in 0..config.indent_level {
-        result.push_str(config.indent);
+    if before_node {
+        for _ in 0..config.indent_level {
+            result.push_str(config.indent);
+        }
     }
     *leading = result;
 }
diff --git a/src/node.rs b/src/node.rs
index f525740..30c2ee4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -275,6 +275,9 @@ impl KdlNode {
 
     /// Auto-formats this node and its contents according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
+        if self.format.is_none() {
+            self.set_format(KdlNodeFormat::default());
+        }
         if let Some(KdlNodeFormat {
             leading,
             before_terminator,
@@ -311,11 +314,6 @@ impl KdlNode {
             }
 
             *before_children = " ".into();
-        } else {
-            self.set_format(KdlNodeFormat {
-                terminator: "\n".into(),
-                ..Default::default()
-            })
         }
         self.name.clear_format();
         if let Some(ty) = self.ty.as_mut() {
@@ -328,11 +326,15 @@ impl KdlNode {
             entry.autoformat();
         }
         if let Some(children) = self.children.as_mut() {
+            let built_empty = children.format().is_none() && children.nodes().is_empty();
             children.autoformat_config(&FormatConfig {
                 indent_level: config.indent_level + 1,
                 ..*config
             });
             if let Some(KdlDocumentFormat { leading, trailing }) = children.format_mut() {
+                if built_empty {
+                    trailing.clear();
+                }
                 *leading = leading.trim().into();
                 leading.push('\n');
                 for _ in 0..config.indent_level {
-- 
2.43.0


From 9eb37cb56d3e0eda625f0a68309ed1d0739427a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:02 +0000
Subject: [PATCH 25/26] fix: clear the format of a node's type annotation along
 with the rest

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 30c2ee4..9648882 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
-- 
2.43.0


From f617ef9fe02acc980ccd7731faf8bc08a59be993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:27 +0000
Subject: [PATCH 26/26] fix: write converted documents so that the other KDL
 version reads the same ones

Comments, escaped lines, whitespace, names and values that the other version
would not read as such are written out again; a KDL 1 line comment after a
node no longer takes the next node with it.
---
 src/document.rs   |  60 ++++++++++++++------
 src/entry.rs      |  67 ++++++++++++++++++++---
 src/identifier.rs |  14 +++++
 src/node.rs       | 137 ++++++++++++++++++++++++++++++++++------------
 src/v2_parser.rs  |   2 +-
 5 files changed, 219 insertions(+), 61 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index e9f3a93..50736d8 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -406,36 +406,22 @@ impl KdlDocument {
 
     /// Makes sure this document is in v2 format.
     pub fn ensure_v2(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
         for node in self.nodes_mut().iter_mut() {
             node.ensure_v2();
         }
+        if let Some(format) = &mut self.format {
+            format.ensure_readable(false, shape_v2);
+        }
     }
 
     /// Makes sure this document is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
-
-        // the last node in v1 docs/children has to have a semicolon.
         let mut iter = self.nodes_mut().iter_mut().rev();
         let last = iter.next();
         let penult = iter.next();
         if let Some(last) = last {
-            if let Some(fmt) = last.format_mut() {
-                if !fmt.trailing.contains(';')
-                    && fmt
-                        .trailing
-                        .chars()
-                        .any(|c| crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                {
-                    fmt.terminator = ";".into();
-                }
-            } else {
+            if last.format().is_none() {
                 let maybe_indent = {
                     if let Some(penult) = penult {
                         if let Some(fmt) = penult.format() {
@@ -457,9 +443,47 @@ impl KdlDocument {
         for node in self.nodes_mut().iter_mut() {
             node.ensure_v1();
         }
+        if let Some(format) = &mut self.format {
+            format.ensure_readable(false, shape_v1);
+        }
     }
 }
 
+impl KdlDocumentFormat {
+    /// Drops comments and whitespace that would not be read as such.
+    pub(crate) fn ensure_readable(
+        &mut self,
+        in_block: bool,
+        shape: fn(&str) -> Option<(usize, usize)>,
+    ) {
+        for text in [&mut self.leading, &mut self.trailing] {
+            let readable = if in_block {
+                shape(&format!("a {{{text}}}\n")) == Some((1, 0))
+            } else {
+                shape(text) == Some((0, 0)) && shape(&format!("a\n{text}")) == Some((1, 0))
+            };
+            if !readable {
+                text.clear();
+            }
+        }
+    }
+}
+
+/// How many nodes a v2 text has, and how many entries the first of them.
+pub(crate) fn shape_v2(text: &str) -> Option<(usize, usize)> {
+    let doc = KdlDocument::parse_v2(text).ok()?;
+    let entries = doc.nodes().first().map_or(0, |node| node.entries().len());
+    Some((doc.nodes().len(), entries))
+}
+
+/// How many nodes a v1 text has, and how many entries the first of them.
+#[cfg(feature = "v1")]
+pub(crate) fn shape_v1(text: &str) -> Option<(usize, usize)> {
+    let doc = text.parse::<kdlv1::KdlDocument>().ok()?;
+    let entries = doc.nodes().first().map_or(0, |node| node.entries().len());
+    Some((doc.nodes().len(), entries))
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlDocument> for KdlDocument {
     fn from(value: kdlv1::KdlDocument) -> Self {
diff --git a/src/entry.rs b/src/entry.rs
index 453316b..5c913d3 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -225,6 +225,11 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        self.ty = self.ty.take().map(|ty| ty.value().into());
+        self.name = self.name.take().map(|name| name.value().into());
+        if let Some(format) = &mut self.format {
+            format.ensure_readable(crate::document::shape_v2);
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -271,6 +276,13 @@ impl KdlEntry {
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
             }
         });
+        // Not every text can be carried over: write the value out if it would
+        // not be read as the same one.
+        let value_repr =
+            value_repr.map(|repr| match v2_parser::try_parse(v2_parser::value, &repr) {
+                Ok(Some(entry)) if entry.ty.is_none() && entry.value == self.value => repr,
+                _ => self.value.to_string(),
+            });
 
         if let Some(value_repr) = value_repr.as_ref() {
             self.format = Some(
@@ -292,6 +304,17 @@ impl KdlEntry {
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        self.ty = self.ty.take().map(|ty| ty.to_v1());
+        self.name = self.name.take().map(|name| name.to_v1());
+        if let Some(format) = &mut self.format {
+            // There is no space around `=` and types in v1.
+            format.after_key.clear();
+            format.after_eq.clear();
+            format.before_ty_name.clear();
+            format.after_ty_name.clear();
+            format.after_ty.clear();
+            format.ensure_readable(crate::document::shape_v1);
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -353,6 +376,17 @@ impl KdlEntry {
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
             }
         });
+        // Not every text can be carried over: write the value out if it would
+        // not be read as the same one.
+        let value_repr = value_repr.map(|repr| match repr.parse::<kdlv1::KdlEntry>() {
+            Ok(entry)
+                if entry.name().is_none()
+                    && KdlValue::from(entry.value().clone()) == self.value =>
+            {
+                repr
+            }
+            _ => v1_value_repr(&self.value),
+        });
 
         if let Some(value_repr) = value_repr.as_ref() {
             self.format = Some(
@@ -369,15 +403,8 @@ impl KdlEntry {
                     }),
             )
         } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
-            };
             self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
+                value_repr: v1_value_repr(&self.value),
                 leading: " ".into(),
                 ..Default::default()
             })
@@ -385,6 +412,18 @@ impl KdlEntry {
     }
 }
 
+/// How the value is written in KDL v1.
+#[cfg(feature = "v1")]
+fn v1_value_repr(value: &KdlValue) -> String {
+    match value {
+        KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()).to_string(),
+        KdlValue::Integer(i) => i.to_string(),
+        KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f).to_string(),
+        KdlValue::Bool(b) => b.to_string(),
+        KdlValue::Null => "null".to_string(),
+    }
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlEntry> for KdlEntry {
     fn from(value: kdlv1::KdlEntry) -> Self {
@@ -503,6 +542,18 @@ pub struct KdlEntryFormat {
     pub autoformat_keep: bool,
 }
 
+impl KdlEntryFormat {
+    /// Replaces comments and whitespace that would not be read as such.
+    fn ensure_readable(&mut self, shape: fn(&str) -> Option<(usize, usize)>) {
+        if shape(&format!("a{}1\n", self.leading)) != Some((1, 1)) {
+            self.leading = " ".into();
+        }
+        if shape(&format!("a 1{}\n", self.trailing)) != Some((1, 1)) {
+            self.trailing.clear();
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/identifier.rs b/src/identifier.rs
index 40da7be..1e21a0a 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -113,6 +113,20 @@ impl KdlIdentifier {
         let ret: Result<kdlv1::KdlIdentifier, kdlv1::KdlError> = s.parse();
         ret.map(|x| x.into()).map_err(|e| e.into())
     }
+
+    /// The same identifier, written as in KDL v1.
+    #[cfg(feature = "v1")]
+    pub(crate) fn to_v1(&self) -> Self {
+        let name: Self = kdlv1::KdlIdentifier::from(self.value()).into();
+        match name.to_string().parse::<kdlv1::KdlIdentifier>() {
+            Ok(read) if read.value() == self.value() => name,
+            // Not everything that is taken for a plain identifier is one.
+            _ => Self {
+                repr: Some(kdlv1::KdlValue::String(self.value().into()).to_string()),
+                ..name
+            },
+        }
+    }
 }
 
 #[cfg(feature = "v1")]
diff --git a/src/node.rs b/src/node.rs
index 9648882..80e1a8e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -382,58 +382,97 @@ impl KdlNode {
         }
         self.children = self.children.take().map(|mut doc| {
             doc.ensure_v2();
+            if let Some(format) = &mut doc.format {
+                format.ensure_readable(true, crate::document::shape_v2);
+            }
             doc
         });
+        let has_children = self.children.is_some();
+        if let Some(format) = &mut self.format {
+            format.ensure_readable(has_children, crate::document::shape_v2);
+        }
     }
 
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        self.ty = self.ty.take().map(|ty| ty.to_v1());
+        self.name = self.name.to_v1();
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
         self.children = self.children.take().map(|mut children| {
             children.ensure_v1();
+            // The last node in v1 children has to be terminated, too.
+            if let Some(format) = children
+                .nodes_mut()
+                .last_mut()
+                .and_then(KdlNode::format_mut)
+                && format.terminator.is_empty()
+            {
+                format.terminator = ";".into();
+            }
+            if let Some(format) = &mut children.format {
+                format.ensure_readable(true, crate::document::shape_v1);
+            }
             children
         });
+        let has_children = self.children.is_some();
+        if let Some(format) = &mut self.format {
+            // There is no space around types in v1.
+            format.before_ty_name.clear();
+            format.after_ty_name.clear();
+            format.after_ty.clear();
+            format.ensure_readable(has_children, crate::document::shape_v1);
+        }
     }
 }
 
+/// Splits what follows a v1 node into the space before its terminator, the
+/// terminator, and the rest.
+#[cfg(feature = "v1")]
+fn split_v1_trailing(text: &str) -> (&str, &str, &str) {
+    for (at, _) in text.char_indices() {
+        let (before, rest) = text.split_at(at);
+        let len = if rest.starts_with("//") {
+            // The comment includes its newline.
+            rest.find(NEWLINE_CHARS).map_or(rest.len(), |nl| {
+                nl + newline_len(&rest[nl..]).unwrap_or_default()
+            })
+        } else if rest.starts_with(';') {
+            1
+        } else if let Some(len) = newline_len(rest) {
+            len
+        } else {
+            continue;
+        };
+        // Not within a comment, an escaped line or what is slashdashed.
+        if before.chars().all(|c| c == ' ')
+            || crate::document::shape_v1(&format!("a{before};")) == Some((1, 0))
+        {
+            return (before, &rest[..len], &rest[len..]);
+        }
+    }
+    (text, "", "")
+}
+
+#[cfg(feature = "v1")]
+const NEWLINE_CHARS: [char; 6] = ['\n', '\r', '\u{0C}', '\u{85}', '\u{2028}', '\u{2029}'];
+
+#[cfg(feature = "v1")]
+fn newline_len(text: &str) -> Option<usize> {
+    if text.starts_with("\r\n") {
+        return Some(2);
+    }
+    let first = text.chars().next()?;
+    NEWLINE_CHARS.contains(&first).then(|| first.len_utf8())
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        let (before_terminator, terminator, trailing) =
+            split_v1_trailing(value.trailing().unwrap_or("\n"));
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -445,9 +484,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
@@ -976,6 +1015,36 @@ pub struct KdlNodeFormat {
     pub trailing: String,
 }
 
+impl KdlNodeFormat {
+    /// Replaces comments and whitespace that would not be read as such.
+    fn ensure_readable(&mut self, has_children: bool, shape: fn(&str) -> Option<(usize, usize)>) {
+        let leading = &self.leading;
+        if shape(&format!("{leading}a\n")) != Some((1, 0))
+            || shape(&format!("a\n{leading}a\n")) != Some((2, 0))
+        {
+            self.leading.clear();
+        }
+        if shape(&format!("a{}{{}}\n", self.before_children)) != Some((1, 0)) {
+            self.before_children = " ".into();
+        }
+        let node = if has_children { "a{}" } else { "a" };
+        let end = format!(
+            "{}{}{}",
+            self.before_terminator, self.terminator, self.trailing
+        );
+        let readable = if self.terminator.is_empty() {
+            shape(&format!("{node}{end}")) == Some((1, 0))
+        } else {
+            shape(&format!("{node}{end}a\n")) == Some((2, 0))
+        };
+        if !readable {
+            self.before_terminator.clear();
+            self.terminator = "\n".into();
+            self.trailing.clear();
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index f9bd0a8..17a5207 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -839,7 +839,7 @@ fn node_terminator(input: &mut Input<'_>) -> PResult<()> {
 }
 
 /// `value := type? optional-node-space (string | number | keyword)`
-fn value(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
+pub(crate) fn value(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let ((ty, (value, raw)), _span) = trace(
         "value",
         (
-- 
2.43.0

