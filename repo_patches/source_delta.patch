From d34a9fd7ad1bda8a7ced1fcf26e9304325dfe1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 01/44] fix: keep node type-annotation whitespace and
 post-children whitespace when printing

Parsing recorded (or discarded) this text but Display never wrote it, so
parsed documents did not round-trip: 'a { b; } \nc' printed as 'a { b; }c',
which no longer parses, and comments inside '(/*x*/ty)' were lost.
---
 src/node.rs      | 25 +++++++++++++++++++++++--
 src/v2_parser.rs |  3 +--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..2788d32 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -281,9 +281,14 @@ impl KdlNode {
             terminator,
             trailing,
             before_children,
-            ..
+            before_ty_name,
+            after_ty_name,
+            after_ty,
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -375,6 +380,12 @@ impl KdlNode {
             let v1_name: kdlv1::KdlIdentifier = ty.value().into();
             v1_name.into()
         });
+        // v1 doesn't allow whitespace or comments in type annotations.
+        if let Some(fmt) = self.format_mut() {
+            fmt.before_ty_name.clear();
+            fmt.after_ty_name.clear();
+            fmt.after_ty.clear();
+        }
         let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
         self.name = v1_name.into();
         for entry in self.iter_mut() {
@@ -835,7 +846,17 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            if let Some(KdlNodeFormat {
+                before_ty_name,
+                after_ty_name,
+                after_ty,
+                ..
+            }) = self.format()
+            {
+                write!(f, "({before_ty_name}{ty}{after_ty_name}){after_ty}")?;
+            } else {
+                write!(f, "({ty})")?;
+            }
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..03678ff 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -403,7 +403,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     .parse_next(input)?;
     let (before_terminator, terminator) = if children.is_some() {
         (
-            opt(slashdashed_children).take(),
+            (opt(slashdashed_children), node_space0).take(),
             peek(opt(node_terminator).take()),
         )
             .parse_next(input)?
@@ -414,7 +414,6 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
         )
             .parse_next(input)?
     };
-    node_space0.parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
     let (before_children, children) = children
         .map(|(before_children, children)| (before_children.into(), Some(children)))
-- 
2.43.0


From 654332f72af35bdcf8bd49896ff99eaf5e8d6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 02/44] fix: parse the space before a children block only once

Backtracking over slashdashed children and parsing them a second time made
parsing exponential in their nesting depth (20 nested 'a /-{' took a minute),
and reported the errors inside them twice.
---
 src/v2_parser.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 03678ff..abbcaa6 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -396,28 +396,20 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     )
     .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
     .parse_next(input)?;
-    let children = opt((
-        before_node_children.take(),
-        trace("node children", node_children),
-    ))
-    .parse_next(input)?;
-    let (before_terminator, terminator) = if children.is_some() {
-        (
-            (opt(slashdashed_children), node_space0).take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+    // NOTE: This must only be parsed once. Backtracking over it and parsing it
+    // again makes nested slashdashed children exponentially expensive.
+    let before_children = before_node_children.take().parse_next(input)?;
+    let children = opt(trace("node children", node_children)).parse_next(input)?;
+    let (before_children, before_terminator) = if children.is_some() {
+        let before_terminator = (opt(slashdashed_children), node_space0)
+            .take()
+            .parse_next(input)?;
+        (before_children, before_terminator)
     } else {
-        (
-            before_node_children.take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+        ("", before_children)
     };
+    let terminator = peek(opt(node_terminator).take()).parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
-    let (before_children, children) = children
-        .map(|(before_children, children)| (before_children.into(), Some(children)))
-        .unwrap_or(("".into(), None));
     Ok(KdlNode {
         ty,
         name,
@@ -427,7 +419,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
             before_ty_name: before_inner_ty.into(),
             after_ty_name: after_inner_ty.into(),
             after_ty: after_ty.into(),
-            before_children,
+            before_children: before_children.into(),
             before_terminator: before_terminator.into(),
             terminator: terminator.into(),
             ..Default::default()
-- 
2.43.0


From c2b6102d6c52c0832fdd2f4e88883119ae92e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 03/44] fix: kdl-lsp applies the last content change, and
 survives an empty list

'didChange' with an empty contentChanges array panicked and took the server
down; with several changes only the first, already superseded, was kept.
---
 tools/kdl-lsp/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..d5121ed 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,11 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // We only advertise full-text sync, so every change replaces the text
+        // left by the one before it, and there may be none at all.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0


From 48428a463eb76d5cceb5ae533dab2e3f64b35e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 04/44] fix: kdl-lsp reports positions with the LSP's own line
 endings

ropey also counts VT, FF, NEL, U+2028 and U+2029 as line breaks, the LSP only
counts LF, CRLF and CR, so every diagnostic after one of those characters was
reported on the wrong line.
---
 tools/kdl-lsp/src/main.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index d5121ed..cd53781 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -108,14 +108,19 @@ impl LanguageServer for Backend {
         if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
             let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();
             if let Err(kdl_err) = res {
+                let line_starts = lsp_line_starts(&doc);
                 let diags = kdl_err
                     .diagnostics
                     .into_iter()
                     .map(|diag| {
                         Diagnostic::new(
                             Range::new(
-                                byte_to_position(diag.span.offset(), &doc),
-                                byte_to_position(diag.span.offset() + diag.span.len(), &doc),
+                                byte_to_position(diag.span.offset(), &doc, &line_starts),
+                                byte_to_position(
+                                    diag.span.offset() + diag.span.len(),
+                                    &doc,
+                                    &line_starts,
+                                ),
                             ),
                             diag.severity().map(to_lsp_sev),
                             diag.code().map(|c| NumberOrString::String(c.to_string())),
@@ -162,21 +167,36 @@ impl LanguageServer for Backend {
     // }
 }
 
+/// Char indices of the beginning of each line, as the LSP understands lines.
+///
+/// This can't be left to the rope, because its idea of a line includes line
+/// breaks (such as form feeds and U+2028) that are not line endings in the LSP.
+fn lsp_line_starts(rope: &Rope) -> Vec<usize> {
+    let mut starts = vec![0];
+    let mut chars = rope.chars().enumerate().peekable();
+    while let Some((idx, c)) = chars.next() {
+        if c == '\n' || (c == '\r' && !matches!(chars.peek(), Some((_, '\n')))) {
+            starts.push(idx + 1);
+        }
+    }
+    starts
+}
+
 /// Converts a byte offset to an LSP [`Position`].
 ///
 /// This panics when we feed it a byte index that falls somewhere inside a multi-byte UTF-8 char.
-fn byte_to_position(byte_idx: usize, rope: &Rope) -> Position {
+fn byte_to_position(byte_idx: usize, rope: &Rope, line_starts: &[usize]) -> Position {
     // Clamp the byte position to the end of the buffer. Just in case.
     let byte_idx = byte_idx.min(rope.len_bytes());
-    // Get the correct line for that byte offset
-    let line_idx = rope.byte_to_line(byte_idx);
+    let char_idx = rope.byte_to_char(byte_idx);
+    // Get the correct line for that offset
+    let line_idx = line_starts.partition_point(|start| *start <= char_idx) - 1;
     // Calculate the correct UTF-16 code unit.
     // The LSP doesn't use characters for columns, but instead for some reason they chose to use
     // UTF-16 code units.
     // If not not explicitly handled as such, passing a UTF-8 char column position would result
     // in a shift of one char backwards per prior 4-byte UTF-16 character in the current line.
-    let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
-        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
+    let col_idx = rope.char_to_utf16_cu(char_idx) - rope.char_to_utf16_cu(line_starts[line_idx]);
     Position::new(line_idx as u32, col_idx as u32)
 }
 
-- 
2.43.0


From f82ea657f8ca3e46d83b64714a3f6cc1bcc1933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 05/44] fix: parse block comment bodies in a loop, so long ones
 don't exhaust the stack

---
 src/v2_parser.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index abbcaa6..9546031 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1675,18 +1675,19 @@ fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
 fn commented_block(input: &mut Input<'_>) -> PResult<()> {
-    alt((
+    // This is a loop, not the grammar's recursion, so that long comments can't
+    // exhaust the stack.
+    repeat_till(
+        0..,
+        alt((
+            multi_line_comment,
+            "*".void(),
+            "/".void(),
+            repeat(1.., none_of(['*', '/'])).map(|()| ()),
+        )),
         "*/".void(),
-        preceded(
-            alt((
-                multi_line_comment,
-                "*".void(),
-                "/".void(),
-                repeat(1.., none_of(['*', '/'])).map(|()| ()),
-            )),
-            commented_block,
-        ),
-    ))
+    )
+    .map(|((), ())| ())
     .parse_next(input)
 }
 
-- 
2.43.0


From 9c619f1e5681bb6a061db4ca4adb17817407a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 06/44] fix: print the new value after set_value, value_mut,
 get_mut and indexing

---
 src/entry.rs      | 24 +++++++++++++++++++++---
 src/identifier.rs |  4 +++-
 src/node.rs       |  2 +-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..887fb84 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -71,16 +71,28 @@ impl KdlEntry {
         &self.value
     }
 
-    /// Gets a mutable reference to this entry's value.
+    /// Gets a mutable reference to this entry's value. The value will be
+    /// printed in its default representation from then on.
     pub fn value_mut(&mut self) -> &mut KdlValue {
+        self.clear_value_repr();
         &mut self.value
     }
 
-    /// Sets the entry's value.
+    /// Sets the entry's value. It will be printed in its default
+    /// representation.
     pub fn set_value(&mut self, value: impl Into<KdlValue>) {
+        self.clear_value_repr();
         self.value = value.into();
     }
 
+    /// Forgets the text the current value was written as, because the value
+    /// is about to change.
+    fn clear_value_repr(&mut self) {
+        if let Some(format) = &mut self.format {
+            format.value_repr.clear();
+        }
+    }
+
     /// Gets this entry's span.
     ///
     /// This value will be properly initialized when created via [`crate::KdlDocument::parse`]
@@ -436,7 +448,13 @@ impl Display for KdlEntry {
             ..
         }) = &self.format
         {
-            write!(f, "{after_ty}{value_repr}")?;
+            write!(f, "{after_ty}")?;
+            if value_repr.is_empty() {
+                // No value is written as nothing at all.
+                write!(f, "{}", self.value)?;
+            } else {
+                write!(f, "{value_repr}")?;
+            }
         } else {
             write!(f, "{}", self.value)?;
         }
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..9d011e0 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -35,9 +35,11 @@ impl KdlIdentifier {
         &self.value
     }
 
-    /// Sets the string value for this identifier.
+    /// Sets the string value for this identifier. This resets any custom
+    /// string representation it had.
     pub fn set_value(&mut self, value: impl Into<String>) {
         self.value = value.into();
+        self.repr = None;
     }
 
     /// Gets this identifier's span.
diff --git a/src/node.rs b/src/node.rs
index 2788d32..85b1e8e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -567,7 +567,7 @@ impl KdlNode {
     /// Fetches a mutable referene to an value by key. Number keys will look
     /// up arguments, strings will look up properties.
     pub fn get_mut(&mut self, key: impl Into<NodeKey>) -> Option<&mut KdlValue> {
-        self.entry_mut_impl(key.into()).map(|e| &mut e.value)
+        self.entry_mut_impl(key.into()).map(|e| e.value_mut())
     }
 
     /// Number of entries in this node.
-- 
2.43.0


From 6a0a37019ad6667f1c7b5aa6e628708d793d7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 07/44] fix: quote and escape every string that could not be
 read back

---
 src/value.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..42c86f7 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -154,13 +154,11 @@ impl Display for KdlValue {
 }
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
-    let ident_bytes = ident.as_bytes();
-    ident
-        .find(crate::v2_parser::is_disallowed_ident_char)
-        .is_none()
-        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
-        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
-            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+    !ident.is_empty()
+        && ident
+            .find(crate::v2_parser::is_disallowed_ident_char)
+            .is_none()
+        && !looks_like_number(ident)
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
@@ -169,6 +167,14 @@ pub(crate) fn is_plain_ident(ident: &str) -> bool {
         && ident != "null"
 }
 
+/// Would this start a number, with an optional sign and an optional `.` before
+/// its first digit?
+fn looks_like_number(ident: &str) -> bool {
+    let rest = ident.strip_prefix(['-', '+']).unwrap_or(ident);
+    let rest = rest.strip_prefix('.').unwrap_or(rest);
+    rest.starts_with(|c: char| c.is_ascii_digit())
+}
+
 #[cfg(test)]
 #[test]
 fn plain_ident_test() {
@@ -179,7 +185,7 @@ fn plain_ident_test() {
 impl KdlValue {
     fn write_string(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let string = self.as_string().unwrap();
-        if !string.is_empty() && is_plain_ident(string) {
+        if is_plain_ident(string) {
             write!(f, "{string}")?;
         } else {
             write!(f, "\"")?;
@@ -191,6 +197,15 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // Other newlines and control characters can't be written
+                    // literally in a quoted string.
+                    _ if crate::v2_parser::is_disallowed_unicode(char)
+                        || crate::v2_parser::NEWLINES
+                            .iter()
+                            .any(|nl| nl.contains(char)) =>
+                    {
+                        write!(f, "\\u{{{:X}}}", char as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From d350f0740a6146f8a88cc615d00b1a81ad803d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 08/44] fix: find the property to remove by its name, however
 it is written

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 85b1e8e..9fdd4b0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -711,7 +711,7 @@ impl KdlNode {
         match key {
             NodeKey::Key(key) => {
                 for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
+                    if entry.name.as_ref().map(|i| i.value()) == Some(key.value()) {
                         return Some(self.entries.remove(idx));
                     }
                 }
-- 
2.43.0


From 269bc1f0d17e87bc6b3844d7fc9468882d4a5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 09/44] fix: end a node without formatting details with a
 newline in a document

---
 src/document.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 300f176..36c59ce 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -543,6 +543,9 @@ impl KdlDocument {
         }
         for node in &self.nodes {
             node.stringify(f, indent)?;
+            if node.format().is_none() {
+                writeln!(f)?;
+            }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
             write!(f, "{trailing}")?;
-- 
2.43.0


From 93c0c8c2b6794cb44682adafb72aa98ac218036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 10/44] fix: parse the smallest 128-bit integer in decimal

---
 src/v2_parser.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 9546031..b781b64 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1833,15 +1833,13 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
+    decimal_digits
+        // The sign has to take part, or the smallest integer would overflow.
+        .try_map(|digits| {
+            let sign = if positive { "" } else { "-" };
+            T::from_str_radix(&format!("{sign}{digits}"), 10)
         })
         .parse_next(input)
 }
@@ -1857,6 +1855,12 @@ fn decimal_test() {
 
 /// `integer := digit (digit | '_')*`
 fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    decimal_digits
+        .try_map(|digits| T::from_str_radix(&digits, 10))
+        .parse_next(input)
+}
+
+fn decimal_digits(input: &mut Input<'_>) -> PResult<String> {
     (
         digit1,
         repeat(
@@ -1864,9 +1868,7 @@ fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
             alt(("_", take_while(1.., AsChar::is_dec_digit).take())),
         ),
     )
-        .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
-        })
+        .map(|(l, r): (&str, Vec<&str>)| format!("{l}{}", str::replace(&r.join(""), "_", "")))
         .parse_next(input)
 }
 
-- 
2.43.0


From 88f09b740a9b9c80c235b21f7483cb0c692bbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 11/44] fix: autoformat keeps slashdashed strings that end
 lines with any KDL newline

A leading comment area was split on LF only, so the other newlines of KDL
stayed inside one line and lost their meaning when lines were re-indented.
---
 src/fmt.rs       | 2 +-
 src/v2_parser.rs | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..81c9ee1 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -116,7 +116,7 @@ pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>
     if !config.no_comments {
         let input = leading.trim();
         if !input.is_empty() {
-            for line in input.lines() {
+            for line in input.split(crate::v2_parser::is_newline_char) {
                 let trimmed = line.trim();
                 if !trimmed.is_empty() {
                     for _ in 0..config.indent_level {
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index b781b64..a8c8dbc 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1621,6 +1621,11 @@ pub(crate) static NEWLINES: [&str; 8] = [
     "\u{2029}",
 ];
 
+/// Does `c` end a line, alone or as a part of a longer newline?
+pub(crate) fn is_newline_char(c: char) -> bool {
+    NEWLINES.iter().any(|nl| nl.contains(c))
+}
+
 /// `newline := <See Table>`
 fn newline(input: &mut Input<'_>) -> PResult<()> {
     alt(NEWLINES)
-- 
2.43.0


From 33f4d1d8eed2890ac99860e59252315c8c6ee1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 12/44] fix: autoformat leaves a byte order mark at the very
 start

---
 src/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 36c59ce..75787f3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -252,7 +252,15 @@ impl KdlDocument {
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
+            // A byte order mark has to stay at the very start.
+            let bom = !config.no_comments && leading.starts_with('\u{feff}');
+            if bom {
+                leading.remove(0);
+            }
             crate::fmt::autoformat_leading(leading, config);
+            if bom {
+                leading.insert(0, '\u{feff}');
+            }
         }
         let mut has_nodes = false;
         for node in &mut self.nodes {
-- 
2.43.0


From cdb77b93bfbcce9c2a5852998eca0ff558cebfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 13/44] fix: autoformat ends a comment behind a node's
 terminator with a newline

---
 src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 9fdd4b0..ad06bd5 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -300,6 +300,8 @@ impl KdlNode {
                 && !c.is_whitespace()
             {
                 trailing.insert(0, ' ');
+                // A comment must not run on into whatever comes next.
+                trailing.push('\n');
             }
 
             *before_children = " ".into();
-- 
2.43.0


From 209ae13a7cfdae280e57ab7032dbdc1c05986d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 14/44] fix: kdl-lsp answers and ends although its log messages
 are never taken

---
 tools/kdl-lsp/src/main.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index cd53781..ae38187 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -19,6 +19,15 @@ impl Backend {
         let rope = ropey::Rope::from_str(text);
         self.document_map.insert(uri.to_string(), rope.clone());
     }
+
+    /// Logs a message to the client without waiting for the client to take it.
+    ///
+    /// A handler that waits for this never finishes when the input ends first,
+    /// because from then on nothing is sent to the client but responses.
+    fn log(&self, message: &'static str) {
+        let client = self.client.clone();
+        tokio::spawn(async move { client.log_message(MessageType::INFO, message).await });
+    }
 }
 
 #[tower_lsp::async_trait]
@@ -64,15 +73,11 @@ impl LanguageServer for Backend {
     }
 
     async fn initialized(&self, _: InitializedParams) {
-        self.client
-            .log_message(MessageType::INFO, "server initialized!")
-            .await;
+        self.log("server initialized!");
     }
 
     async fn shutdown(&self) -> Result<()> {
-        self.client
-            .log_message(MessageType::INFO, "server shutting down")
-            .await;
+        self.log("server shutting down");
         Ok(())
     }
 
-- 
2.43.0


From c1e3341dbf1e1229ab9ec51339c7692ddeaefcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 15/44] fix: serde reads a tuple back from a whole document

---
 src/de.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..eaacc06 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -593,6 +593,23 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         })
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         if self.doc.nodes().is_empty() {
             visitor.visit_none()
@@ -648,8 +665,8 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         i64 i128 u8 u16
         u32 u64 u128 f32
         f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        bytes byte_buf
+        identifier ignored_any
     }
 }
 
-- 
2.43.0


From 71e281644cb9677ae1c9437f4984733f7256b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 16/44] fix: serde reads omitted unit and newtype fields back

---
 src/de.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index eaacc06..8e9259a 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1370,9 +1370,38 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_unit_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From 7b23acb745b641f9cff8348b84badc6adb5cec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 17/44] fix: serde writes the false and null entries of a
 nested map

---
 src/se.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..75cf6fd 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -774,17 +774,8 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        let mut child_ser = NodeValueSerializer { node: &mut child };
-        value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
-        }
+        serialize_value_into_node(&mut child, value)?;
+        self.node.ensure_children().nodes_mut().push(child);
         Ok(())
     }
 
-- 
2.43.0


From 2cc580e32c29dcbf8813a3fba3d1ee0c2c54c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 18/44] fix: serde leaves a field out by its value, not by its
 node's first argument

---
 src/se.rs | 74 +++++++++++++++++++++++++------------------------------
 1 file changed, 33 insertions(+), 41 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 75cf6fd..a94905e 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -396,14 +396,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
         value: &T,
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
-        serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if !serialize_field_into_node(&mut node, value)? {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -452,16 +446,10 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
             node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
+            let omit = serialize_field_into_node(&mut child, value)?;
             let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !omit {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -481,16 +469,30 @@ fn serialize_value_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
     value: &T,
 ) -> Result<(), Error> {
-    let mut ser = NodeValueSerializer { node };
-    value.serialize(&mut ser)
+    serialize_field_into_node(node, value).map(|_| ())
+}
+
+/// Like [`serialize_value_into_node`], and tells whether the value is one that
+/// a struct's field leaves out: `false`, `None` and the unit.
+fn serialize_field_into_node<T: ?Sized + Serialize>(
+    node: &mut KdlNode,
+    value: &T,
+) -> Result<bool, Error> {
+    let mut ser = NodeValueSerializer { node, omit: false };
+    value.serialize(&mut ser)?;
+    Ok(ser.omit)
 }
 
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
+    /// Whether a field with this value is left out. It goes by the value
+    /// itself, not by the node's first argument, which may as well be the
+    /// first element of a sequence, or what `Some` holds.
+    omit: bool,
 }
 
-impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
+impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'_> {
     type Ok = ();
     type Error = Error;
 
@@ -504,6 +506,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
         self.node.entries_mut().push(KdlEntry::new(v));
+        self.omit = !v;
         Ok(())
     }
 
@@ -569,16 +572,18 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
+        self.serialize_unit()
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        value.serialize(&mut *self)?;
+        self.omit = false;
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
+        self.omit = true;
         Ok(())
     }
 
@@ -812,16 +817,10 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
             self.node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
+            let omit = serialize_field_into_node(&mut child, value)?;
             let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !omit {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -866,15 +865,8 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
             let kdl_val = to_kdl_value(value)?;
             self.parent.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
-            let mut child_ser = NodeValueSerializer { node: &mut node };
-            value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
+            if !serialize_field_into_node(&mut node, value)? {
+                self.children.nodes_mut().push(node);
             }
         }
         Ok(())
-- 
2.43.0


From e3e57a58a8b0d76e989f7bea4feea285727d86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 19/44] fix: serde writes the fields of a struct variant that
 is the whole document

---
 src/se.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index a94905e..e1190ab 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -287,10 +287,11 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
+        let mut node = KdlNode::new(variant);
+        node.ensure_children();
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
+            node,
             used_indices: Default::default(),
         })
     }
@@ -409,9 +410,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
+    node: KdlNode,
     used_indices: HashSet<usize>,
-    children: KdlDocument,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -423,17 +423,17 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
+        let node = &mut self.node;
         if let Some(attr_name) = key.strip_prefix("#@") {
             let kdl_val = to_kdl_value(value)?;
             node.entries_mut()
                 .push(KdlEntry::new_prop(attr_name, kdl_val));
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node };
             value.serialize(&mut ser)?;
         } else if key == "#rest" {
             let mut ser = RestSerializer {
-                node: &mut node,
+                node,
                 used_indices: &self.used_indices,
             };
             value.serialize(&mut ser)?;
@@ -446,19 +446,15 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
             node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let omit = serialize_field_into_node(&mut child, value)?;
-            let children = node.ensure_children();
-            if !omit {
-                children.nodes_mut().push(child);
+            if !serialize_field_into_node(&mut child, value)? {
+                node.ensure_children().nodes_mut().push(child);
             }
         }
         Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
+        self.parent_nodes.push(self.node);
         Ok(())
     }
 }
-- 
2.43.0


From d70455b746b0cc51e05a0ebf3b234af556276733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 20/44] fix: serde reads a tuple variant that is the whole
 document

---
 src/de.rs | 88 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/de.rs b/src/de.rs
index 8e9259a..e5d978f 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -652,6 +652,17 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
                 node: &nodes[0],
                 input: self.input,
             })
+        } else if let Some((first, rest)) = nodes.split_first()
+            && rest
+                .iter()
+                .all(|node| node.name().value() == first.name().value())
+        {
+            // A tuple variant: one node per element, each named after the
+            // variant.
+            visitor.visit_enum(NodeGroupEnumAccess {
+                nodes,
+                input: self.input,
+            })
         } else {
             Err(Error::new(
                 "expected exactly one node for enum deserialization",
@@ -1490,6 +1501,83 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
     }
 }
 
+/// Several nodes that share one name, the variant's.
+struct NodeGroupEnumAccess<'a> {
+    nodes: &'a [KdlNode],
+    input: &'a Arc<String>,
+}
+
+impl<'de, 'a> de::EnumAccess<'de> for NodeGroupEnumAccess<'a> {
+    type Error = Error;
+    type Variant = NodeGroupVariantAccess<'a>;
+
+    fn variant_seed<V: DeserializeSeed<'de>>(
+        self,
+        seed: V,
+    ) -> Result<(V::Value, Self::Variant), Self::Error> {
+        let (val, _) = NodeEnumAccess {
+            node: &self.nodes[0],
+            input: self.input,
+        }
+        .variant_seed(seed)?;
+        Ok((
+            val,
+            NodeGroupVariantAccess {
+                nodes: self.nodes,
+                input: self.input,
+            },
+        ))
+    }
+}
+
+struct NodeGroupVariantAccess<'a> {
+    nodes: &'a [KdlNode],
+    input: &'a Arc<String>,
+}
+
+impl<'a> NodeGroupVariantAccess<'a> {
+    fn not_one_node<T>(self) -> Result<T, Error> {
+        Err(Error::new(
+            "expected exactly one node for enum deserialization",
+        ))
+        .map_err(|err| err.with_input(self.input))
+    }
+}
+
+impl<'de, 'a> de::VariantAccess<'de> for NodeGroupVariantAccess<'a> {
+    type Error = Error;
+
+    fn unit_variant(self) -> Result<(), Self::Error> {
+        self.not_one_node()
+    }
+
+    fn newtype_variant_seed<T: DeserializeSeed<'de>>(
+        self,
+        _seed: T,
+    ) -> Result<T::Value, Self::Error> {
+        self.not_one_node()
+    }
+
+    fn tuple_variant<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_seq(NodeListSeqAccess {
+            iter: self.nodes.iter(),
+            input: self.input,
+        })
+    }
+
+    fn struct_variant<V: Visitor<'de>>(
+        self,
+        _fields: &'static [&'static str],
+        _visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.not_one_node()
+    }
+}
+
 struct PropertyEnumAccess<'a> {
     key: &'a str,
     entry: &'a KdlEntry,
-- 
2.43.0


From 2f19746f36ee1b5d5972ea9fca44094f1d96d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 21/44] fix: nested slashdashed nodes take time linear in their
 depth, not exponential

---
 src/v2_parser.rs | 66 ++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index a8c8dbc..c4ac8a8 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,32 +280,37 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let mut before = before_node.parse_next(input)?;
     let _start = input.checkpoint();
-    let mut ns: Vec<KdlNode> = separated(
-        0..,
-        node,
-        alt((node_terminator.void(), (eof.void(), any.void()).void())),
-    )
-    .parse_next(input)?;
-    let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let mut _span = span_from_checkpoint(input, &_start);
+    let mut ns: Vec<KdlNode> = vec![];
+    // NOTE: Whatever comes before a node must only be parsed once, whether or
+    // not a node follows it. Backtracking over it and parsing it again makes
+    // nested slashdashed nodes exponentially expensive.
+    let trailing = loop {
+        let Some(mut nd) = opt(base_node).parse_next(input)? else {
+            break before;
+        };
+        if let Some(fmt) = nd.format_mut() {
+            fmt.leading = before.into();
+        }
+        ns.push(nd);
+        _span = span_from_checkpoint(input, &_start);
+        let terminator = opt(node_terminator).parse_next(input)?;
+        before = before_node.parse_next(input)?;
+        if terminator.is_none() {
+            break before;
+        }
+    };
 
-    // If there is a node, let it have the leading format
-    // This gives more consistent behavior
-    if let Some(first_node) = ns.get_mut(0)
-        && let Some(first_node_format) = first_node.format_mut()
-    {
-        first_node_format.leading = leading.into();
-        leading = "";
-    }
+    let (leading, trailing) = if ns.is_empty() {
+        opt(node_terminator).parse_next(input)?;
+        (trailing, before_node.parse_next(input)?)
+    } else {
+        // If there is a node, it has the leading format
+        // This gives more consistent behavior
+        ("", trailing)
+    };
 
     Ok(KdlDocument {
         nodes: ns,
@@ -318,6 +323,14 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     })
 }
 
+/// Line spaces and slashdashed nodes, before a node or after the last one.
+fn before_node<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
+    repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+        .map(|()| ())
+        .take()
+        .parse_next(input)
+}
+
 /// base-node := slashdash? type? node-space* string
 ///      (node-space+ slashdash? node-prop-or-arg)*
 ///      (node-space+ slashdash node-children)*
@@ -327,10 +340,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let leading = before_node.parse_next(input)?;
     let mut nd = base_node.parse_next(input)?;
     if let Some(fmt) = nd.format_mut() {
         fmt.leading = leading.into();
-- 
2.43.0


From bd32ec4c6e1a5f246541992c6ecb67d2d7604c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 22/44] fix: formatting twice equals formatting once with
 carriage returns in a comment

---
 src/fmt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 81c9ee1..961c253 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -143,8 +143,9 @@ pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
         if decor.trim_start() == &decor[..] {
             write!(result, " ").unwrap();
         }
-        for comment in decor.lines() {
-            writeln!(result, "{comment}").unwrap();
+        for comment in decor.split('\n') {
+            // All of them: if one were left, formatting again would take it away.
+            writeln!(result, "{}", comment.trim_end_matches('\r')).unwrap();
         }
     }
     *decor = result;
-- 
2.43.0


From f753e4551806cd0693aceae68c0efb55730ae12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 23/44] fix: an entry marked to keep its format keeps it
 through every reformatting

---
 src/entry.rs | 1 +
 src/node.rs  | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 887fb84..369e4e5 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -198,6 +198,7 @@ impl KdlEntry {
             self.format = self.format.take().map(|f| KdlEntryFormat {
                 value_repr: f.value_repr,
                 leading: f.leading,
+                autoformat_keep: true,
                 ..Default::default()
             });
         }
diff --git a/src/node.rs b/src/node.rs
index ad06bd5..8cfac8e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -316,10 +316,15 @@ impl KdlNode {
             ty.clear_format()
         }
         for entry in &mut self.entries {
+            let kept = entry.format().is_some_and(|f| f.autoformat_keep);
             if config.entry_autoformate_keep {
                 entry.keep_format();
             }
             entry.autoformat();
+            // The configuration is about this time only.
+            if let Some(format) = entry.format_mut() {
+                format.autoformat_keep = kept;
+            }
         }
         if let Some(children) = self.children.as_mut() {
             children.autoformat_config(&FormatConfig {
-- 
2.43.0


From 7db50a3314a47da791484d5e9c49ac7033b27b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 24/44] fix: formatting indents the start of a document once,
 and comments in an otherwise empty block

---
 src/document.rs | 2 ++
 src/node.rs     | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 75787f3..d60fa14 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -258,6 +258,8 @@ impl KdlDocument {
                 leading.remove(0);
             }
             crate::fmt::autoformat_leading(leading, config);
+            // The nodes bring their own indentation.
+            leading.truncate(leading.len() - config.indent.len() * config.indent_level);
             if bom {
                 leading.insert(0, '\u{feff}');
             }
diff --git a/src/node.rs b/src/node.rs
index 8cfac8e..977fca1 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -332,8 +332,7 @@ impl KdlNode {
                 ..*config
             });
             if let Some(KdlDocumentFormat { leading, trailing }) = children.format_mut() {
-                *leading = leading.trim().into();
-                leading.push('\n');
+                leading.insert(0, '\n');
                 for _ in 0..config.indent_level {
                     trailing.push_str(config.indent);
                 }
-- 
2.43.0


From 37f64d0255b24562b1d86cce92e3b91054ea11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 25/44] fix: nodes and children blocks without a format of
 their own are formatted like others

---
 src/node.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 977fca1..a142624 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -275,6 +275,9 @@ impl KdlNode {
 
     /// Auto-formats this node and its contents according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
+        if self.format.is_none() {
+            self.set_format(Default::default());
+        }
         if let Some(KdlNodeFormat {
             leading,
             before_terminator,
@@ -305,11 +308,6 @@ impl KdlNode {
             }
 
             *before_children = " ".into();
-        } else {
-            self.set_format(KdlNodeFormat {
-                terminator: "\n".into(),
-                ..Default::default()
-            })
         }
         self.name.clear_format();
         if let Some(ty) = self.ty.as_mut() {
@@ -327,6 +325,9 @@ impl KdlNode {
             }
         }
         if let Some(children) = self.children.as_mut() {
+            if children.format().is_none() && !children.nodes().is_empty() {
+                children.set_format(Default::default());
+            }
             children.autoformat_config(&FormatConfig {
                 indent_level: config.indent_level + 1,
                 ..*config
-- 
2.43.0


From 719584f4e4063fd68b4fa765713a467a0b8ffdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 26/44] fix: formatting keeps a comment that ends a node's line

---
 src/node.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index a142624..56c10bf 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -293,12 +293,18 @@ impl KdlNode {
             after_ty_name.clear();
             after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
-            crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
+            if terminator.starts_with("//") && !config.no_comments {
+                // The line ends in a comment.
+                *before_terminator = format!(" {}", before_terminator.trim_start());
+                *terminator = format!("{}\n", terminator.trim_end());
+            } else {
+                crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
+                if !terminator.starts_with('\n') {
+                    *terminator = "\n".into();
+                }
+            }
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
             *trailing = trailing.trim().into();
-            if !terminator.starts_with('\n') {
-                *terminator = "\n".into();
-            }
             if let Some(c) = trailing.chars().next()
                 && !c.is_whitespace()
             {
-- 
2.43.0


From f78864a754d4938354fb1359a8dfad8735ad85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 27/44] fix: formatting keeps comments between the entries and
 before the children of a node

---
 src/fmt.rs  |  6 ++++++
 src/node.rs | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 961c253..08fc0bc 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -151,6 +151,12 @@ pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
     *decor = result;
 }
 
+/// What to leave between two parts of a node, if there is anything in there but whitespace.
+pub(crate) fn autoformat_between(decor: &str, no_comments: bool) -> Option<String> {
+    let blank = decor.chars().all(|c| c.is_whitespace() || c == '\\');
+    (!no_comments && !blank).then(|| format!(" {}", decor.trim_start()))
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/node.rs b/src/node.rs
index 56c10bf..59dd175 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -10,8 +10,8 @@ use std::{
 use miette::SourceSpan;
 
 use crate::{
-    FormatConfig, KdlDocument, KdlDocumentFormat, KdlEntry, KdlError, KdlIdentifier, KdlValue,
-    v2_parser,
+    FormatConfig, KdlDocument, KdlDocumentFormat, KdlEntry, KdlEntryFormat, KdlError,
+    KdlIdentifier, KdlValue, v2_parser,
 };
 
 /// Represents an individual KDL
@@ -313,7 +313,8 @@ impl KdlNode {
                 trailing.push('\n');
             }
 
-            *before_children = " ".into();
+            *before_children = crate::fmt::autoformat_between(before_children, config.no_comments)
+                .unwrap_or_else(|| " ".into());
         }
         self.name.clear_format();
         if let Some(ty) = self.ty.as_mut() {
@@ -324,7 +325,16 @@ impl KdlNode {
             if config.entry_autoformate_keep {
                 entry.keep_format();
             }
+            let leading = entry
+                .format()
+                .and_then(|f| crate::fmt::autoformat_between(&f.leading, config.no_comments));
             entry.autoformat();
+            if let (Some(leading), None) = (leading, entry.format()) {
+                entry.set_format(KdlEntryFormat {
+                    leading,
+                    ..Default::default()
+                });
+            }
             // The configuration is about this time only.
             if let Some(format) = entry.format_mut() {
                 format.autoformat_keep = kept;
-- 
2.43.0


From 3941b1057d1b9e01bf44362c9b003efc951df5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 28/44] fix: a comment that ends a KDL 1 node doesn't swallow
 the next one

The terminator of a node that came from a KDL 1 document was guessed from
whether there was a `;` or a newline anywhere in the text behind it, and
the rest of that text was changed to fit. `node // c` lost the newline that
ends the comment, and with it the next node.
---
 src/fmt.rs  | 22 +++++++++++++
 src/node.rs | 94 +++++++++++++++++++++++++++++++++++++----------------
 2 files changed, 88 insertions(+), 28 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 08fc0bc..fc4650a 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -157,6 +157,28 @@ pub(crate) fn autoformat_between(decor: &str, no_comments: bool) -> Option<Strin
     (!no_comments && !blank).then(|| format!(" {}", decor.trim_start()))
 }
 
+/// How much of `text` the block comment at its beginning takes up.
+#[cfg(feature = "v1")]
+pub(crate) fn block_comment_len(text: &str) -> usize {
+    let mut open = 0;
+    let mut len = 0;
+    while let Some(c) = text[len..].chars().next() {
+        if text[len..].starts_with("/*") {
+            open += 1;
+            len += 2;
+        } else if text[len..].starts_with("*/") {
+            open -= 1;
+            len += 2;
+        } else {
+            len += c.len_utf8();
+        }
+        if open == 0 {
+            break;
+        }
+    }
+    len
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/node.rs b/src/node.rs
index 59dd175..bae6e77 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -424,32 +424,14 @@ impl KdlNode {
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        let (before_terminator, terminator, trailing) =
+            split_v1_trailing(value.trailing().unwrap_or(""));
+        // A node at the very end of a v1 document doesn't need one.
+        let terminator = if terminator.is_empty() {
+            "\n"
+        } else {
+            terminator
+        };
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -461,9 +443,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
@@ -471,6 +453,62 @@ impl From<kdlv1::KdlNode> for KdlNode {
     }
 }
 
+/// Splits what follows a node in a v1 document into what comes before its
+/// terminator, the terminator itself, and the rest.
+#[cfg(feature = "v1")]
+fn split_v1_trailing(text: &str) -> (&str, &str, &str) {
+    fn newline(s: &str) -> Option<usize> {
+        v2_parser::NEWLINES
+            .iter()
+            .find(|nl| s.starts_with(**nl))
+            .map(|nl| nl.len())
+    }
+    // Up to and including the end of the line.
+    fn line(s: &str) -> usize {
+        let end = s.find(v2_parser::is_newline_char).unwrap_or(s.len());
+        end + newline(&s[end..]).unwrap_or(0)
+    }
+    let mut at = 0;
+    // Slashdashed children.
+    let mut depth = 0;
+    while let Some(c) = text[at..].chars().next() {
+        let rest = &text[at..];
+        let raw = rest.strip_prefix('r').map(|s| s.trim_start_matches('#'));
+        at += if rest.starts_with("/*") {
+            crate::fmt::block_comment_len(rest)
+        } else if c == '"' {
+            let mut escaped = false;
+            let end = rest[1..].find(|c| {
+                let end = c == '"' && !escaped;
+                escaped = c == '\\' && !escaped;
+                end
+            });
+            end.map_or(rest.len(), |i| i + 2)
+        } else if let Some(body) = raw.and_then(|s| s.strip_prefix('"')) {
+            let hashes = rest.len() - body.len() - 2;
+            let close = format!("\"{}", "#".repeat(hashes));
+            let end = body.find(&close).map_or(body.len(), |i| i + close.len());
+            rest.len() - body.len() + end
+        } else if c == '\\' || depth > 0 && rest.starts_with("//") {
+            line(rest)
+        } else if depth == 0 && rest.starts_with("//") {
+            let (terminator, trailing) = rest.split_at(line(rest));
+            return (&text[..at], terminator, trailing);
+        } else if depth == 0 && (c == ';' || newline(rest).is_some()) {
+            let (terminator, trailing) = rest.split_at(newline(rest).unwrap_or(1));
+            return (&text[..at], terminator, trailing);
+        } else {
+            match c {
+                '{' => depth += 1,
+                '}' => depth -= 1,
+                _ => {}
+            }
+            c.len_utf8()
+        };
+    }
+    (text, "", "")
+}
+
 // Query language
 // impl KdlNode {
 // /// Queries this Node according to the KQL
-- 
2.43.0


From 76b97aca2fd951a3f8d3106724eab702f487de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 29/44] fix: formatting an entry formats its type

---
 src/entry.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 369e4e5..3cbb628 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -203,6 +203,9 @@ impl KdlEntry {
             });
         }
 
+        if let Some(ty) = &mut self.ty {
+            ty.autoformat();
+        }
         if let Some(name) = &mut self.name {
             name.autoformat();
         }
-- 
2.43.0


From e4aa3e2e63d9be9bee5fdc36eb4b29580de46b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 30/44] fix: what becomes KDL 2 says what it said before

The text of values is converted by guessing, so make sure that it reads
back as the value. Types and the names of properties need to be converted,
too, and KDL 1 has characters in whitespace and comments which KDL 2 doesn't
allow there.
---
 src/document.rs |  9 +++++++++
 src/entry.rs    | 18 ++++++++++++++++++
 src/fmt.rs      |  8 ++++++++
 src/node.rs     | 11 +++++++++++
 4 files changed, 46 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index d60fa14..aa355e5 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -413,6 +413,15 @@ impl KdlDocument {
         // No need to touch KdlDocumentFormat, probably. In the longer term,
         // we'll want to make sure to parse out whitespace and comments and make
         // sure they're actually compliant, but this is good enough for now.
+        if let Some(fmt) = self.format_mut() {
+            // A byte order mark can stay where it is.
+            let bom = fmt.leading.starts_with('\u{feff}');
+            crate::fmt::v2_space(&mut fmt.leading);
+            if bom {
+                fmt.leading.replace_range(..1, "\u{feff}");
+            }
+            crate::fmt::v2_space(&mut fmt.trailing);
+        }
         for node in self.nodes_mut().iter_mut() {
             node.ensure_v2();
         }
diff --git a/src/entry.rs b/src/entry.rs
index 3cbb628..2d6d834 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -238,6 +238,11 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        self.ty = self.ty.take().map(|ty| ty.value().into());
+        self.name = self.name.take().map(|name| name.value().into());
+        if let Some(fmt) = self.format_mut() {
+            crate::fmt::v2_space(&mut fmt.leading);
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -284,6 +289,19 @@ impl KdlEntry {
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
             }
         });
+        // What the text of a value becomes above is a guess. Comparing them as
+        // text tells `#nan` from `0.0`, and the like.
+        let value_repr = value_repr.map(|repr| {
+            match v2_parser::try_parse(v2_parser::padded_node_entry, &repr) {
+                Ok(entry)
+                    if entry.name.is_none()
+                        && entry.value.to_string() == self.value.to_string() =>
+                {
+                    repr
+                }
+                _ => self.value.to_string(),
+            }
+        });
 
         if let Some(value_repr) = value_repr.as_ref() {
             self.format = Some(
diff --git a/src/fmt.rs b/src/fmt.rs
index fc4650a..bf8123f 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -157,6 +157,14 @@ pub(crate) fn autoformat_between(decor: &str, no_comments: bool) -> Option<Strin
     (!no_comments && !blank).then(|| format!(" {}", decor.trim_start()))
 }
 
+/// Makes whitespace and comments fit for v2, where some characters have no place
+/// outside of strings. v1 doesn't mind them.
+pub(crate) fn v2_space(text: &mut String) {
+    if text.contains(crate::v2_parser::is_disallowed_unicode) {
+        *text = text.replace(crate::v2_parser::is_disallowed_unicode, " ");
+    }
+}
+
 /// How much of `text` the block comment at its beginning takes up.
 #[cfg(feature = "v1")]
 pub(crate) fn block_comment_len(text: &str) -> usize {
diff --git a/src/node.rs b/src/node.rs
index bae6e77..c28d87d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -387,6 +387,17 @@ impl KdlNode {
         self.ty = self.ty.take().map(|ty| ty.value().into());
         let v2_name: KdlIdentifier = self.name.value().into();
         self.name = v2_name;
+        if let Some(fmt) = self.format_mut() {
+            for text in [
+                &mut fmt.leading,
+                &mut fmt.before_children,
+                &mut fmt.before_terminator,
+                &mut fmt.terminator,
+                &mut fmt.trailing,
+            ] {
+                crate::fmt::v2_space(text);
+            }
+        }
         for entry in self.iter_mut() {
             entry.ensure_v2();
         }
-- 
2.43.0


From df848ae589019a0a6d135eecbc18403b85c296a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 31/44] fix: what becomes KDL 1 says what it said before

Multi-line strings, escapes that only KDL 2 has, quoted types and names,
space around `=`, big integers, vertical tabs, line continuations between
nodes, and last nodes without a terminator either couldn't be read as KDL 1
afterwards, or were read as something else.
---
 src/document.rs   |  12 ++---
 src/entry.rs      | 118 ++++++++++++++++++++++------------------------
 src/fmt.rs        |  27 +++++++++++
 src/identifier.rs |  16 +++++++
 src/node.rs       |  13 ++---
 5 files changed, 113 insertions(+), 73 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index aa355e5..dddebff 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -434,18 +434,18 @@ impl KdlDocument {
         // we'll want to make sure to parse out whitespace and comments and make
         // sure they're actually compliant, but this is good enough for now.
 
+        if let Some(fmt) = self.format_mut() {
+            crate::fmt::v1_space(&mut fmt.leading, false);
+            crate::fmt::v1_space(&mut fmt.trailing, false);
+        }
+
         // the last node in v1 docs/children has to have a semicolon.
         let mut iter = self.nodes_mut().iter_mut().rev();
         let last = iter.next();
         let penult = iter.next();
         if let Some(last) = last {
             if let Some(fmt) = last.format_mut() {
-                if !fmt.trailing.contains(';')
-                    && fmt
-                        .trailing
-                        .chars()
-                        .any(|c| crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                {
+                if fmt.terminator.is_empty() {
                     fmt.terminator = ";".into();
                 }
             } else {
diff --git a/src/entry.rs b/src/entry.rs
index 2d6d834..c6172e3 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -323,63 +323,43 @@ impl KdlEntry {
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        self.ty = self.ty.take().map(|ty| KdlIdentifier::v1(ty.value()));
+        self.name = self.name.take().map(|name| KdlIdentifier::v1(name.value()));
+        // v1 doesn't allow whitespace or comments in type annotations, or
+        // around the `=` of a property.
+        if let Some(fmt) = self.format_mut() {
+            fmt.before_ty_name.clear();
+            fmt.after_ty_name.clear();
+            fmt.after_ty.clear();
+            fmt.after_key.clear();
+            fmt.after_eq.clear();
+            crate::fmt::v1_space(&mut fmt.leading, true);
+        }
+        let v1_value = match &self.value {
+            KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()).to_string(),
+            KdlValue::Integer(i) => i.to_string(),
+            KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f).to_string(),
+            KdlValue::Bool(b) => b.to_string(),
+            KdlValue::Null => "null".to_string(),
+        };
         let value_repr = self.format.as_ref().map(|x| {
+            // cleanup. I don't _think_ this should have any whitespace,
+            // but just in case.
+            let s = x.value_repr.trim();
             match &self.value {
-                KdlValue::String(val) => {
-                    // cleanup. I don't _think_ this should have any whitespace,
-                    // but just in case.
-                    let s = x.value_repr.trim();
-                    // convert raw strings to v1 format
-                    let s = if s.starts_with('#') {
-                        format!("r{s}")
-                    } else {
-                        s.to_string()
-                    };
-
-                    if crate::value::is_plain_ident(val)
-                        && !s.starts_with('\"')
-                        && !s.starts_with("r#")
-                    {
-                        format!("\"{val}\"")
-                    } else if s
-                        .find(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                        .is_some()
-                    {
-                        // Multiline string. Let's make sure it's v1.
-                        if s.contains("\"\"\"") {
-                            let prefix = s
-                                .chars()
-                                .rev()
-                                .skip_while(|c| c == &'"')
-                                .take_while(|c| {
-                                    v2_parser::NEWLINES.iter().any(|nl| nl.contains(*c))
-                                })
-                                .collect::<String>();
-                            let prefix = prefix.chars().rev().collect::<String>();
-                            // Sigh. Yeah. I didn't promise this would be _efficient_.
-                            let mut s = s;
-                            for nl in v2_parser::NEWLINES {
-                                s = s.replace(&format!("{nl}{prefix}"), nl);
-                            }
-                            // And now we strips the beginning and ending newlines.
-                            // Finally, replace `"""` with `"`.
-                            s
-                        } else {
-                            // It's already a v1 string
-                            s
-                        }
-                    } else if !s.starts_with("r#") {
-                        // `/` is an escaped char in v2
-                        let s = s.replace("\\/", "/"); // Maneuvering. Will fix in a sec.
-                        s.replace('/', "\\/")
-                    } else {
-                        // We're all good! Let's move on.
-                        s.to_string()
-                    }
+                // It's already a v1 raw string.
+                KdlValue::String(_) if s.starts_with("r#") || s.starts_with("r\"") => s.to_string(),
+                // Convert raw strings to v1 format.
+                KdlValue::String(_)
+                    if s.starts_with('#') && !s.contains(v2_parser::is_newline_char) =>
+                {
+                    format!("r{s}")
                 }
+                KdlValue::String(_) => v1_quoted_string(s).unwrap_or_else(|| v1_value.clone()),
                 // No more # prefix for these
-                KdlValue::Bool(b) => b.to_string(),
-                KdlValue::Null => "null".to_string(),
+                KdlValue::Bool(_) | KdlValue::Null => v1_value.clone(),
+                // No text at all means the default one.
+                KdlValue::Integer(_) | KdlValue::Float(_) if s.is_empty() => v1_value.clone(),
                 // These should be fine as-is?
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
             }
@@ -400,15 +380,8 @@ impl KdlEntry {
                     }),
             )
         } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
-            };
             self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
+                value_repr: v1_value,
                 leading: " ".into(),
                 ..Default::default()
             })
@@ -416,6 +389,29 @@ impl KdlEntry {
     }
 }
 
+/// The v1 text of a quoted string, if it can stay as it is apart from `/`, which
+/// v1 escapes.
+#[cfg(feature = "v1")]
+fn v1_quoted_string(s: &str) -> Option<String> {
+    if !s.starts_with('"') || s.starts_with("\"\"\"") {
+        return None;
+    }
+    let mut out = String::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '/' => out.push_str("\\/"),
+            '\\' => match chars.next()? {
+                c @ ('"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u') => out.extend(['\\', c]),
+                // Only v2 has others.
+                _ => return None,
+            },
+            _ => out.push(c),
+        }
+    }
+    Some(out)
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlEntry> for KdlEntry {
     fn from(value: kdlv1::KdlEntry) -> Self {
diff --git a/src/fmt.rs b/src/fmt.rs
index bf8123f..111c980 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -165,6 +165,33 @@ pub(crate) fn v2_space(text: &mut String) {
     }
 }
 
+/// Makes whitespace and comments fit for v1, which doesn't know vertical tabs
+/// (they end lines and comments in v2), and only has line continuations within
+/// a node, and not at the end of a document.
+#[cfg(feature = "v1")]
+pub(crate) fn v1_space(text: &mut String, within_node: bool) {
+    let mut out = String::with_capacity(text.len());
+    let mut rest = text.as_str();
+    while let Some(c) = rest.chars().next() {
+        let len = if rest.starts_with("//") {
+            rest.find(crate::v2_parser::is_newline_char)
+                .unwrap_or(rest.len())
+        } else if rest.starts_with("/*") {
+            block_comment_len(rest)
+        } else if rest.starts_with("/-") {
+            // What is commented out here isn't just space.
+            rest.len()
+        } else {
+            c.len_utf8()
+        };
+        if c != '\\' || within_node && rest.contains(crate::v2_parser::is_newline_char) {
+            out.push_str(&rest[..len]);
+        }
+        rest = &rest[len..];
+    }
+    *text = out.replace('\u{b}', "\n");
+}
+
 /// How much of `text` the block comment at its beginning takes up.
 #[cfg(feature = "v1")]
 pub(crate) fn block_comment_len(text: &str) -> usize {
diff --git a/src/identifier.rs b/src/identifier.rs
index 9d011e0..f8662e6 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -116,6 +116,22 @@ impl KdlIdentifier {
     }
 }
 
+#[cfg(feature = "v1")]
+impl KdlIdentifier {
+    /// An identifier written as v1 has it.
+    pub(crate) fn v1(value: &str) -> Self {
+        let repr = kdlv1::KdlIdentifier::from(value).to_string();
+        let repr = if repr == value && !matches!(value, "true" | "false" | "null") {
+            repr
+        } else {
+            kdlv1::KdlValue::String(value.into()).to_string()
+        };
+        let mut ident = Self::from(value);
+        ident.repr = Some(repr);
+        ident
+    }
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlIdentifier> for KdlIdentifier {
     fn from(value: kdlv1::KdlIdentifier) -> Self {
diff --git a/src/node.rs b/src/node.rs
index c28d87d..78c1fa5 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -410,18 +410,19 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
+        self.ty = self.ty.take().map(|ty| KdlIdentifier::v1(ty.value()));
         // v1 doesn't allow whitespace or comments in type annotations.
         if let Some(fmt) = self.format_mut() {
             fmt.before_ty_name.clear();
             fmt.after_ty_name.clear();
             fmt.after_ty.clear();
+            crate::fmt::v1_space(&mut fmt.leading, false);
+            crate::fmt::v1_space(&mut fmt.before_children, true);
+            crate::fmt::v1_space(&mut fmt.before_terminator, true);
+            crate::fmt::v1_space(&mut fmt.terminator, false);
+            crate::fmt::v1_space(&mut fmt.trailing, false);
         }
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        self.name = KdlIdentifier::v1(self.name.value());
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-- 
2.43.0


From 338ad65d3561572c9ee326b0ffe7fe1f630d91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 32/44] fix: floats may have more digits than an integer can
 hold

---
 src/v2_parser.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index c4ac8a8..5904886 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1773,27 +1773,27 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, decimal_digits),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        decimal_digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(decimal_digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, decimal_digits),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    decimal_digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1869,12 +1869,6 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
-    decimal_digits
-        .try_map(|digits| T::from_str_radix(&digits, 10))
-        .parse_next(input)
-}
-
 fn decimal_digits(input: &mut Input<'_>) -> PResult<String> {
     (
         digit1,
-- 
2.43.0


From eb2a897cb5d99e6e4b08e259487ebc8c2820eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 33/44] fix: a node's terminator is not optional before another
 node

A slashdashed node could be followed by another one on its line, an
unterminated node by slashdashed ones, and a lone `;` was accepted.
---
 src/v2_parser.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 5904886..1c58a6a 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -296,16 +296,15 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
         }
         ns.push(nd);
         _span = span_from_checkpoint(input, &_start);
-        let terminator = opt(node_terminator).parse_next(input)?;
-        before = before_node.parse_next(input)?;
-        if terminator.is_none() {
-            break before;
+        if opt(node_terminator).parse_next(input)?.is_none() {
+            // Nothing but the end of these nodes may follow.
+            break "";
         }
+        before = before_node.parse_next(input)?;
     };
 
     let (leading, trailing) = if ns.is_empty() {
-        opt(node_terminator).parse_next(input)?;
-        (trailing, before_node.parse_next(input)?)
+        (trailing, "")
     } else {
         // If there is a node, it has the leading format
         // This gives more consistent behavior
@@ -325,12 +324,27 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// Line spaces and slashdashed nodes, before a node or after the last one.
 fn before_node<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
-    repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)
 }
 
+/// A slashdashed node ends like any other.
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (slashdash, base_node).void().parse_next(input)?;
+    resume_after_cut(
+        cut_err(alt((node_terminator, peek(alt(("}".void(), eof.void())))))).context(
+            cx().msg("Slashdashed node is not terminated")
+                .lbl("end of slashdashed node")
+                .hlp("Did you forget a newline or a `;` before the next node?"),
+        ),
+        empty,
+    )
+    .void()
+    .parse_next(input)
+}
+
 /// base-node := slashdash? type? node-space* string
 ///      (node-space+ slashdash? node-prop-or-arg)*
 ///      (node-space+ slashdash node-children)*
@@ -367,6 +381,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
         input.reset(&_start);
         node_children.parse_next(input)?;
         opt(slashdashed_children).parse_next(input)?;
+        node_space0.parse_next(input)?;
         peek(opt(node_terminator)).parse_next(input)?;
         // We also return a fake node here, for good measure.
         return Ok(KdlNode::new("<<BAD_NODE>>"));
-- 
2.43.0


From 9d9cbeef52b8b4ab55cb5934e864bff4568eddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 34/44] fix: a slashdash cannot follow another one

---
 src/v2_parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 1c58a6a..f7a7899 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -560,6 +560,15 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let leading = (node_space0, opt((slashdashed_entries, node_space1)))
         .take()
         .parse_next(input)?;
+    let mut entry = base_entry.parse_next(input)?;
+    if let Some(fmt) = entry.as_mut().and_then(|entry| entry.format_mut()) {
+        fmt.leading = leading.into();
+    }
+    Ok(entry)
+}
+
+/// A `node-prop-or-arg` without anything before it.
+fn base_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let _start = input.checkpoint();
     let maybe_ident = trace("prop name or string val", opt(identifier)).parse_next(input)?;
     let ident_was_parsed = maybe_ident.is_some();
@@ -608,9 +617,6 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
             .flatten()
     };
     Ok(entry.map(|mut value| {
-        if let Some(fmt) = value.format_mut() {
-            fmt.leading = leading.into();
-        }
         #[cfg(feature = "span")]
         {
             value.span = span_from_checkpoint(input, &_start);
@@ -620,7 +626,7 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, base_entry), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From e200d7ee7a52c0179c14a508c1cd4a8c01bddfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 35/44] fix: single-line raw strings cannot start like
 multi-line ones

Only the one with the content `"` was refused, whether it was a
single-line one or not.
---
 src/v2_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index f7a7899..c3e8810 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1295,6 +1295,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
     let hashes: String = repeat(1.., "#").parse_next(input)?;
     let quotes = alt((("\"\"\"", newline).take(), "\"")).parse_next(input)?;
     let is_multiline = quotes.len() > 1;
+    let is_ambiguous = !is_multiline && peek(opt("\"\"")).parse_next(input)?.is_some();
     let ml_prefix: Option<String> = if is_multiline {
         Some(
             peek(preceded(
@@ -1385,7 +1386,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if is_ambiguous {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From 8c3934f6fd038c35bc22e7116d2285b8b787e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 36/44] fix: -inf is not an identifier

---
 src/v2_parser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index c3e8810..08b8242 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -983,7 +983,7 @@ fn identifier_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         .parse_next(input)
 }
 
-/// `unambiguous-ident := ((identifier-char - digit - sign - '.') identifier-char*) - 'true' - 'false' - 'null' - 'inf' - '-inf' - 'nan'`
+/// `unambiguous-ident := ((identifier-char - digit - sign - '.') identifier-char*) - 'true' - 'false' - 'null' - 'inf' - 'nan'`
 fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
     not(alt((digit1.void(), alt(("-", "+")).void(), ".".void()))).parse_next(input)?;
     peek(identifier_char).parse_next(input)?;
@@ -992,10 +992,7 @@ fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
         cut_err(
             repeat(1.., identifier_char)
                 .verify_map(|s: String| {
-                    if matches!(
-                        s.as_str(),
-                        "true" | "false" | "null" | "inf" | "-inf" | "nan"
-                    ) {
+                    if matches!(s.as_str(), "true" | "false" | "null" | "inf" | "nan") {
                         None
                     } else {
                         Some(s)
@@ -1007,11 +1004,18 @@ fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
     .parse_next(input)
 }
 
-/// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)?`
+/// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)? - '-inf'`
 fn signed_ident(input: &mut Input<'_>) -> PResult<()> {
-    alt(("+", "-")).parse_next(input)?;
+    let sign = alt(("+", "-")).parse_next(input)?;
     not(alt((digit1.void(), ".".void()))).parse_next(input)?;
-    repeat(0.., identifier_char).parse_next(input)
+    cut_err(
+        repeat(0.., identifier_char)
+            .map(|()| ())
+            .take()
+            .verify(|rest: &str| !(sign == "-" && rest == "inf"))
+            .void(),
+    )
+    .parse_next(input)
 }
 
 /// `dotted-ident := sign? '.' ((identifier-char - digit) identifier-char*)?`
-- 
2.43.0


From 1aa000f6e0f5f3403de7a42220df8ef4270b165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 37/44] fix: U+007F is not allowed in KDL

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 08b8242..4620353 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1604,6 +1604,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From 8d36217789e92e3b898512731f17d5f033a0c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 38/44] fix: ordering of values agrees with their equality

---
 src/value.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 42c86f7..f34d24e 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
-use std::fmt::Display;
+use std::{cmp::Ordering, fmt::Display};
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,30 @@ impl PartialEq for KdlValue {
     }
 }
 
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        // Values of different kinds are ordered as the variants are declared.
+        fn rank(value: &KdlValue) -> u8 {
+            match value {
+                KdlValue::String(_) => 0,
+                KdlValue::Integer(_) => 1,
+                KdlValue::Float(_) => 2,
+                KdlValue::Bool(_) => 3,
+                KdlValue::Null => 4,
+            }
+        }
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From c3a3bbb64ed801f2d70c1f07d451b8aa1a75bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 39/44] fix: KdlNode::from_str falls back to KDL 1 as parse
 does

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 78c1fa5..8dda390 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -897,7 +897,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From 93eb4b400b81b871d3fdb04f164fb249b4e56ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:46 +0000
Subject: [PATCH 40/44] fix: a property given again replaces the earlier one
 when deserializing

---
 src/de.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index e5d978f..eaf28d6 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -333,6 +333,19 @@ impl From<crate::KdlError> for Error {
     }
 }
 
+/// The properties of a node. One that is given again replaces the earlier one.
+fn node_props(node: &KdlNode) -> Vec<&KdlEntry> {
+    let mut names = std::collections::HashSet::new();
+    let mut props: Vec<_> = node
+        .entries()
+        .iter()
+        .rev()
+        .filter(|e| e.name().is_some_and(|name| names.insert(name.value())))
+        .collect();
+    props.reverse();
+    props
+}
+
 /// Helper to produce a `StrDeserializer` with our error type.
 fn str_deserializer(s: &str) -> de::value::StrDeserializer<'_, Error> {
     de::IntoDeserializer::into_deserializer(s)
@@ -769,11 +782,7 @@ impl<'a> NodeDeserializer<'a> {
     }
 
     fn props(&self) -> Vec<&'a KdlEntry> {
-        self.node
-            .entries()
-            .iter()
-            .filter(|e| e.name().is_some())
-            .collect()
+        node_props(self.node)
     }
 
     /// Returns true if this node has only a single argument and nothing else.
@@ -1211,8 +1220,8 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in node.entries().iter().filter(|e| e.name().is_some()) {
-            // SAFETY: we just filtered for things with names.
+        for prop in node_props(node) {
+            // SAFETY: these are the entries with names.
             let name = prop.name().unwrap().value();
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
-- 
2.43.0


From f015c9f57a6887e12e37459205bb30d77c5e81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:46 +0000
Subject: [PATCH 41/44] fix: names and type annotations can be read as options

---
 src/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index eaf28d6..c3c5a47 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -439,6 +439,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         self.annotate(visitor.visit_str(self.ident.value()))
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -459,7 +463,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 70e28b4ae55fdf54a842c5f810cdb46fc4efe1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 42/44] fix: properties read through a rename are not unknown
 fields

---
 src/de.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index c3c5a47..5d09749 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1206,7 +1206,9 @@ impl<'a> NodeMapAccess<'a> {
                 }
                 let idx_name = format!("#{i}");
                 let ty_name = format!("{idx_name}#type");
-                if let Some(ty) = arg.ty() {
+                if let Some(ty) = arg.ty()
+                    && fields.contains(&ty_name.as_ref())
+                {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
                 if fields.contains(&idx_name.as_ref()) {
@@ -1227,19 +1229,26 @@ impl<'a> NodeMapAccess<'a> {
         for prop in node_props(node) {
             // SAFETY: these are the entries with names.
             let name = prop.name().unwrap().value();
+            let mut renamed = false;
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
                 if fields.contains(&hash_name.as_ref()) {
                     entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
+                    renamed = true;
                 }
-                if let Some(ty) = prop.ty()
-                    && fields.contains(&ty_name.as_ref())
-                {
-                    entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
+                if fields.contains(&ty_name.as_ref()) {
+                    if let Some(ty) = prop.ty() {
+                        entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
+                    }
+                    renamed = true;
                 }
+                renamed &= !fields.contains(&name);
+            }
+            // What was read under another name is no unknown field.
+            if !renamed {
+                entries.push((name.into(), NodeMapValue::Arg(prop)));
             }
-            entries.push((name.into(), NodeMapValue::Arg(prop)));
             used_names.push(name);
         }
 
-- 
2.43.0


From c4ad6006109af9bf050bc881bdbc7af69787f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 43/44] fix: repeated nodes can be read as optional and wrapped
 sequences

---
 src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 5d09749..95f9c93 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1122,9 +1122,21 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         })
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From 3c5e1594c3887d0df00f407cb41289ed7dd6f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 44/44] fix: clearing the formats of a node clears its type
 annotation's

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 8dda390..9dc4da0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
-- 
2.43.0

