From ab66cd9bfdbc322af5720f07b36ca01fcd67f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 01/13] fix: try_to_yamd rejects an End that does not match the
 frame it closes

---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..aec60a3 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -430,8 +430,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // an End that does not match the frame it closes
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From b5ce3503663446a197458592c0416353a00df48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 02/13] fix: trim CRLF line endings like LF ones around
 metadata, code, list items and highlight paragraphs

---
 src/nodes/code.rs | 2 +-
 src/nodes/yamd.rs | 2 +-
 src/op/to_yamd.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 97bfa14..2de9a07 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -38,7 +38,7 @@ pub struct Code {
 impl Code {
     pub fn new<S: Into<String>>(lang: S, code: S) -> Self {
         let code = code.into();
-        let code = code.trim_end_matches('\n').to_owned();
+        let code = code.trim_end_matches(['\r', '\n']).to_owned();
         Self {
             lang: lang.into(),
             code,
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index cbebe51..f3998d2 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -258,7 +258,7 @@ pub struct Yamd {
 
 impl Yamd {
     pub fn new(metadata: Option<String>, body: Vec<YamdNodes>) -> Self {
-        let metadata = metadata.map(|m| m.trim_matches('\n').to_owned());
+        let metadata = metadata.map(|m| m.trim_matches(['\r', '\n']).to_owned());
         Self { metadata, body }
     }
 }
diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index aec60a3..c67c1c9 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -283,7 +283,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         }
                     }
                     (Node::Metadata, Frame::Metadata { text }) => {
-                        let metadata = text.trim_matches('\n').to_owned();
+                        let metadata = text.trim_matches(['\r', '\n']).to_owned();
                         if let Some(Frame::Yamd { metadata: m, .. }) = stack.last_mut() {
                             *m = Some(metadata);
                         }
@@ -376,7 +376,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         push_yamd_node(&mut stack, Images::new(images).into());
                     }
                     (Node::Code, Frame::Code { lang, code }) => {
-                        let code = code.trim_end_matches('\n').to_owned();
+                        let code = code.trim_end_matches(['\r', '\n']).to_owned();
                         push_yamd_node(&mut stack, Code::new(lang, code).into());
                     }
                     (Node::Modifier, Frame::Modifier { text }) => {
@@ -451,7 +451,7 @@ fn extract_heading_level(content: &Content, source: &str) -> u8 {
 
 fn trim_trailing_newline_from_text(body: &mut Vec<ParagraphNodes>) {
     if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
-        let trimmed = t.trim_end_matches('\n');
+        let trimmed = t.trim_end_matches(['\r', '\n']);
         if trimmed.is_empty() {
             body.pop();
         } else {
-- 
2.43.0


From 0e0e4b2bc2faa370c5c90c9a2fcc7bcc83cc61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 03/13] fix: escape every consecutive line break when printing,
 including CRLF and runs of three

---
 src/nodes/anchor.rs        | 26 ++++++++++++++++----------
 src/nodes/bold.rs          | 13 +++++++------
 src/nodes/code_span.rs     |  7 +++----
 src/nodes/emphasis.rs      |  7 +++----
 src/nodes/escape.rs        | 17 +++++++++++++++++
 src/nodes/heading.rs       |  6 ++----
 src/nodes/image.rs         | 19 ++++++++++---------
 src/nodes/italic.rs        |  7 +++----
 src/nodes/mod.rs           |  1 +
 src/nodes/paragraph.rs     | 22 ++++++++++++----------
 src/nodes/strikethrough.rs |  7 +++----
 11 files changed, 77 insertions(+), 55 deletions(-)
 create mode 100644 src/nodes/escape.rs

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 57ef22e..58b8ffa 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Anchor
 ///
 /// Anchor has two required parts.
@@ -53,16 +55,20 @@ impl Display for Anchor {
         write!(
             f,
             "[{}]({})",
-            self.text
-                .replace("\\", "\\\\")
-                .replace("[", "\\[")
-                .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
-            self.url
-                .replace("\\", "\\\\")
-                .replace("(", "\\(")
-                .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(
+                &self
+                    .text
+                    .replace("\\", "\\\\")
+                    .replace("[", "\\[")
+                    .replace("]", "\\]")
+            ),
+            escape_terminators(
+                &self
+                    .url
+                    .replace("\\", "\\\\")
+                    .replace("(", "\\(")
+                    .replace(")", "\\)")
+            )
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 297b665..08e3d52 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Italic, Strikethrough};
+use super::{Italic, Strikethrough, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -41,11 +41,12 @@ impl Display for BoldNodes {
                 write!(
                     f,
                     "{}",
-                    t.replace("\\", "\\\\")
-                        .replace("*", "\\*")
-                        .replace("_", "\\_")
-                        .replace("~", "\\~")
-                        .replace("\n\n", "\\\n\n")
+                    escape_terminators(
+                        &t.replace("\\", "\\\\")
+                            .replace("*", "\\*")
+                            .replace("_", "\\_")
+                            .replace("~", "\\~")
+                    )
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index 7d142e9..6878adf 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Code span
 ///
 /// Any characters except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by a
@@ -47,10 +49,7 @@ impl Display for CodeSpan {
         write!(
             f,
             "`{}`",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("`", "\\`"))
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 7d59484..70e1616 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Emphasis
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -44,10 +46,7 @@ impl Display for Emphasis {
         write!(
             f,
             "*{}*",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("*", "\\*")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("*", "\\*"))
         )
     }
 }
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
new file mode 100644
index 0000000..623b7e0
--- /dev/null
+++ b/src/nodes/escape.rs
@@ -0,0 +1,17 @@
+//! Escaping shared by the `Display` implementations.
+
+/// Escapes every line break that is directly followed by another one and is not escaped yet, so that
+/// serialized text never contains a [Terminator](type@crate::lexer::TokenKind::Terminator).
+pub(super) fn escape_terminators(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    let mut escaped = false;
+    for (i, c) in s.char_indices() {
+        let rest = &s[i + c.len_utf8()..];
+        if c == '\n' && !escaped && (rest.starts_with('\n') || rest.starts_with("\r\n")) {
+            out.push('\\');
+        }
+        out.push(c);
+        escaped = !escaped && c == '\\';
+    }
+    out
+}
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 25b6769..d04cd42 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::Anchor;
+use super::{Anchor, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -32,9 +32,7 @@ impl Display for HeadingNodes {
                 write!(
                     f,
                     "{}",
-                    text.replace("\\", "\\\\")
-                        .replace("\n\n", "\\\n\n")
-                        .replace("#", "\\#")
+                    escape_terminators(&text.replace("\\", "\\\\").replace("#", "\\#"))
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 6b24e32..f3630d3 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Image
 ///
 /// Starts with [Bang](type@crate::lexer::TokenKind::Bang) of length 1, and has two required parts.
@@ -54,15 +56,14 @@ impl Display for Image {
         write!(
             f,
             "![{}]({})",
-            self.alt
-                .replace("\\", "\\\\")
-                .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
-            self.src
-                .replace("\\", "\\\\")
-                .replace("(", "\\(")
-                .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.alt.replace("\\", "\\\\").replace("]", "\\]")),
+            escape_terminators(
+                &self
+                    .src
+                    .replace("\\", "\\\\")
+                    .replace("(", "\\(")
+                    .replace(")", "\\)")
+            )
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index b13c9b4..dac3c27 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Italic
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -43,10 +45,7 @@ impl Display for Italic {
         write!(
             f,
             "_{}_",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("_", "\\_")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("_", "\\_"))
         )
     }
 }
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index fccf2a1..0b90afe 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -36,6 +36,7 @@ mod code_span;
 mod collapsible;
 mod embed;
 mod emphasis;
+mod escape;
 mod heading;
 mod highlight;
 mod image;
diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..d882da9 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough};
+use super::{Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -70,15 +70,17 @@ impl Display for ParagraphNodes {
             ParagraphNodes::Text(t) => write!(
                 f,
                 "{}",
-                t.replace("\\", "\\\\")
-                    .replace("*", "\\*")
-                    .replace("_", "\\_")
-                    .replace("~", "\\~")
-                    .replace("`", "\\`")
-                    .replace("[", "\\[")
-                    .replace("{", "\\{")
-                    .replace("\n\n", "\\\n\\\n")
-                    .replace("%}", "\\%}")
+                escape_terminators(
+                    &t.replace("\\", "\\\\")
+                        .replace("*", "\\*")
+                        .replace("_", "\\_")
+                        .replace("~", "\\~")
+                        .replace("`", "\\`")
+                        .replace("[", "\\[")
+                        .replace("{", "\\{")
+                        .replace("\n\n", "\\\n\\\n")
+                        .replace("%}", "\\%}")
+                )
             ),
             ParagraphNodes::CodeSpan(c) => write!(f, "{}", c),
             ParagraphNodes::Emphasis(e) => write!(f, "{}", e),
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index f8fefab..9107a68 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Strikethrough
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -44,10 +46,7 @@ impl Display for Strikethrough {
         write!(
             f,
             "~~{}~~",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("~", "\\~")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("~", "\\~"))
         )
     }
 }
-- 
2.43.0


From f4a8a0b5d56e6022031f0b40434790b79c3e9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 04/13] fix: escape a leading space and line breaks where
 printed text has to stay on its line

---
 src/nodes/code.rs        |  7 +++----
 src/nodes/collapsible.rs | 10 ++++++++--
 src/nodes/escape.rs      | 18 ++++++++++++++++++
 src/nodes/heading.rs     | 12 ++++++++++--
 src/nodes/highlight.rs   | 17 ++++++++++++-----
 src/nodes/list_item.rs   | 11 ++++++-----
 6 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 2de9a07..06bec37 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_single_line;
+
 /// # Code
 ///
 /// Starts with [Backtick](type@crate::lexer::TokenKind::Backtick) of length 3.
@@ -51,10 +53,7 @@ impl Display for Code {
         write!(
             f,
             "```{}\n{}\n```",
-            self.lang
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n", "\\\n"),
+            escape_single_line(&self.lang.replace("\\", "\\\\").replace("`", "\\`")),
             self.code.replace("\\", "\\\\").replace("```", "\\```")
         )
     }
diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e89a538..6506aa9 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -3,7 +3,11 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{YamdNodes, paragraph::escape_leading_block_marker};
+use super::{
+    YamdNodes,
+    escape::{escape_leading_space, escape_single_line},
+    paragraph::escape_leading_block_marker,
+};
 
 /// # Collapsible
 ///
@@ -56,7 +60,9 @@ impl Display for Collapsible {
         write!(
             f,
             "{{% {}\n{}\n%}}",
-            self.title.replace("\\", "\\\\").replace("%}", "\\%}"),
+            escape_leading_space(escape_single_line(
+                &self.title.replace("\\", "\\\\").replace("%}", "\\%}")
+            )),
             self.body
                 .iter()
                 .map(|node| match node {
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index 623b7e0..0a59fb0 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -15,3 +15,21 @@ pub(super) fn escape_terminators(s: &str) -> String {
     }
     out
 }
+
+/// Escapes a leading space, which would otherwise be lost or merge with the space after a marker.
+pub(super) fn escape_leading_space(s: String) -> String {
+    if s.starts_with(' ') {
+        format!("\\{}", s)
+    } else {
+        s
+    }
+}
+
+/// Escapes line breaks in a text that has to stay on the line it is printed on.
+pub(super) fn escape_single_line(s: &str) -> String {
+    let s = s.replace('\n', "\\\n");
+    match s.strip_suffix('\r') {
+        Some(head) => format!("{}\\\r", head),
+        None => s,
+    }
+}
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index d04cd42..3d34e1f 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -3,7 +3,10 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Anchor, escape::escape_terminators};
+use super::{
+    Anchor,
+    escape::{escape_leading_space, escape_terminators},
+};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -80,7 +83,12 @@ impl Heading {
 impl Display for Heading {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body: String = self.body.iter().map(|n| n.to_string()).collect();
-        write!(f, "{} {}", "#".repeat(self.level as usize), body)
+        write!(
+            f,
+            "{} {}",
+            "#".repeat(self.level as usize),
+            escape_leading_space(body)
+        )
     }
 }
 
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 0204c2f..72c8310 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -3,7 +3,11 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Paragraph, paragraph::escape_leading_block_marker};
+use super::{
+    Paragraph,
+    escape::{escape_leading_space, escape_single_line},
+    paragraph::escape_leading_block_marker,
+};
 
 /// # Highlight
 ///
@@ -74,13 +78,16 @@ impl Highlight {
 
 impl Display for Highlight {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let escape =
+            |s: &String| escape_leading_space(escape_single_line(&s.replace("\\", "\\\\")));
         let title = self
             .title
             .as_ref()
-            .map_or("".to_string(), |t| format!(" {}", t.replace("\\", "\\\\")));
-        let icon = self.icon.as_ref().map_or("".to_string(), |i| {
-            format!("! {}\n", i.replace("\\", "\\\\"))
-        });
+            .map_or("".to_string(), |t| format!(" {}", escape(t)));
+        let icon = self
+            .icon
+            .as_ref()
+            .map_or("".to_string(), |i| format!("! {}\n", escape(i)));
         write!(
             f,
             "!!{}\n{}{}\n!!",
diff --git a/src/nodes/list_item.rs b/src/nodes/list_item.rs
index 38e4d30..0038299 100644
--- a/src/nodes/list_item.rs
+++ b/src/nodes/list_item.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{List, ParagraphNodes};
+use super::{List, ParagraphNodes, escape::escape_leading_space};
 
 /// # ListItem
 ///
@@ -23,9 +23,10 @@ use super::{List, ParagraphNodes};
 /// # Round-trip invariant
 ///
 /// The grammar requires exactly one space between the list marker and the item
-/// text, so a `ListItem` whose `text` begins with whitespace cannot be produced
-/// by parsing any source document. Constructing such a value is permitted, but
-/// serializing and re-parsing it will not yield an equal value.
+/// text, so a space at the beginning of `text` is serialized escaped. Trailing
+/// line breaks are not part of the item: constructing a `ListItem` whose `text`
+/// ends with a line break is permitted, but serializing and re-parsing it will
+/// not yield an equal value.
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ListItem {
@@ -42,7 +43,7 @@ impl ListItem {
 
 impl Display for ListItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let text: String = self.text.iter().map(|t| t.to_string()).collect();
+        let text = escape_leading_space(self.text.iter().map(|t| t.to_string()).collect());
         match &self.nested_list {
             Some(nested) => write!(f, "{}\n{}", text, nested),
             None => write!(f, "{}", text),
-- 
2.43.0


From 3cddd4050fd387ed389c7f730e0888d98e925439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 05/13] fix: escape headings of every level and images at the
 start of a printed paragraph

---
 src/nodes/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index d882da9..f5a3f1f 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -171,10 +171,12 @@ impl Display for Paragraph {
 /// container-specific closer escape (e.g. Highlight's universal `!!` escape),
 /// because those escapes can rewrite the leading characters.
 pub(crate) fn escape_leading_block_marker(s: String) -> String {
+    let hashes = s.chars().take_while(|&c| c == '#').count();
     if s.starts_with("- ")
         || s.starts_with("+ ")
-        || s.starts_with("# ")
+        || ((1..=6).contains(&hashes) && s[hashes..].starts_with(' '))
         || s.starts_with("!!")
+        || s.starts_with("![")
         || s.starts_with("---")
     {
         format!("\\{}", s)
-- 
2.43.0


From 1cbbeb60623c1e873c20023802b74385486e705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 06/13] fix: escape line breaks at the edges of printed blocks

---
 src/nodes/code.rs        |  4 ++--
 src/nodes/collapsible.rs | 13 +++++++------
 src/nodes/escape.rs      | 38 ++++++++++++++++++++++++++++++++++++++
 src/nodes/yamd.rs        | 15 +++++----------
 4 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 06bec37..51d8372 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::escape::escape_single_line;
+use super::escape::{escape_leading_line_break, escape_single_line};
 
 /// # Code
 ///
@@ -54,7 +54,7 @@ impl Display for Code {
             f,
             "```{}\n{}\n```",
             escape_single_line(&self.lang.replace("\\", "\\\\").replace("`", "\\`")),
-            self.code.replace("\\", "\\\\").replace("```", "\\```")
+            escape_leading_line_break(self.code.replace("\\", "\\\\").replace("```", "\\```"))
         )
     }
 }
diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index 6506aa9..b3a1dab 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -5,7 +5,10 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     YamdNodes,
-    escape::{escape_leading_space, escape_single_line},
+    escape::{
+        escape_leading_line_break, escape_leading_space, escape_single_line,
+        escape_trailing_line_break, join_blocks,
+    },
     paragraph::escape_leading_block_marker,
 };
 
@@ -63,14 +66,12 @@ impl Display for Collapsible {
             escape_leading_space(escape_single_line(
                 &self.title.replace("\\", "\\\\").replace("%}", "\\%}")
             )),
-            self.body
-                .iter()
-                .map(|node| match node {
+            escape_leading_line_break(escape_trailing_line_break(join_blocks(
+                self.body.iter().map(|node| match node {
                     YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                     other => other.to_string(),
                 })
-                .collect::<Vec<_>>()
-                .join("\n\n")
+            )))
         )
     }
 }
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index 0a59fb0..d5fc834 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -33,3 +33,41 @@ pub(super) fn escape_single_line(s: &str) -> String {
         None => s,
     }
 }
+
+/// Escapes a line break at the beginning of a block, which would otherwise form a
+/// [Terminator](type@crate::lexer::TokenKind::Terminator) with the line break printed before it.
+pub(super) fn escape_leading_line_break(s: String) -> String {
+    if s.starts_with('\n') {
+        format!("\\{}", s)
+    } else if let Some(rest) = s.strip_prefix("\r\n") {
+        format!("\r\\\n{}", rest)
+    } else {
+        s
+    }
+}
+
+/// Escapes a line break at the end of a block, which would otherwise merge with the line break printed
+/// after it.
+pub(super) fn escape_trailing_line_break(mut s: String) -> String {
+    if s.ends_with(['\n', '\r']) {
+        let last = s.len() - 1;
+        let backslashes = s[..last].bytes().rev().take_while(|&b| b == b'\\');
+        if backslashes.count() % 2 == 0 {
+            s.insert(last, '\\');
+        }
+    }
+    s
+}
+
+/// Joins serialized blocks with a [Terminator](type@crate::lexer::TokenKind::Terminator).
+pub(super) fn join_blocks(blocks: impl Iterator<Item = String>) -> String {
+    let mut out = String::new();
+    for (i, block) in blocks.enumerate() {
+        if i > 0 {
+            out = escape_trailing_line_break(out);
+            out.push_str("\n\n");
+        }
+        out.push_str(&block);
+    }
+    out
+}
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index f3998d2..c3b65a7 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     Code, Collapsible, Embed, Heading, Highlight, Image, Images, List, Paragraph, ThematicBreak,
-    paragraph::escape_leading_block_marker,
+    escape::join_blocks, paragraph::escape_leading_block_marker,
 };
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -265,15 +265,10 @@ impl Yamd {
 
 impl Display for Yamd {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let body = self
-            .body
-            .iter()
-            .map(|node| match node {
-                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                other => other.to_string(),
-            })
-            .collect::<Vec<_>>()
-            .join("\n\n");
+        let body = join_blocks(self.body.iter().map(|node| match node {
+            YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+            other => other.to_string(),
+        }));
         match &self.metadata {
             Some(metadata) => {
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
-- 
2.43.0


From cc5ee2ee105fabffdb8232f7ba1f75af27664b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 07/13] fix: print highlights with an empty body or a body that
 looks like an icon so that they parse back

---
 src/nodes/highlight.rs | 21 +++++++++++----------
 src/op/to_yamd.rs      |  4 +++-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 72c8310..d4cab5e 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     Paragraph,
-    escape::{escape_leading_space, escape_single_line},
+    escape::{escape_leading_line_break, escape_leading_space, escape_single_line, join_blocks},
     paragraph::escape_leading_block_marker,
 };
 
@@ -88,17 +88,18 @@ impl Display for Highlight {
             .icon
             .as_ref()
             .map_or("".to_string(), |i| format!("! {}\n", escape(i)));
-        write!(
-            f,
-            "!!{}\n{}{}\n!!",
-            title,
-            icon,
+        let mut body = escape_leading_line_break(join_blocks(
             self.body
                 .iter()
-                .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
-                .collect::<Vec<_>>()
-                .join("\n\n")
-        )
+                .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!"))),
+        ));
+        if self.icon.is_none() && body.starts_with("! ") {
+            body.insert(0, '\\');
+        }
+        if !self.body.is_empty() {
+            body.push('\n');
+        }
+        write!(f, "!!{}\n{}{}!!", title, icon, body)
     }
 }
 
diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index c67c1c9..4027cfc 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -296,7 +296,9 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         match top {
                             Frame::Highlight { paragraphs, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-                                paragraphs.push(Paragraph::new(body));
+                                if !body.is_empty() {
+                                    paragraphs.push(Paragraph::new(body));
+                                }
                             }
                             Frame::ListItem { text, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-- 
2.43.0


From b490c6ed41db7b66c5d636f9ae0641967d3b78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 08/13] fix: escape every list marker in printed item text that
 would start an item of any level

---
 src/nodes/list.rs      | 56 ++++++++++++++++++++++++++++--------------
 src/nodes/list_item.rs |  8 +++++-
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/nodes/list.rs b/src/nodes/list.rs
index 29b8e62..4567b89 100644
--- a/src/nodes/list.rs
+++ b/src/nodes/list.rs
@@ -148,28 +148,48 @@ impl List {
             body,
         }
     }
+
+    /// Escapes every marker in the serialized item text that would start a new item.
+    fn escape_item_markers(&self, text: &str) -> String {
+        let mut lines = text.split('\n');
+        let mut out = lines.next().unwrap_or_default().to_string();
+        for line in lines {
+            let marker = line.trim_start_matches(' ');
+            let level = line.len() - marker.len();
+            let starts_item = if self.level == 0 && level == 0 {
+                marker.starts_with(&format!("{} ", self.list_type))
+            } else {
+                level <= self.level + 1 && (marker.starts_with("- ") || marker.starts_with("+ "))
+            };
+            out.push('\n');
+            out.push_str(&line[..level]);
+            if starts_item {
+                out.push('\\');
+            }
+            out.push_str(marker);
+        }
+        out
+    }
 }
 
 impl Display for List {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let (pat, rep) = match self.list_type {
-            ListTypes::Unordered => ("\n- ", "\n\\- "),
-            ListTypes::Ordered => ("\n+ ", "\n\\+ "),
-        };
-        write!(
-            f,
-            "{}",
-            self.body
-                .iter()
-                .map(|list_item| format!(
-                    "{}{} {}",
-                    " ".repeat(self.level),
-                    self.list_type,
-                    list_item.to_string().replace(pat, rep)
-                ))
-                .collect::<Vec<_>>()
-                .join("\n")
-        )
+        for (i, list_item) in self.body.iter().enumerate() {
+            if i > 0 {
+                writeln!(f)?;
+            }
+            write!(
+                f,
+                "{}{} {}",
+                " ".repeat(self.level),
+                self.list_type,
+                self.escape_item_markers(&list_item.serialized_text())
+            )?;
+            if let Some(nested) = &list_item.nested_list {
+                write!(f, "\n{}", nested)?;
+            }
+        }
+        Ok(())
     }
 }
 
diff --git a/src/nodes/list_item.rs b/src/nodes/list_item.rs
index 0038299..110ee0c 100644
--- a/src/nodes/list_item.rs
+++ b/src/nodes/list_item.rs
@@ -41,9 +41,15 @@ impl ListItem {
     }
 }
 
+impl ListItem {
+    pub(super) fn serialized_text(&self) -> String {
+        escape_leading_space(self.text.iter().map(|t| t.to_string()).collect())
+    }
+}
+
 impl Display for ListItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let text = escape_leading_space(self.text.iter().map(|t| t.to_string()).collect());
+        let text = self.serialized_text();
         match &self.nested_list {
             Some(nested) => write!(f, "{}\n{}", text, nested),
             None => write!(f, "{}", text),
-- 
2.43.0


From 6531691e8e77cd2dd22b05410b39f5d25d993322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 09/13] fix: escape square brackets in printed heading text

---
 src/nodes/heading.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 3d34e1f..dd6cf2c 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -35,7 +35,12 @@ impl Display for HeadingNodes {
                 write!(
                     f,
                     "{}",
-                    escape_terminators(&text.replace("\\", "\\\\").replace("#", "\\#"))
+                    escape_terminators(
+                        &text
+                            .replace("\\", "\\\\")
+                            .replace("#", "\\#")
+                            .replace("[", "\\[")
+                    )
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
-- 
2.43.0


From 6ca37a84c829fc1d4713c6688d852b2dbe6ef70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 10/13] fix: escape a collapsible end at the start of a line in
 every printed collapsible block

---
 src/nodes/collapsible.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index b3a1dab..f405495 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -68,8 +68,11 @@ impl Display for Collapsible {
             )),
             escape_leading_line_break(escape_trailing_line_break(join_blocks(
                 self.body.iter().map(|node| match node {
-                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                    other => other.to_string(),
+                    YamdNodes::Paragraph(p) => {
+                        escape_leading_block_marker(p.to_string()).replace("\n%}", "\n\\%}")
+                    }
+                    YamdNodes::Collapsible(_) | YamdNodes::Code(_) => node.to_string(),
+                    other => other.to_string().replace("\n%}", "\n\\%}"),
                 })
             )))
         )
-- 
2.43.0


From 6de447f006b887382754ed9ba54622365631570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 11/13] fix: escape runs of three and more stars nested in
 printed bold text

---
 src/nodes/bold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 08e3d52..2622597 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -122,7 +122,7 @@ impl Display for Bold {
         }
         write!(f, "**")?;
         for node in &self.body {
-            write!(f, "{}", node.to_string().replace("**", "\\**"))?;
+            write!(f, "{}", node.to_string().replace("**", "\\*\\*"))?;
         }
         write!(f, "**")
     }
-- 
2.43.0


From 03a3a63777be91412b69ebaa7b44f21e7262cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 12/13] fix: escape backslashes and closing markers in printed
 metadata

---
 src/nodes/yamd.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index c3b65a7..6e6b526 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -263,6 +263,19 @@ impl Yamd {
     }
 }
 
+/// Escapes backslashes and every line that would be read as the end of the metadata.
+fn escape_metadata(metadata: &str) -> String {
+    metadata
+        .replace("\\", "\\\\")
+        .split('\n')
+        .map(|line| match line.strip_prefix("---") {
+            Some(rest) if !rest.starts_with('-') => format!("\\{}", line),
+            _ => line.to_string(),
+        })
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
 impl Display for Yamd {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body = join_blocks(self.body.iter().map(|node| match node {
@@ -271,6 +284,7 @@ impl Display for Yamd {
         }));
         match &self.metadata {
             Some(metadata) => {
+                let metadata = escape_metadata(metadata);
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
                 write!(f, "---\n{}{}---\n\n{}", metadata, sep, body)
             }
-- 
2.43.0


From 80c88703765d874d4d6bcb187ea1b2bdc31bb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 13/13] fix: utils random does not panic when the maximum
 literal length is 3 or less

---
 utils/src/commands/random.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/src/commands/random.rs b/utils/src/commands/random.rs
index fdb84c4..16c2a4c 100644
--- a/utils/src/commands/random.rs
+++ b/utils/src/commands/random.rs
@@ -53,7 +53,14 @@ pub fn random(length: usize, max_literal_len: usize) {
             18 => ")",
             19 => "_",
             20 => "|",
-            _ => &random_string(rng.gen_range(3..max_literal_len), &mut rng),
+            _ => {
+                let len = if max_literal_len > 3 {
+                    rng.gen_range(3..max_literal_len)
+                } else {
+                    max_literal_len
+                };
+                &random_string(len, &mut rng)
+            }
         };
         out.push_str(token);
     }
-- 
2.43.0

