From 611206c0c7526b877af16f7400a24bd145d2e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 01/31] fix: detect the first line ending of files with mixed
 line endings

The documentation of `line-ending = "auto"` has files with mixed line endings converted
to the first detected one. `infer()` picked `\r\n` if there was any at all.
---
 .../air_r_formatter/src/r/auxiliary/root.rs   |  6 +-----
 crates/line_ending/src/lib.rs                 | 19 ++++++++++++-------
 crates/lsp/src/documents.rs                   |  7 ++-----
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index 6100fc6..a1e3da8 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -9,7 +9,6 @@ use biome_formatter::write;
 use biome_rowan::Direction;
 use biome_rowan::SyntaxElement;
 use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
-use settings::LineEnding;
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct FormatRRoot;
@@ -105,10 +104,7 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         // This is also identical to how `fmt_suppressed()`'s default works via
         // `format_suppressed_node()` and `FormatVerbatimNode`. It normalizes line endings
         // right before calling `dynamic_text()` (#507).
-        let text = match line_ending::infer(&text) {
-            LineEnding::Lf => text,
-            LineEnding::Crlf => line_ending::normalize(text),
-        };
+        let text = line_ending::normalize(text);
 
         // Formatting with `format_suppressed_node()` does not work well
         // here because it only formats the node verbatim, not the leading
diff --git a/crates/line_ending/src/lib.rs b/crates/line_ending/src/lib.rs
index e3d18a6..121059f 100644
--- a/crates/line_ending/src/lib.rs
+++ b/crates/line_ending/src/lib.rs
@@ -10,11 +10,15 @@ use settings::LineEnding;
 
 static FINDER: LazyLock<memmem::Finder> = LazyLock::new(|| memmem::Finder::new(b"\r\n"));
 
+/// Infer the line ending of a file from the first line ending in it
 pub fn infer(x: &str) -> LineEnding {
-    match FINDER.find(x.as_bytes()) {
-        // Saw `\r\n`
-        Some(_) => LineEnding::Crlf,
-        // No `\r\n`, or empty file
+    let x = x.as_bytes();
+    match memchr::memchr(b'\n', x) {
+        // First line ends with `\r\n`
+        Some(idx) if x[..idx].ends_with(b"\r") => LineEnding::Crlf,
+        // First line ends with `\n`
+        Some(_) => LineEnding::Lf,
+        // No line ending, or empty file
         None => LineEnding::Lf,
     }
 }
@@ -71,9 +75,10 @@ pub fn normalize(x: String) -> String {
 /// Prefer [normalize()] when you have an owned [String] as that modifies in place,
 /// reusing the owned [String]'s existing allocation.
 pub fn normalize_ref(x: &str) -> Cow<'_, str> {
-    match infer(x) {
-        LineEnding::Lf => Cow::Borrowed(x),
-        LineEnding::Crlf => Cow::Owned(normalize(x.to_string())),
+    // Not `infer()`, which only looks at the first line ending
+    match FINDER.find(x.as_bytes()) {
+        None => Cow::Borrowed(x),
+        Some(_) => Cow::Owned(normalize(x.to_string())),
     }
 }
 
diff --git a/crates/lsp/src/documents.rs b/crates/lsp/src/documents.rs
index cd3ed40..72c4d72 100644
--- a/crates/lsp/src/documents.rs
+++ b/crates/lsp/src/documents.rs
@@ -51,11 +51,8 @@ impl Document {
         // Detect existing endings
         let endings = line_ending::infer(&contents);
 
-        // Normalize to Unix line endings
-        let contents = match endings {
-            LineEnding::Lf => contents,
-            LineEnding::Crlf => line_ending::normalize(contents),
-        };
+        // Normalize to Unix line endings, even if the first one is, others may not be
+        let contents = line_ending::normalize(contents);
 
         // TODO: Handle user requested line ending preference here
         // by potentially overwriting `endings` if the user didn't
-- 
2.43.0


From 00ee77f33adf372f488435eecf56ccaea1e979bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 02/31] fix: don't treat files with a `.,` extension as R files

The character class `[R,r]` matches a comma too.
---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From f6967fb199034bce24bef135f85de1ead974e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 03/31] fix: don't match directory exclude patterns against the
 root itself

`exclude = ["*/"]` excluded every file, because the walk up the parents ended at
the root as an empty path, which such patterns match as a directory.
---
 crates/workspace/src/file_patterns.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/workspace/src/file_patterns.rs b/crates/workspace/src/file_patterns.rs
index 5b9e2d0..d57416b 100644
--- a/crates/workspace/src/file_patterns.rs
+++ b/crates/workspace/src/file_patterns.rs
@@ -80,15 +80,29 @@ impl FilePatterns {
     /// More expensive than [FilePatterns::matched], but is required in the LSP where you
     /// don't recursively search a directory, but are instead handed a single file at a
     /// time.
+    ///
+    /// The walk up ends below the `root`. [Gitignore]'s version also looks at the `root`
+    /// itself, as an empty path, which directory patterns like `*/` match, so that they
+    /// would exclude every file.
     pub fn matched_path_or_any_parents<P>(&self, path: P, is_directory: bool) -> Option<&Glob>
     where
         P: AsRef<Path>,
     {
-        match self.matcher.matched_path_or_any_parents(path, is_directory) {
-            Match::None => None,
-            Match::Whitelist(_) => None,
-            Match::Ignore(glob) => Some(glob),
+        let root = self.matcher.path();
+        let mut is_directory = is_directory;
+
+        for path in path.as_ref().ancestors() {
+            if path == root || path.as_os_str().is_empty() {
+                break;
+            }
+            match self.matcher.matched(path, is_directory) {
+                Match::None => is_directory = true, // walk up
+                Match::Whitelist(_) => return None,
+                Match::Ignore(glob) => return Some(glob),
+            }
         }
+
+        None
     }
 }
 
-- 
2.43.0


From fedb205932e50ed0a4111323612794cae7391a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 04/31] fix: don't prune the directory of an air.toml for its
 own exclude patterns

With `exclude = ["*/"]` in `a/air.toml`, `air format . a/x.R` skipped all of `a/` on its
way down, because the root of the patterns was matched itself, as an empty path.
---
 crates/workspace/src/file_patterns.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/workspace/src/file_patterns.rs b/crates/workspace/src/file_patterns.rs
index d57416b..0cc3786 100644
--- a/crates/workspace/src/file_patterns.rs
+++ b/crates/workspace/src/file_patterns.rs
@@ -63,10 +63,17 @@ impl FilePatterns {
     /// We consider a whitelisted file to be `None`, i.e. if `"!file.R"` is supplied, then
     /// we effectively treat that as if we weren't matched at all. We don't advertise the
     /// whitelisting feature though, so this also should not come up much.
+    ///
+    /// The `root` itself is never matched. As an empty path, it would be by directory
+    /// patterns like `*/`.
     pub(crate) fn matched<P>(&self, path: P, is_directory: bool) -> Option<&Glob>
     where
         P: AsRef<Path>,
     {
+        if path.as_ref() == self.matcher.path() {
+            return None;
+        }
+
         match self.matcher.matched(path, is_directory) {
             Match::None => None,
             Match::Whitelist(_) => None,
-- 
2.43.0


From 2a2322d6cf4823f744f9cbe58f826616ac249c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 05/31] fix: keep the argument of a commented unary operator
 attached to what follows

---
 .../air_r_formatter/src/r/auxiliary/unary_expression.rs  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs b/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
index af6131c..be0428d 100644
--- a/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
@@ -4,6 +4,7 @@ use air_r_syntax::AnyRExpression;
 use air_r_syntax::RSyntaxKind;
 use air_r_syntax::RSyntaxToken;
 use air_r_syntax::{RUnaryExpression, RUnaryExpressionFields};
+use biome_formatter::format_args;
 use biome_formatter::write;
 
 #[derive(Debug, Clone, Default)]
@@ -22,8 +23,12 @@ impl FormatNodeRule<RUnaryExpression> for FormatRUnaryExpression {
                 && !f.comments().has_skip_directive(argument.syntax())
             {
                 // If an existing comment separates the operator and its argument, we are
-                // forced to line break
-                write!(f, [soft_block_indent(&argument.format())])
+                // forced to line break. There must be no line break after the argument though,
+                // `- # comment\n y + z` would become two expressions.
+                write!(
+                    f,
+                    [indent(&format_args![soft_line_break(), argument.format()])]
+                )
             } else {
                 // Otherwise we never line break
                 write!(f, [argument.format()])
-- 
2.43.0


From 818e6aa47541d21e9f9772d3fc4e2aaf185fa70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 06/31] fix: empty lines that aren't kept don't expand call
 arguments

---
 .../air_r_formatter/src/r/auxiliary/call_arguments.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index 7f14362..cf87da3 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -550,12 +550,12 @@ impl Format<RFormatContext> for RCallLikeArguments {
             .map(|(index, element)| FormatCallArgument::new(element, index == last_index))
             .collect();
 
-        let has_empty_line = leading_holes
+        // Empty lines before the first argument or around leading holes aren't kept, so they
+        // don't count (they would be gone the next time we format)
+        let has_empty_line = arguments
             .iter()
-            .any(|leading_hole| leading_hole.leading_lines() > 1)
-            || arguments
-                .iter()
-                .any(|argument| argument.leading_lines() > 1);
+            .skip(1)
+            .any(|argument| argument.leading_lines() > 1);
 
         // Special case where the user has requested a fully empty line between
         // some of their arguments. Let's respect that and use it as an
-- 
2.43.0


From e1c7f0fe3926419b9e9ce6238653ff7fbdde58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 07/31] fix: calls with only holes have no persistent line
 break

---
 crates/air_r_formatter/src/r/auxiliary/call_arguments.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index cf87da3..2af81c1 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -684,6 +684,11 @@ fn has_persistent_line_break(
         return false;
     }
 
+    // If there are only holes, there is nothing that could be expanded
+    if arguments.is_empty() {
+        return false;
+    }
+
     // Do any leading holes have leading lines?
     // We treat leading holes as "invisible" so a leading line in the hole
     // implies a leading line in the first argument.
-- 
2.43.0


From 7daa6e3813f6503a829b288b7c57fa38b540d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 08/31] fix: comments don't expand curly-curly

---
 .../src/r/auxiliary/braced_expressions.rs       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs b/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
index e61a472..772eafc 100644
--- a/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
@@ -266,16 +266,19 @@ fn fmt_curly_curly(node: &RCurlyCurly, f: &mut RFormatter) -> FormatResult<()> {
     //   since that is the only node we skip calling `format()` on.
     // - We push comments between the `{ {` as leading on the first `{`
     // - We push comments between the `} }` as trailing on the second `}`
+    // - These comments stay outside of the `group()`, otherwise they'd expand it
     write!(
         f,
-        [group(&format_args![
+        [
             format_leading_comments(node_inner),
-            outer_l_curly_token.format(),
-            inner_l_curly_token.format(),
-            soft_space_or_block_indent(&expression.format()),
-            inner_r_curly_token.format(),
-            outer_r_curly_token.format(),
+            group(&format_args![
+                outer_l_curly_token.format(),
+                inner_l_curly_token.format(),
+                soft_space_or_block_indent(&expression.format()),
+                inner_r_curly_token.format(),
+                outer_r_curly_token.format(),
+            ]),
             format_trailing_comments(node_inner),
-        ])]
+        ]
     )
 }
-- 
2.43.0


From de965f40b957e38bfc42fa2044014ea616d46c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 09/31] fix: no table formatting for calls with comments within
 arguments

---
 crates/air_r_formatter/src/call_arguments_table.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index 3d6affa..0ed617d 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -449,6 +449,18 @@ impl ArgKind {
     }
 
     fn parse_other(arg: &RArgument, f: &mut RFormatter) -> FormatResult<Option<ArgKind>> {
+        // A comment within the argument would comment out the padding and the comma
+        // that follow it on the same line
+        let comments = f.comments();
+        if arg
+            .syntax()
+            .descendants()
+            .skip(1)
+            .any(|node| comments.has_comments(&node))
+        {
+            return Ok(None);
+        }
+
         // Format with flat layout by disabling soft line breaks
         let mut buffer = RemoveSoftLinesBuffer::new(f);
         let mut recording = buffer.start_recording();
-- 
2.43.0


From 3c67f5311adf53a6c14b2173e9823ef9244fce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 10/31] fix: keep '# fmt: skip' comments of argument holes

---
 crates/air_r_formatter/src/r/auxiliary/argument.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/air_r_formatter/src/r/auxiliary/argument.rs b/crates/air_r_formatter/src/r/auxiliary/argument.rs
index d74d271..935d46a 100644
--- a/crates/air_r_formatter/src/r/auxiliary/argument.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/argument.rs
@@ -1,3 +1,4 @@
+use crate::comments_ext::CommentsExt;
 use crate::prelude::*;
 use air_r_syntax::RArgument;
 use air_r_syntax::RArgumentFields;
@@ -9,6 +10,16 @@ impl FormatNodeRule<RArgument> for FormatRArgument {
     fn fmt_fields(&self, node: &RArgument, f: &mut RFormatter) -> FormatResult<()> {
         fmt_argument_fields(node, f)
     }
+
+    // There is nothing to suppress in a hole. Since it has no text, its suppressed form
+    // would be empty, and the comments attached to it would be lost.
+    fn is_suppressed(&self, node: &RArgument, f: &RFormatter) -> bool {
+        let is_hole = node.is_hole();
+        let node = node.syntax();
+        let comments = f.comments();
+        comments.mark_suppression_checked(node);
+        !is_hole && comments.has_skip_directive(node)
+    }
 }
 
 pub(crate) fn fmt_argument_fields(node: &RArgument, f: &mut RFormatter) -> FormatResult<()> {
-- 
2.43.0


From 508201741135fbc4a3162d7ff304d1571ffbdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 11/31] fix: keep comments moved onto suppressed code

---
 crates/air_r_formatter/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/lib.rs b/crates/air_r_formatter/src/lib.rs
index 4cf5022..27073c5 100644
--- a/crates/air_r_formatter/src/lib.rs
+++ b/crates/air_r_formatter/src/lib.rs
@@ -225,7 +225,20 @@ where
     /// You may want to override this method if you need to manually handle
     /// formatting of a suppressed node. This should be extremely rare.
     fn fmt_suppressed(&self, node: &N, f: &mut RFormatter) -> FormatResult<()> {
-        write!(f, [format_suppressed_node(node.syntax())])
+        let node = node.syntax();
+
+        // Comments from behind the node that we've moved in front of it aren't part of its
+        // verbatim text, and `format_suppressed_node()` doesn't expect them
+        let end = node.text_trimmed_range().end();
+        let comments = f.comments().clone();
+        for comment in comments.leading_comments(node) {
+            if comment.piece().text_range().start() >= end {
+                write!(f, [comment.piece().as_piece(), hard_line_break()])?;
+                comment.mark_formatted();
+            }
+        }
+
+        write!(f, [format_suppressed_node(node)])
     }
 
     /// Formats the [leading comments](biome_formatter::comments#leading-comments) of the node.
-- 
2.43.0


From a7513269f59db4f3b51dbe0861bcc00bd3628b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:48 +0000
Subject: [PATCH 12/31] fix: keep the padding of table numbers behind their
 leading comments

---
 .../src/call_arguments_table.rs               | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index 0ed617d..52d8490 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -96,21 +96,22 @@ impl FormatRCallArguments {
                         (0, 0)
                     };
 
+                    let arg_syntax = arg_data.node.syntax();
+
+                    // Suppression comments do nothing inside a table
+                    f.comments().mark_suppression_checked(arg_syntax);
+
+                    // We format the argument without comments, so we're in charge
+                    // of formatting them. Leading comments come before the padding,
+                    // which aligns the value that follows them.
+                    format_leading_comments(arg_syntax).fmt(f)?;
+
                     // Add left padding for right-aligned values
                     write_spaces(left_pad, f)?;
 
                     // Format the value
                     match &arg_data.kind {
                         ArgKind::Other { text } => {
-                            let arg_syntax = arg_data.node.syntax();
-
-                            // Suppression comments do nothing inside a table
-                            f.comments().mark_suppression_checked(arg_syntax);
-
-                            // We've formatted the argument without comments, so
-                            // we're in charge of formatting them
-                            format_leading_comments(arg_syntax).fmt(f)?;
-
                             // 0-length arguments are holes. Don't print them
                             // because a `text("")` after a `Space` will prevent
                             // the latter from being considered trailing by the
@@ -118,17 +119,15 @@ impl FormatRCallArguments {
                             if !text.is_empty() {
                                 write!(f, [dynamic_text(text, 0.into())])?;
                             }
-
-                            format_trailing_comments(arg_syntax).fmt(f)?;
                         }
 
                         ArgKind::Numeric { .. } => {
-                            // For numeric types, format the node directly. This
-                            // handles comments as well.
-                            write!(f, [arg_data.node.format()])?;
+                            fmt_argument_fields(&arg_data.node, f)?;
                         }
                     }
 
+                    format_trailing_comments(arg_syntax).fmt(f)?;
+
                     // Add right padding (but not for the last item)
                     if !arg_data.is_last_in_list {
                         write_spaces(right_pad, f)?;
-- 
2.43.0


From a69cd8de23c1bd2784b9cdb944fd83567d9536d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 13/31] fix: keep the order of edits at the same position

---
 crates/aether_lsp_utils/src/proto/from_proto.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/aether_lsp_utils/src/proto/from_proto.rs b/crates/aether_lsp_utils/src/proto/from_proto.rs
index 7eaabe2..eaf826b 100644
--- a/crates/aether_lsp_utils/src/proto/from_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/from_proto.rs
@@ -137,20 +137,22 @@ pub fn apply_text_edits(
     line_index: &mut LineIndex,
     position_encoding: PositionEncoding,
 ) {
-    // Sort edits in reverse order by start position to ensure that edits
+    // Apply edits in reverse order of start position to ensure that edits
     // applied later in the document don’t shift the ranges of edits earlier in
     // the document. This way, edits in the bottom don't invalidate the
-    // positions of edits at the top. Use stable sort to preserve the original
-    // order for edits at the same position (which defines insertion order per
-    // LSP spec).
+    // positions of edits at the top. Use stable sort and reverse afterwards, so that
+    // edits at the same position are applied last one first: each goes before the
+    // ones applied already, which keeps the original order (which defines insertion
+    // order per LSP spec).
     edits.sort_by(|a, b| {
         let a_start = a.range.start;
         let b_start = b.range.start;
-        b_start
+        a_start
             .line
-            .cmp(&a_start.line)
-            .then_with(|| b_start.character.cmp(&a_start.character))
+            .cmp(&b_start.line)
+            .then_with(|| a_start.character.cmp(&b_start.character))
     });
+    edits.reverse();
 
     let changes: Vec<lsp_types::TextDocumentContentChangeEvent> = edits
         .into_iter()
-- 
2.43.0


From 6c2d26dd211ccf937cb90c02abc01d075d4e169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 14/31] fix: order document changes so that none shifts the
 next

---
 crates/aether_lsp_utils/src/proto/to_proto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aether_lsp_utils/src/proto/to_proto.rs b/crates/aether_lsp_utils/src/proto/to_proto.rs
index bfb194b..5f7ef18 100644
--- a/crates/aether_lsp_utils/src/proto/to_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/to_proto.rs
@@ -89,8 +89,11 @@ pub fn doc_edit_vec(
 ) -> anyhow::Result<Vec<lsp_types::TextDocumentContentChangeEvent>> {
     let edits = text_edit_vec(text_edit, line_index, position_encoding, endings)?;
 
+    // Changes are applied one after the other, each to the result of the one before.
+    // From the end to the start, they don't shift each other's ranges.
     Ok(edits
         .into_iter()
+        .rev()
         .map(|edit| lsp_types::TextDocumentContentChangeEvent {
             range: Some(edit.range),
             range_length: None,
-- 
2.43.0


From 300ac93a178369e98cecf90bd4296eaa104b7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:51 +0000
Subject: [PATCH 15/31] fix: format documents with Unix line endings in the
 language server

Documents are stored with Unix line endings and `to_proto` translates the
edits to the document's own line endings. With `line-ending = "crlf"` the
formatter's output already had `\r\n`, and the client received `\r\r\n`.
---
 crates/lsp/src/workspaces.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1cbc000..e108d1d 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -9,6 +9,7 @@ use std::path::Path;
 use std::path::PathBuf;
 
 use air_r_formatter::context::RFormatOptions;
+use settings::LineEnding;
 use tower_lsp::lsp_types::Url;
 use tower_lsp::lsp_types::WorkspaceFolder;
 use workspace::discovery::DiscoveredSettings;
@@ -262,7 +263,7 @@ impl WorkspaceSettings<'_> {
         source: &str,
         document_settings: &DocumentSettings,
     ) -> RFormatOptions {
-        match self {
+        let format_options = match self {
             WorkspaceSettings::Toml(settings) => {
                 // If there is an actual TOML, that wins
                 settings.format.to_format_options(source)
@@ -272,6 +273,10 @@ impl WorkspaceSettings<'_> {
                 let format_options = settings.format.to_format_options(source);
                 DocumentSettings::merge(format_options, document_settings)
             }
-        }
+        };
+
+        // Documents are stored with Unix line endings and `to_proto` gives edits the line
+        // endings of the document in the editor, so we can't format with any other here
+        format_options.with_line_ending(LineEnding::Lf)
     }
 }
-- 
2.43.0


From ebf0084fc283e7db360805f1737962477514aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 16/31] fix: follow the line endings of a document whose
 contents are replaced

The line endings detected when the document was opened were kept forever, so
edits to a document that was replaced as a whole, or that had no newline yet
when it was opened, used line endings that are not the document's.
---
 .../aether_lsp_utils/src/proto/from_proto.rs  | 20 ++++++++++++++++++-
 crates/lsp/src/documents.rs                   |  7 ++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/aether_lsp_utils/src/proto/from_proto.rs b/crates/aether_lsp_utils/src/proto/from_proto.rs
index eaf826b..82358c9 100644
--- a/crates/aether_lsp_utils/src/proto/from_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/from_proto.rs
@@ -4,6 +4,7 @@ use anyhow::Context;
 use biome_line_index::LineCol;
 use biome_line_index::LineIndex;
 use biome_line_index::WideLineCol;
+use settings::LineEnding;
 use tower_lsp::lsp_types;
 
 use crate::proto::PositionEncoding;
@@ -78,12 +79,17 @@ pub fn text_range(
 /// replaced text can't invalidate the text change events since the location of the
 /// change itself is specified with [line, col] coordinates, separate from the
 /// actual contents of the change.
+///
+/// Returns the line endings of a change that provided all newlines of the contents,
+/// if there is one. The line endings from before are not those of the contents then.
 pub fn apply_text_changes(
     contents: &mut String,
     mut changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
     line_index: &mut LineIndex,
     position_encoding: PositionEncoding,
-) {
+) -> Option<LineEnding> {
+    let mut endings = None;
+
     // If we do have a full document change, that implies the `last_start_line`
     // corresponding to that change is line 0, which will correctly force a rebuild
     // of the line index before applying any incremental changes. We don't go ahead
@@ -95,6 +101,9 @@ pub fn apply_text_changes(
                 let incremental = changes.split_off(idx + 1);
                 // Unwrap: `rposition()` confirmed this index contains a full document change
                 let change = changes.pop().unwrap();
+                if change.text.contains('\n') {
+                    endings = Some(line_ending::infer(&change.text));
+                }
                 *contents = line_ending::normalize(change.text);
                 (incremental, 0)
             }
@@ -120,8 +129,17 @@ pub fn apply_text_changes(
             .expect("Can convert `range` from `Position` to `TextRange`.")
             .into();
 
+        if change.text.contains('\n')
+            && !contents[..range.start].contains('\n')
+            && !contents[range.end..].contains('\n')
+        {
+            endings = Some(line_ending::infer(&change.text));
+        }
+
         contents.replace_range(range, &line_ending::normalize(change.text));
     }
+
+    endings
 }
 
 /// Simple wrapper around `apply_text_changes()` that converts `TextEdit` to
diff --git a/crates/lsp/src/documents.rs b/crates/lsp/src/documents.rs
index 72c4d72..3804b54 100644
--- a/crates/lsp/src/documents.rs
+++ b/crates/lsp/src/documents.rs
@@ -110,13 +110,18 @@ impl Document {
             }
         }
 
-        from_proto::apply_text_changes(
+        let endings = from_proto::apply_text_changes(
             &mut self.contents,
             changes,
             &mut self.line_index,
             self.position_encoding,
         );
 
+        // If all newlines were replaced, then the document has the endings of the replacement
+        if let Some(endings) = endings {
+            self.endings = endings;
+        }
+
         // Rebuild the `line_index` after applying the final edit, and sync other fields
         self.line_index = biome_line_index::LineIndex::new(&self.contents);
         self.parse = air_r_parser::parse(&self.contents, Default::default());
-- 
2.43.0


From a36df10e42a3b345e03396e8c63b3d7adfaf2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 17/31] fix: sync settings with the client when an `air.toml`
 is deleted

Reloading a workspace whose `air.toml` is gone (or can't be parsed) clears its
settings, but was reported as no change, and the client kept the old settings.
---
 crates/lsp/src/workspaces.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index e108d1d..8282bc7 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -187,6 +187,8 @@ impl WorkspaceSettingsResolver {
                 workspace_settings_resolver.clear();
             }
 
+            changed = true;
+
             let workspace_path = workspace_match.path();
 
             tracing::trace!("Reloading workspace settings: {}", workspace_path.display());
@@ -208,7 +210,6 @@ impl WorkspaceSettingsResolver {
                 settings,
             } in discovered_settings
             {
-                changed = true;
                 workspace_settings_resolver.add(&directory, settings);
             }
         }
-- 
2.43.0


From 73ca87750138182b5d60451f07b4a0a4aceea772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 18/31] fix: sync the settings of all opened files when one is
 opened

The client replaces all settings it knows with those of the notification, so it
forgot the settings of the files that were opened earlier.
---
 crates/lsp/src/handlers_state.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/lsp/src/handlers_state.rs b/crates/lsp/src/handlers_state.rs
index 72fdf4b..f00c93a 100644
--- a/crates/lsp/src/handlers_state.rs
+++ b/crates/lsp/src/handlers_state.rs
@@ -144,12 +144,13 @@ pub(crate) async fn did_open(
     state.documents.insert(uri.clone(), document);
 
     // Propagate client settings to Air
-    update_config(vec![uri.clone()], lsp_state, state)
+    update_config(vec![uri], lsp_state, state)
         .instrument(tracing::info_span!("did_change_configuration"))
         .await?;
 
-    // Backpropagate Air settings to client
-    lsp_state.sync_file_settings(vec![uri]).await;
+    // Backpropagate Air settings to client. Each notification replaces all settings that
+    // the client knows about, so we send those of all opened files, not just the new one.
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
 
     Ok(())
 }
-- 
2.43.0


From f939ea97dab7616628f76571aaee014c9c4bed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 19/31] fix: sync settings with the client when workspace
 folders change

Adding or removing a workspace folder changes which `air.toml` governs the
opened files, but the client was never told.
---
 crates/lsp/src/handlers_state.rs | 7 ++++++-
 crates/lsp/src/main_loop.rs      | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_state.rs b/crates/lsp/src/handlers_state.rs
index f00c93a..fe8d31e 100644
--- a/crates/lsp/src/handlers_state.rs
+++ b/crates/lsp/src/handlers_state.rs
@@ -200,9 +200,10 @@ pub(crate) async fn did_change_configuration(
         .await
 }
 
-pub(crate) fn did_change_workspace_folders(
+pub(crate) async fn did_change_workspace_folders(
     params: DidChangeWorkspaceFoldersParams,
     lsp_state: &mut LspState,
+    state: &WorldState,
 ) -> anyhow::Result<()> {
     for lsp_types::WorkspaceFolder { uri, .. } in params.event.added {
         lsp_state.open_workspace_folder(&uri);
@@ -210,6 +211,10 @@ pub(crate) fn did_change_workspace_folders(
     for lsp_types::WorkspaceFolder { uri, .. } in params.event.removed {
         lsp_state.close_workspace_folder(&uri);
     }
+
+    // Backpropagate settings for all opened files, their workspace may be a different one now
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
+
     Ok(())
 }
 
diff --git a/crates/lsp/src/main_loop.rs b/crates/lsp/src/main_loop.rs
index 7309256..003421b 100644
--- a/crates/lsp/src/main_loop.rs
+++ b/crates/lsp/src/main_loop.rs
@@ -324,7 +324,7 @@ impl GlobalState {
                             handlers::handle_initialized(&self.lsp_state).await?;
                         },
                         LspNotification::DidChangeWorkspaceFolders(params) => {
-                            handlers_state::did_change_workspace_folders(params, &mut self.lsp_state)?;
+                            handlers_state::did_change_workspace_folders(params, &mut self.lsp_state, &self.world).await?;
                         },
                         LspNotification::DidChangeConfiguration(params) => {
                             handlers_state::did_change_configuration(params, &mut self.lsp_state, &mut self.world).await?;
-- 
2.43.0


From 6c34366faf4b57f1322596ef0cd53deaf486fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 20/31] fix: reload workspaces below the directory of a changed
 `air.toml`

A workspace's settings come from the closest `air.toml` in its directory or the
directories above. When that one is above, for example in another workspace that
contains this one, changes to it were ignored.
---
 crates/lsp/src/workspaces.rs    | 11 ++++++++++-
 crates/workspace/src/resolve.rs |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 8282bc7..f32bca4 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -177,9 +177,18 @@ impl WorkspaceSettingsResolver {
             return false;
         }
 
+        // An `air.toml` applies to the workspaces that contain it, and also to those below its
+        // directory, as settings discovery walks up a workspace's ancestors.
+        let directory = path.parent().unwrap_or(&path).to_path_buf();
+
+        let workspace_matches = self
+            .path_to_settings_resolver
+            .items_mut()
+            .filter(|item| path.starts_with(item.path()) || item.path().starts_with(&directory));
+
         let mut changed = false;
 
-        for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+        for workspace_match in workspace_matches {
             // Clear existing settings up front, regardless of what happens when reloading.
             // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
             {
diff --git a/crates/workspace/src/resolve.rs b/crates/workspace/src/resolve.rs
index 7d9e5e1..8528407 100644
--- a/crates/workspace/src/resolve.rs
+++ b/crates/workspace/src/resolve.rs
@@ -114,6 +114,10 @@ impl<T> PathResolver<T> {
         &self.items
     }
 
+    pub fn items_mut(&mut self) -> impl Iterator<Item = &mut PathItem<T>> {
+        self.items.iter_mut()
+    }
+
     pub fn len(&self) -> usize {
         self.items.len()
     }
-- 
2.43.0


From 09e77b94a069e8c9306a60b5d4947727d78122a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:19 +0000
Subject: [PATCH 21/31] fix: leave suppressed selections alone

Selected expressions are formatted as the contents of an artificial file. If the
comments of the first one look like those of a file that isn't formatted, that
file is printed verbatim, without a final line break, and removing one deleted
the last character of the selection. A file that isn't formatted was also
formatted when only a part of it was selected.
---
 crates/air_r_formatter/src/lib.rs             |  1 +
 .../air_r_formatter/src/r/auxiliary/root.rs   | 67 +++++++++++--------
 crates/lsp/src/handlers_format.rs             |  8 +++
 3 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/crates/air_r_formatter/src/lib.rs b/crates/air_r_formatter/src/lib.rs
index 27073c5..7ccebfb 100644
--- a/crates/air_r_formatter/src/lib.rs
+++ b/crates/air_r_formatter/src/lib.rs
@@ -29,6 +29,7 @@ pub mod joiner_ext;
 pub mod loop_body;
 mod prelude;
 mod r;
+pub use r::auxiliary::root::is_file_suppressed;
 pub(crate) mod separated;
 mod string_content;
 
diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index a1e3da8..9c325b5 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -13,13 +13,44 @@ use comments::{Directive, FormatDirective, parse_comment_directive, parse_specia
 #[derive(Debug, Clone, Default)]
 pub(crate) struct FormatRRoot;
 
-impl FormatRRoot {
-    fn is_suppression_directive(directive: Option<Directive>) -> bool {
-        matches!(
-            directive,
-            Some(Directive::Format(FormatDirective::SkipFile))
-        )
+/// Are these leading comments of the first node in a file, and do they contain a comment
+/// that suppresses formatting of the whole file?
+fn has_file_suppression<'a>(mut comments: impl Iterator<Item = &'a str>) -> bool {
+    let Some(first_line) = comments.next() else {
+        return false;
+    };
+
+    // The very first line is allowed to be `Generated by:`
+    if is_suppression_directive(
+        parse_special_skip_file(first_line).or_else(|| parse_comment_directive(first_line)),
+    ) {
+        return true;
     }
+
+    comments.any(|comment| is_suppression_directive(parse_comment_directive(comment)))
+}
+
+fn is_suppression_directive(directive: Option<Directive>) -> bool {
+    matches!(
+        directive,
+        Some(Directive::Format(FormatDirective::SkipFile))
+    )
+}
+
+/// Is formatting of this whole file suppressed, i.e. is `root` formatted verbatim?
+pub fn is_file_suppressed(root: &RRoot) -> bool {
+    let Some(token) = root
+        .expressions()
+        .first()
+        .and_then(|child| child.syntax().first_token())
+    else {
+        return false;
+    };
+
+    let pieces: Vec<_> = token.leading_trivia().pieces().collect();
+    let comments = pieces.iter().filter(|piece| piece.is_comments());
+
+    has_file_suppression(comments.map(|piece| piece.text()))
 }
 
 impl FormatNodeRule<RRoot> for FormatRRoot {
@@ -54,29 +85,9 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         };
 
         // Only consider leading comments of the first node in the file
-        let mut comments = comments
-            .leading_comments(child.syntax())
-            .iter()
-            .map(|cmt| cmt.piece().text());
-
-        let Some(first_line) = comments.next() else {
-            return false;
-        };
-
-        // The very first line is allowed to be `Generated by:`
-        if Self::is_suppression_directive(
-            parse_special_skip_file(first_line).or_else(|| parse_comment_directive(first_line)),
-        ) {
-            return true;
-        }
-
-        for comment in comments {
-            if Self::is_suppression_directive(parse_comment_directive(comment)) {
-                return true;
-            }
-        }
+        let comments = comments.leading_comments(child.syntax()).iter();
 
-        false
+        has_file_suppression(comments.map(|cmt| cmt.piece().text()))
     }
 
     // The default handling of suppressed nodes in `FormatNodeRule::fmt()`
diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 73f08c8..3a18e94 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -1,3 +1,4 @@
+use air_r_formatter::is_file_suppressed;
 use air_r_syntax::{RExpressionList, RSyntaxKind, RSyntaxNode, WalkEvent};
 use biome_rowan::{AstNode, Language, SyntaxElement};
 use biome_text_size::{TextRange, TextSize};
@@ -138,6 +139,13 @@ pub(crate) fn document_range_formatting(
     let eof = air_r_syntax::RSyntaxToken::new_detached(RSyntaxKind::EOF, "", vec![], vec![]);
     let root = air_r_factory::r_root(list, eof).build();
 
+    // Our artificial root is printed verbatim, with its whitespace and without a final hard
+    // line break, if its first comments look like those of a file that isn't formatted
+    if is_file_suppressed(&doc.parse.tree()) || is_file_suppressed(&root) {
+        tracing::trace!("Formatting is suppressed: {uri}");
+        return Ok(None);
+    }
+
     let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
 
     let format_info = biome_formatter::format_sub_tree(
-- 
2.43.0


From d11891258d920afda0eeb22e0f60665475c3ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:27 +0000
Subject: [PATCH 22/31] fix: keep moved comments of a selection away from the
 code behind it

Formatting can move a comment to the end of the selected expressions. Code that
follows on the same line, after a `;` or a closing brace, then became a part of
the comment.
---
 crates/lsp/src/handlers_format.rs | 32 +++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 3a18e94..ecdb950 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -1,6 +1,6 @@
 use air_r_formatter::is_file_suppressed;
 use air_r_syntax::{RExpressionList, RSyntaxKind, RSyntaxNode, WalkEvent};
-use biome_rowan::{AstNode, Language, SyntaxElement};
+use biome_rowan::{AstNode, Direction, Language, SyntaxElement};
 use biome_text_size::{TextRange, TextSize};
 use tower_lsp::lsp_types;
 use workspace::format::FormattedSource;
@@ -113,7 +113,7 @@ pub(crate) fn document_range_formatting(
 
     // Find the overall formatting range by concatenating the ranges of the logical lines.
     // We use the "non-whitespace-range" as that corresponds to what Biome will format.
-    let format_range = logical_lines
+    let mut format_range = logical_lines
         .iter()
         .map(text_non_whitespace_range)
         .reduce(|acc, new| acc.cover(new))
@@ -162,6 +162,22 @@ pub(crate) fn document_range_formatting(
 
     // Remove last hard break line from our artifical expression list
     format_text.pop();
+
+    // If formatting moved a comment to the end, then what follows on the same line would
+    // become a part of it. Semicolons aren't needed anymore and the rest goes to a new line.
+    if ends_with_comment(root.syntax(), &format_text) {
+        let rest = &doc.contents[usize::from(format_range.end())..];
+        let rest = rest.lines().next().unwrap_or_default().trim_end();
+        let code = rest.trim_start_matches(|x: char| x == ';' || x.is_whitespace());
+
+        let removed = TextSize::of(rest) - TextSize::of(code);
+        format_range = TextRange::new(format_range.start(), format_range.end() + removed);
+
+        if !code.is_empty() {
+            format_text.push('\n');
+        }
+    }
+
     let edits = to_proto::replace_range_edit(
         format_range,
         format_text,
@@ -210,6 +226,18 @@ where
     TextRange::new(start, end)
 }
 
+/// Does the `text` that `node` was formatted to end with one of its comments?
+fn ends_with_comment(node: &RSyntaxNode, text: &str) -> bool {
+    node.descendants_tokens(Direction::Next).any(|token| {
+        let leading = token.leading_trivia();
+        let trailing = token.trailing_trivia();
+        leading
+            .pieces()
+            .chain(trailing.pieces())
+            .any(|piece| piece.is_comments() && text.ends_with(piece.text().trim_end()))
+    })
+}
+
 /// Finds consecutive logical lines. Currently that's only expressions at
 /// top-level or in a braced list.
 fn find_deepest_enclosing_logical_lines(node: RSyntaxNode, range: TextRange) -> Vec<RSyntaxNode> {
-- 
2.43.0


From f97bf9a5de091accf75581c98cfdc2f56544d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 23/31] fix: leave documents of sibling folders alone in the
 workspace folder commands

A string prefix is not a parent folder: with `proj` chosen, dirty documents of
`proj-old` were saved too.
---
 editors/code/src/workspace.ts | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 8f8b3bf..9580916 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -184,7 +184,7 @@ function dirtyWorkspaceTextDocuments(
 			return false;
 		}
 
-		if (!document.uri.fsPath.startsWith(workspaceFolder.uri.fsPath)) {
+		if (!isWithin(document.uri.fsPath, workspaceFolder.uri.fsPath)) {
 			// The document must live "under" the chosen workspace folder for us to care about it
 			return false;
 		}
@@ -192,3 +192,18 @@ function dirtyWorkspaceTextDocuments(
 		return true;
 	});
 }
+
+/**
+ * Does `file` live in `folder`, or in one of its subfolders?
+ *
+ * This compares whole path components, `/a/project-old/x.R` isn't within
+ * `/a/project`.
+ */
+function isWithin(file: string, folder: string): boolean {
+	const relative = path.relative(folder, file);
+	return (
+		relative !== ".." &&
+		!relative.startsWith(".." + path.sep) &&
+		!path.isAbsolute(relative)
+	);
+}
-- 
2.43.0


From dcf5c54608b561c6f76d6e760d6bec58da83be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 24/31] fix: act on the selected workspace folder when names
 are not unique

The selection was matched back by name, which gave the first folder of that
name, whichever one was selected.
---
 editors/code/src/workspace.ts | 43 +++++++++++------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 9580916..0502e0c 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -1,7 +1,6 @@
 import path from "path";
 import * as vscode from "vscode";
 import * as fs from "fs-extra";
-import * as output from "./output";
 
 /*
  * Locate the "root" workspace folder
@@ -95,36 +94,20 @@ export async function selectWorkspaceFolder(): Promise<
 async function selectWorkspaceFolderFromQuickPick(
 	workspaceFolders: readonly vscode.WorkspaceFolder[],
 ): Promise<vscode.WorkspaceFolder | undefined> {
-	// Show the workspace names
-	const workspaceFolderNames = workspaceFolders.map(
-		(workspaceFolder) => workspaceFolder.name,
-	);
-
-	const workspaceFolderName = await vscode.window.showQuickPick(
-		workspaceFolderNames,
-		{
-			canPickMany: false,
-			title: "Select a workspace folder",
-		},
-	);
-
-	if (!workspaceFolderName) {
-		// User bailed from the quick pick
-		return undefined;
-	}
-
-	// Match selected name back to the workspace folder
-	for (let workspaceFolder of workspaceFolders) {
-		if (workspaceFolder.name === workspaceFolderName) {
-			return workspaceFolder;
-		}
-	}
+	// Show the workspace names and paths, names alone might not be unique
+	const items = workspaceFolders.map((workspaceFolder) => ({
+		label: workspaceFolder.name,
+		description: workspaceFolder.uri.fsPath,
+		workspaceFolder,
+	}));
+
+	const item = await vscode.window.showQuickPick(items, {
+		canPickMany: false,
+		title: "Select a workspace folder",
+	});
 
-	// Should never get here
-	output.log(
-		`Matched a workspace folder name, but unexpectedly can't find corresponding workspace folder. Folder name: ${workspaceFolderName}.`,
-	);
-	return undefined;
+	// `undefined` if the user bailed from the quick pick
+	return item?.workspaceFolder;
 }
 
 /**
-- 
2.43.0


From c02410792b062be7b8180e97ff2b31f82697c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 25/31] fix: give the server language specific configuration of
 open documents

A freshly parsed `Uri` is never identical to the one of a document, so no open
document was ever found and the value for all languages was sent.
---
 editors/code/src/lsp.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/lsp.ts b/editors/code/src/lsp.ts
index 6abe05b..de2cd38 100644
--- a/editors/code/src/lsp.ts
+++ b/editors/code/src/lsp.ts
@@ -162,7 +162,8 @@ export class Lsp {
 						// call `openDocument()` here, we just look for an
 						// already opened one.
 						const document = vscode.workspace.textDocuments.find(
-							(document) => document.uri === uri,
+							(document) =>
+								document.uri.toString() === uri.toString(),
 						);
 
 						// If there was no document, it means it was closed in
-- 
2.43.0


From 78875532bb6c1574f02af3765a95f2f3f9fe7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 26/31] fix: heed `air.addExecutableToTerminalPath`

The setting was read under a name that doesn't exist, so `PATH` was changed even
if the user had turned that off.
---
 editors/code/src/settings.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/settings.ts b/editors/code/src/settings.ts
index 74a49b8..b15e076 100644
--- a/editors/code/src/settings.ts
+++ b/editors/code/src/settings.ts
@@ -42,7 +42,8 @@ export function getWorkspaceSettings(
 		executableStrategy:
 			config.get<ExecutableStrategy>("executableStrategy") ?? "bundled",
 		executablePath: config.get<string>("executablePath"),
-		addExecutableToPath: config.get<boolean>("addExecutableToPath") ?? true,
+		addExecutableToPath:
+			config.get<boolean>("addExecutableToTerminalPath") ?? true,
 	};
 }
 
-- 
2.43.0


From 92288d324c4672798c72a1dbb8d00bb021c6b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 27/31] fix: apply synchronized settings to untitled editors
 too

The server sends settings for `untitled` documents, but they were kept under the
full URL and looked up by the path alone. The same goes for file paths on
Windows.
---
 editors/code/src/notification/sync-file-settings.ts | 8 ++++----
 editors/code/src/utils.ts                           | 9 ---------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/editors/code/src/notification/sync-file-settings.ts b/editors/code/src/notification/sync-file-settings.ts
index 5ac086a..1aa9608 100644
--- a/editors/code/src/notification/sync-file-settings.ts
+++ b/editors/code/src/notification/sync-file-settings.ts
@@ -1,6 +1,5 @@
 import * as vscode from "vscode";
 import * as lc from "vscode-languageclient/node";
-import { normalizePath } from "../utils";
 
 export interface SyncFileSettingsParams {
 	file_settings: FileSettings[];
@@ -26,6 +25,7 @@ export class FileSettingsState {
 	// handle background editors (e.g. editors in other groups), we need to
 	// maintain a map of file settings and query it when the visibility state of
 	// an editor changes.
+	// Keys are normalized URIs.
 	private settings = new Map<string, FileFormatSettings>();
 
 	constructor(context: vscode.ExtensionContext) {
@@ -43,8 +43,8 @@ export class FileSettingsState {
 		this.settings.clear();
 
 		for (const fileSettings of params.file_settings) {
-			const path = normalizePath(fileSettings.url);
-			this.settings.set(path, fileSettings.format);
+			const uri = vscode.Uri.parse(fileSettings.url);
+			this.settings.set(uri.toString(), fileSettings.format);
 		}
 
 		// Apply right away to the active text editor. We also have a handler
@@ -57,7 +57,7 @@ export class FileSettingsState {
 
 	public apply(editor: vscode.TextEditor) {
 		const uri = editor.document.uri;
-		const settings = this.settings.get(uri.path);
+		const settings = this.settings.get(uri.toString());
 
 		if (settings) {
 			const insertSpaces = settings.indent_style === "space";
diff --git a/editors/code/src/utils.ts b/editors/code/src/utils.ts
index c3ba2a2..12604b8 100644
--- a/editors/code/src/utils.ts
+++ b/editors/code/src/utils.ts
@@ -1,18 +1,9 @@
 import * as vscode from "vscode";
-import * as url from "url";
-import * as path from "path";
 
 export function sleep(ms: number) {
 	return new Promise((resolve) => setTimeout(resolve, ms));
 }
 
-export function normalizePath(file: string): string {
-	if (file.startsWith("file:///")) {
-		file = url.fileURLToPath(file);
-	}
-	return path.normalize(file);
-}
-
 /**
  * Determine whether or not a file exists
  *
-- 
2.43.0


From fe9ab30f525904ca55191f6b9deb704dde3e13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 28/31] fix: keep the bytes of `.Rbuildignore` when adding
 patterns to it

What isn't valid UTF-8, as in a Latin-1 file name, was replaced by U+FFFD, and a
byte order mark was dropped. Files with both line endings got a blank line and
patterns they already had.
---
 .../workspace-folder-initialization.ts        | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/editors/code/src/command/workspace-folder-initialization.ts b/editors/code/src/command/workspace-folder-initialization.ts
index 46008b6..b972b10 100644
--- a/editors/code/src/command/workspace-folder-initialization.ts
+++ b/editors/code/src/command/workspace-folder-initialization.ts
@@ -181,30 +181,22 @@ async function updateRbuildignore(
 	const content = new TextDecoder().decode(buffer);
 
 	const newline = content.includes("\r\n") ? "\r\n" : "\n";
-	const lines = content.split(newline);
+	const lines = content.split(/\r?\n/);
 
-	if (lines.at(-1) === "") {
-		// Drop final line if it's empty, i.e. we split on newlines and the
-		// file ended with a newline. This avoids writing a blank line between
-		// the existing content and our new lines.
-		lines.pop();
-	}
-
-	let anyMissing = false;
 	const patterns = ["^\\.vscode$", "^[.]?air[.]toml$"];
-
-	for (const pattern of patterns) {
-		const exists = lines.find((line) => line === pattern);
-
-		if (!exists) {
-			anyMissing = true;
-			lines.push(pattern);
-		}
-	}
-
-	if (anyMissing) {
-		const content = lines.join(newline) + newline;
-		const buffer = new TextEncoder().encode(content);
-		await vscode.workspace.fs.writeFile(rbuildignoreUri, buffer);
+	const missing = patterns.filter((pattern) => !lines.includes(pattern));
+
+	if (missing.length > 0) {
+		// Add to the existing bytes, rather than writing back what was decoded.
+		// The file doesn't need to be valid UTF-8.
+		const separator =
+			content === "" || content.endsWith("\n") ? "" : newline;
+		const addition = new TextEncoder().encode(
+			separator + missing.map((pattern) => pattern + newline).join(""),
+		);
+		await vscode.workspace.fs.writeFile(
+			rbuildignoreUri,
+			Buffer.concat([buffer, addition]),
+		);
 	}
 }
-- 
2.43.0


From bdc8ec6f26e8c3d40c76e3ae14c460005401689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 29/31] fix: accept the log level "warning" that the editor
 setting offers

`air.logLevel` can be set to "warning", which the server did not know: it
ignored the initialization options, or gave up on updating any of the
global settings when the configuration changed.
---
 crates/lsp/src/logging.rs    | 2 ++
 editors/code/src/settings.ts | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/logging.rs b/crates/lsp/src/logging.rs
index a69396b..a394d90 100644
--- a/crates/lsp/src/logging.rs
+++ b/crates/lsp/src/logging.rs
@@ -350,6 +350,8 @@ fn resolve_dependency_log_levels(dependency_log_levels: Option<String>) -> Optio
 #[serde(rename_all = "lowercase")]
 pub(crate) enum LogLevel {
     Error,
+    // The editors' `air.logLevel` settings call this one "warning"
+    #[serde(alias = "warning")]
     Warn,
     #[default]
     Info,
diff --git a/editors/code/src/settings.ts b/editors/code/src/settings.ts
index b15e076..af3a859 100644
--- a/editors/code/src/settings.ts
+++ b/editors/code/src/settings.ts
@@ -1,7 +1,7 @@
 import * as vscode from "vscode";
 import { ExecutableStrategy } from "./binary";
 
-type LogLevel = "error" | "warn" | "info" | "debug" | "trace";
+type LogLevel = "error" | "warning" | "info" | "debug" | "trace";
 
 // This is a direct representation of the Client settings sent to the Server in the
 // `initializationOptions` field of `InitializeParams`. These are only pulled at the
-- 
2.43.0


From db7b1e59e0085d5ae2c66b7e0f18d33d038bab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:20 +0000
Subject: [PATCH 30/31] fix: report formatted text that can't be written to
 standard output

Text without a final newline stays in the buffer of standard output until
the program exits, where errors are ignored.
---
 crates/air/src/commands/format/stdin.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/air/src/commands/format/stdin.rs b/crates/air/src/commands/format/stdin.rs
index 23238dd..a7dbea4 100644
--- a/crates/air/src/commands/format/stdin.rs
+++ b/crates/air/src/commands/format/stdin.rs
@@ -96,9 +96,13 @@ fn format_stdin_write<P: AsRef<Path>>(
         FormattedStdin::Unchanged(unchanged) => unchanged,
     };
 
-    std::io::stdout()
-        .lock()
+    let mut stdout = std::io::stdout().lock();
+
+    // Flush explicitly, otherwise an incomplete last line is only written at exit, where
+    // errors go unnoticed
+    stdout
         .write_all(buffer.as_bytes())
+        .and_then(|()| stdout.flush())
         .map_err(FormatStdinError::Write)
 }
 
-- 
2.43.0


From 47eb6074f24e9837166d82ff9aa39988a9252c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:17 +0000
Subject: [PATCH 31/31] fix: don't hug arguments behind a comment

The comment behind the opening delimiter ended up there again, but the
argument on the next line wasn't indented.
---
 crates/air_r_formatter/src/r/auxiliary/call_arguments.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index 2af81c1..6e239cb 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -1038,7 +1038,7 @@ impl Format<RFormatContext> for FormatAllArgsBrokenOut<'_> {
             Ok(())
         });
 
-        let args = if !self.expand && is_hugging_call(self.args, self.call.r_token())? {
+        let args = if !self.expand && is_hugging_call(self.args, self.call.r_token(), f.comments())? {
             Either::Left(args)
         } else {
             Either::Right(soft_block_indent(&args))
@@ -1061,6 +1061,7 @@ impl Format<RFormatContext> for FormatAllArgsBrokenOut<'_> {
 fn is_hugging_call(
     items: &[FormatCallArgument],
     r_token: SyntaxResult<RSyntaxToken>,
+    comments: &RComments,
 ) -> SyntaxResult<bool> {
     // We only consider calls with one argument
     let Some(item) = items.first() else {
@@ -1072,6 +1073,11 @@ fn is_hugging_call(
 
     let arg = item.element().node()?;
 
+    // Comments on the argument itself may have been moved there from the `l_token`
+    if comments.has_comments(arg.syntax()) {
+        return Ok(false);
+    }
+
     // We only consider hugging for an unnamed argument
     // (Particularly meaningful for `mutate(key = value)` where you don't expect hugging)
     if arg.name_clause().is_some() {
-- 
2.43.0

