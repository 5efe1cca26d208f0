From f2dba10bbe897f5be4383b34fefc54c88c5ecb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 01/69] fix: keep backslash escapes of punctuation as written

---
 src/serializer/inline.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..8f3077e 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -326,21 +326,10 @@ impl<'a> Serializer<'a> {
                     let escaped_char = source_chars[source_idx + 1];
                     if escaped_char == text_char {
                         // The escape in source corresponds to this character in text
-                        // Check if this character actually needs escaping in Markdown
-                        let escaped_form = escape::escape_text(&text_char.to_string());
-                        let needs_escaping =
-                            escaped_form.len() > 1 && escaped_form.starts_with('\\');
-
-                        if needs_escaping {
-                            // Preserve the escape from source (e.g., \_ → \_)
-                            result.push('\\');
-                            result.push(escaped_char);
-                        } else {
-                            // Character doesn't need escaping, so backslash should be literal
-                            // Output escaped backslash + character (e.g., \U → \\U)
-                            result.push_str("\\\\");
-                            result.push(text_char);
-                        }
+                        // Preserve the escape from source (e.g., \_ → \_): without it the
+                        // character might start a block, a link, or other markup
+                        result.push('\\');
+                        result.push(escaped_char);
                         text_idx += 1;
                         source_idx += 2;
                     } else {
-- 
2.43.0


From 440062b6e36886a4352a1fbf272de959d61d489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 02/69] fix: escape link titles and destinations so that they
 are read back unchanged

---
 src/serializer/escape.rs | 54 ++++++++++++++++++++++++++++++++++++++++
 src/serializer/inline.rs |  8 ++----
 src/serializer/link.rs   | 25 ++++++-------------
 src/serializer/mod.rs    |  8 ++----
 4 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 44b29e4..592bf41 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -115,6 +115,60 @@ pub fn format_code_span(content: &str) -> String {
     }
 }
 
+/// Append a link title, quoted, to the output. Nothing is written for an empty title.
+/// Double quotes and backslashes inside the title are escaped so that the title
+/// is read back unchanged.
+pub fn push_link_title(output: &mut String, title: &str) {
+    if title.is_empty() {
+        return;
+    }
+    output.push_str(" \"");
+    let mut chars = title.chars().peekable();
+    while let Some(ch) = chars.next() {
+        let next_is_punctuation = chars.peek().is_none_or(|c| c.is_ascii_punctuation());
+        if ch == '"' || (ch == '\\' && next_is_punctuation) {
+            output.push('\\');
+        }
+        output.push(if ch == '\n' { ' ' } else { ch });
+    }
+    output.push('"');
+}
+
+/// Append a link destination to the output. Destinations that would not be read
+/// back as a single unit (empty, containing spaces, or with unbalanced parentheses)
+/// are enclosed in angle brackets.
+pub fn push_link_destination(output: &mut String, url: &str) {
+    let mut depth: i32 = 0;
+    let mut balanced = true;
+    for ch in url.chars() {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => {}
+        }
+        balanced &= (0..=30).contains(&depth);
+    }
+    balanced &= depth == 0;
+    let bracketed = !balanced
+        || url.is_empty()
+        || url.starts_with('<')
+        || url.chars().any(|c| c == ' ' || c.is_ascii_control());
+    if bracketed {
+        output.push('<');
+    }
+    let mut chars = url.chars().peekable();
+    while let Some(ch) = chars.next() {
+        let next_is_punctuation = chars.peek().is_some_and(|c| c.is_ascii_punctuation());
+        if (ch == '\\' && next_is_punctuation) || (bracketed && matches!(ch, '<' | '>')) {
+            output.push('\\');
+        }
+        output.push(ch);
+    }
+    if bracketed {
+        output.push('>');
+    }
+}
+
 /// Check if a string is a valid code span (starts and ends with matching backticks).
 /// This is used to validate source extraction results, since comrak may provide
 /// incorrect sourcepos for code spans containing escaped pipe characters in tables.
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 8f3077e..ec70f06 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -223,12 +223,8 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_node(child, content);
                     }
                     content.push_str("](");
-                    content.push_str(&link.url);
-                    if !link.title.is_empty() {
-                        content.push_str(" \"");
-                        content.push_str(&link.title);
-                        content.push('"');
-                    }
+                    escape::push_link_destination(content, &link.url);
+                    escape::push_link_title(content, &link.title);
                     content.push(')');
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..e989ae1 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
+use super::escape;
 
 impl<'a> Serializer<'a> {
     /// Format a reference-style link and write to output buffer.
@@ -46,12 +47,8 @@ impl<'a> Serializer<'a> {
         output.push('[');
         output.push_str(text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        escape::push_link_destination(output, url);
+        escape::push_link_title(output, title);
         output.push(')');
     }
 
@@ -142,12 +139,8 @@ impl<'a> Serializer<'a> {
         output.push_str("![");
         output.push_str(alt_text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        escape::push_link_destination(output, url);
+        escape::push_link_title(output, title);
         output.push(')');
     }
 
@@ -188,12 +181,8 @@ impl<'a> Serializer<'a> {
                 self.serialize_node(child);
             }
             self.output.push_str("](");
-            self.output.push_str(url);
-            if !title.is_empty() {
-                self.output.push_str(" \"");
-                self.output.push_str(title);
-                self.output.push('"');
-            }
+            escape::push_link_destination(&mut self.output, url);
+            escape::push_link_title(&mut self.output, title);
             self.output.push(')');
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..2db211f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -252,12 +252,8 @@ impl<'a> Serializer<'a> {
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
-        output.push_str(&reference.url);
-        if !reference.title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(&reference.title);
-            output.push('"');
-        }
+        escape::push_link_destination(output, &reference.url);
+        escape::push_link_title(output, &reference.title);
         output.push('\n');
     }
 
-- 
2.43.0


From 887e602af7037de4b39aa975ac02130b546121fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 03/69] fix: write only real autolinks as autolinks, and keep
 email autolinks

---
 src/serializer/inline.rs |  4 ++--
 src/serializer/link.rs   | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index ec70f06..1f58e0c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -190,7 +190,7 @@ impl<'a> Serializer<'a> {
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink = self.is_autolink(node, &raw_text, &link.url, &link.title);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
@@ -227,7 +227,7 @@ impl<'a> Serializer<'a> {
                     escape::push_link_title(content, &link.title);
                     content.push(')');
                 } else if is_autolink {
-                    Self::format_autolink(content, &link.url);
+                    Self::format_autolink(content, &raw_text);
                 } else if Self::is_external_url(&link.url) {
                     // External URL: collect link text first
                     let mut link_text = String::new();
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index e989ae1..8830f24 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -52,6 +52,36 @@ impl<'a> Serializer<'a> {
         output.push(')');
     }
 
+    /// Whether a link should be written as an autolink (`<url>`): it was one in the
+    /// source, or its text is its URL and that URL is absolute.
+    pub(super) fn is_autolink<'b>(
+        &self,
+        node: &'b AstNode<'b>,
+        text: &str,
+        url: &str,
+        title: &str,
+    ) -> bool {
+        if !title.is_empty() || text.is_empty() {
+            return false;
+        }
+        if text != url {
+            // Email autolinks: <user@example.com> links to mailto:user@example.com
+            return url.strip_prefix("mailto:") == Some(text)
+                && self
+                    .extract_source(node)
+                    .is_some_and(|source| source.starts_with('<') && source.ends_with('>'));
+        }
+        let Some((scheme, rest)) = url.split_once(':') else {
+            return false;
+        };
+        (2..=32).contains(&scheme.len())
+            && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+            && scheme
+                .chars()
+                .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '.' | '-'))
+            && !rest.contains(|c: char| c == ' ' || c.is_ascii_control() || c == '<' || c == '>')
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -152,7 +182,7 @@ impl<'a> Serializer<'a> {
 
         // Check if this is an autolink (link text equals URL)
         let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = self.is_autolink(node, &raw_text, url, title);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
@@ -185,7 +215,7 @@ impl<'a> Serializer<'a> {
             escape::push_link_title(&mut self.output, title);
             self.output.push(')');
         } else if is_autolink {
-            Self::format_autolink(&mut self.output, url);
+            Self::format_autolink(&mut self.output, &raw_text);
         } else if Self::is_external_url(url) {
             let link_text = self.collect_text(node);
             let mut output = String::new();
-- 
2.43.0


From 721d577e0de1e93ad489d2ef434cd75a165058ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 04/69] fix: never wrap inside code spans and link titles or
 before block markup

---
 src/serializer/wrap.rs | 216 ++++++++++++++++++++++++++++-------------
 1 file changed, 148 insertions(+), 68 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..703fbed 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -53,7 +53,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = original_lines[i].trim_matches([' ', '\t']);
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -69,7 +69,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches([' ', '\t']);
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -155,7 +155,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = original_lines[i].trim_matches([' ', '\t']);
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -177,7 +177,7 @@ fn wrap_text_first_line_segment(
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches([' ', '\t']);
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -221,71 +221,30 @@ pub fn wrap_single_segment(
     // - Content inside backticks (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
-    let chars = text.chars();
+    let chars: Vec<char> = text.chars().collect();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
-    let mut in_backticks = false;
-    let mut bracket_depth = 0;
-
-    for ch in chars {
-        if ch == '`' && bracket_depth == 0 {
-            if in_backticks {
-                // End of backtick region
-                current_token.push(ch);
-                in_backticks = false;
-            } else {
-                // Start of backtick region - include any accumulated content first
-                if !current_token.is_empty() && !trailing_spaces.is_empty() {
-                    // We have a previous word, output it
-                    add_token_to_line_with_prefix(
-                        &mut result,
-                        &mut current_line,
-                        &current_token,
-                        &trailing_spaces,
-                        first_prefix_width,
-                        prefix,
-                        line_width,
-                        &mut is_first_line,
-                    );
-                    current_token.clear();
-                    trailing_spaces.clear();
-                }
-                current_token.push(ch);
-                in_backticks = true;
-            }
-        } else if in_backticks {
-            // Inside backticks, everything is part of the token
-            current_token.push(ch);
-        } else if ch == '[' {
-            // Start of bracket region
-            if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
-                // Output previous token before starting bracket
-                add_token_to_line_with_prefix(
-                    &mut result,
-                    &mut current_line,
-                    &current_token,
-                    &trailing_spaces,
-                    first_prefix_width,
-                    prefix,
-                    line_width,
-                    &mut is_first_line,
-                );
-                current_token.clear();
-                trailing_spaces.clear();
-            }
-            current_token.push(ch);
-            bracket_depth += 1;
-        } else if ch == ']' && bracket_depth > 0 {
-            // End of bracket region (or nested bracket)
-            current_token.push(ch);
-            bracket_depth -= 1;
-        } else if bracket_depth > 0 {
-            // Inside brackets, everything is part of the token
-            current_token.push(ch);
-        } else if ch == ' ' {
+    let mut pos = 0;
+
+    while pos < chars.len() {
+        let ch = chars[pos];
+        if ch != ' '
+            && !current_token.is_empty()
+            && !trailing_spaces.is_empty()
+            && starts_block(&chars[pos..])
+        {
+            // Breaking the line here would turn the text into block markup:
+            // keep it on the same line as the previous word
+            current_token.push_str(&trailing_spaces);
+            trailing_spaces.clear();
+        }
+        // The end of the unbreakable unit (code span, bracketed text, or a single
+        // character) that starts here
+        let end = unit_end(&chars, pos);
+        if ch == ' ' {
             trailing_spaces.push(ch);
         } else {
-            // Regular character outside backticks and brackets
+            // A character or unit that belongs to a word
             if !current_token.is_empty() && !trailing_spaces.is_empty() {
                 // We have a previous word with trailing spaces, output it
                 add_token_to_line_with_prefix(
@@ -301,8 +260,9 @@ pub fn wrap_single_segment(
                 current_token.clear();
                 trailing_spaces.clear();
             }
-            current_token.push(ch);
+            current_token.extend(&chars[pos..end]);
         }
+        pos = end;
     }
 
     // Handle the last token
@@ -320,7 +280,7 @@ pub fn wrap_single_segment(
     }
 
     // Add the last line (trim trailing spaces)
-    let final_line = current_line.trim_end();
+    let final_line = current_line.trim_end_matches(' ');
     if !final_line.is_empty() {
         result.push_str(final_line);
     }
@@ -357,7 +317,7 @@ fn add_token_to_line_with_prefix(
         current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
-        let trimmed = current_line.trim_end();
+        let trimmed = current_line.trim_end_matches(' ');
         result.push_str(trimmed);
         result.push('\n');
         *current_line = String::from(prefix);
@@ -366,3 +326,123 @@ fn add_token_to_line_with_prefix(
         *is_first_line = false;
     }
 }
+
+/// The end (exclusive) of the unbreakable unit that starts at `pos`.
+///
+/// Code spans, bracketed text (with the destination and title that follow it), and
+/// backslash escapes are units; any other character is a unit of its own.
+fn unit_end(chars: &[char], pos: usize) -> usize {
+    match chars[pos] {
+        '\\' if chars.get(pos + 1).is_some_and(|&c| c != ' ') => pos + 2,
+        '`' => code_span_end(chars, pos),
+        '[' => {
+            let mut depth = 0;
+            let mut i = pos;
+            while i < chars.len() {
+                match chars[i] {
+                    '[' => depth += 1,
+                    ']' => depth -= 1,
+                    '\\' => i += 1,
+                    '`' => i = code_span_end(chars, i) - 1,
+                    _ => {}
+                }
+                i += 1;
+                if depth == 0 {
+                    return link_target_end(chars, i);
+                }
+            }
+            // Never closed: an ordinary character
+            pos + 1
+        }
+        _ => pos + 1,
+    }
+}
+
+/// The end of the code span that starts at `pos`, or of the run of backticks if
+/// nothing closes it.
+fn code_span_end(chars: &[char], pos: usize) -> usize {
+    let run_length = |from: usize| chars[from..].iter().take_while(|&&c| c == '`').count();
+    let opening = run_length(pos);
+    let mut i = pos + opening;
+    while i < chars.len() {
+        if chars[i] == '`' {
+            let closing = run_length(i);
+            i += closing;
+            if closing == opening {
+                return i;
+            }
+        } else {
+            i += 1;
+        }
+    }
+    pos + opening
+}
+
+/// The end of the link target `(destination "title")` that starts at `pos`, or `pos`
+/// if there is none.
+fn link_target_end(chars: &[char], pos: usize) -> usize {
+    if chars.get(pos) != Some(&'(') {
+        return pos;
+    }
+    let mut depth = 0;
+    let mut i = pos;
+    while i < chars.len() {
+        match chars[i] {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            '\\' => i += 1,
+            '"' if chars[i - 1] == ' ' => {
+                i += 1;
+                while i < chars.len() && chars[i] != '"' {
+                    i += if chars[i] == '\\' { 2 } else { 1 };
+                }
+            }
+            _ => {}
+        }
+        i += 1;
+        if depth == 0 {
+            return i.min(chars.len());
+        }
+    }
+    pos
+}
+
+/// Whether text would be read as block markup, or as an underline of the previous
+/// line, if it stood at the beginning of a paragraph continuation line.
+fn starts_block(chars: &[char]) -> bool {
+    let word: String = chars.iter().take_while(|&&c| c != ' ').collect();
+    let ordered_marker = || {
+        word.strip_suffix(['.', ')'])
+            .is_some_and(|n| n.len() <= 9 && n.parse::<u32>() == Ok(1))
+    };
+    word.starts_with('>')
+        || matches!(word.as_str(), "+" | "*" | ":")
+        || word.starts_with("~~~")
+        || word.starts_with("```")
+        || word.starts_with("<!")
+        || word.starts_with("<?")
+        || starts_html_block(&word)
+        || (word.starts_with("[^") && word.contains("]:"))
+        || (word.len() <= 6 && word.chars().all(|c| c == '#'))
+        || word.chars().all(|c| matches!(c, '-' | '=' | '|' | ':'))
+        || ordered_marker()
+}
+
+/// Whether a word starts with an HTML tag that can interrupt a paragraph.
+fn starts_html_block(word: &str) -> bool {
+    const TAGS: &str = " address article aside base basefont blockquote body caption center col \
+        colgroup dd details dialog dir div dl dt fieldset figcaption figure footer form frame \
+        frameset h1 h2 h3 h4 h5 h6 head header hr html iframe legend li link main menu menuitem \
+        nav noframes ol optgroup option p param pre script search section source style summary \
+        table tbody td template textarea tfoot th thead title tr track ul ";
+    let Some(rest) = word.strip_prefix('<') else {
+        return false;
+    };
+    let name: String = rest
+        .strip_prefix('/')
+        .unwrap_or(rest)
+        .chars()
+        .take_while(|c| c.is_ascii_alphanumeric())
+        .collect();
+    !name.is_empty() && TAGS.contains(&format!(" {} ", name.to_ascii_lowercase()))
+}
-- 
2.43.0


From 05ba0c96d503f289ed1e4015f99cf7c8d13ad9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 05/69] fix: keep custom alert titles

---
 src/serializer/block.rs | 13 +++++++++----
 src/serializer/mod.rs   |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..99613d7 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,6 +1,6 @@
 //! Block quote and alert serialization logic.
 
-use comrak::nodes::{AlertType, AstNode};
+use comrak::nodes::{AlertType, AstNode, NodeAlert};
 
 use super::Serializer;
 
@@ -86,9 +86,9 @@ impl<'a> Serializer<'a> {
         self.exit_blockquote_context(state);
     }
 
-    pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert_type: AlertType) {
+    pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert: &NodeAlert) {
         // Output the alert header
-        let type_str = match alert_type {
+        let type_str = match alert.alert_type {
             AlertType::Note => "NOTE",
             AlertType::Tip => "TIP",
             AlertType::Important => "IMPORTANT",
@@ -99,7 +99,12 @@ impl<'a> Serializer<'a> {
         self.output.push_str(&self.blockquote_prefix);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
-        self.output.push_str("]\n");
+        self.output.push(']');
+        if let Some(title) = &alert.title {
+            self.output.push(' ');
+            self.output.push_str(&title.replace('\\', "\\\\"));
+        }
+        self.output.push('\n');
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 2db211f..e6f9c91 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -574,7 +574,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_description_details(node);
             }
             NodeValue::Alert(alert) => {
-                self.serialize_alert(node, alert.alert_type);
+                self.serialize_alert(node, alert);
             }
             NodeValue::Item(_) => {
                 self.serialize_list_item(node, None);
-- 
2.43.0


From 1423b080fc429dcadf74a5a44250e462592e7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 06/69] fix: keep block content, hard breaks and spacing of
 footnotes

---
 src/serializer/mod.rs | 91 +++++++++++--------------------------------
 1 file changed, 22 insertions(+), 69 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index e6f9c91..ebe35af 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -20,7 +20,6 @@ pub use state::CodeFormatterCallback;
 pub use state::{ReferenceLink, Serializer, Warning};
 
 use comrak::nodes::{AstNode, NodeValue};
-use unicode_width::UnicodeWidthStr;
 
 use crate::Options;
 
@@ -403,6 +402,12 @@ impl<'a> Serializer<'a> {
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
+            // Blocks indented by 8 columns or more would become code blocks
+            let continuation_indent = if continuation_indent.len() < 8 {
+                continuation_indent.as_str()
+            } else {
+                "    "
+            };
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
@@ -413,7 +418,7 @@ impl<'a> Serializer<'a> {
                     self.output.push_str("");
                 } else {
                     // Add continuation indent
-                    self.output.push_str(&continuation_indent);
+                    self.output.push_str(continuation_indent);
                     self.output.push_str(line);
                 }
                 self.output.push('\n');
@@ -421,59 +426,19 @@ impl<'a> Serializer<'a> {
             return;
         }
 
-        // Wrap content at line_width, accounting for prefix on first line
-        let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
-
-        // Replace SoftBreak marker (\x00) with space before processing
+        // Replace SoftBreak marker (\x00) with space before wrapping at line_width
         let content = footnote.content.replace('\x00', " ");
-        let words: Vec<&str> = content.split_whitespace().collect();
-        if words.is_empty() {
+        let wrapped = wrap::wrap_text_first_line(
+            &content,
+            &prefix,
+            &continuation_indent,
+            self.options.line_width.get(),
+        );
+        self.output.push_str(&wrapped);
+        if wrapped.is_empty() {
             self.output.push_str(&prefix);
-            self.output.push('\n');
-            return;
-        }
-
-        let mut lines: Vec<String> = Vec::new();
-        let mut current_line = String::new();
-        let mut is_first_line = true;
-
-        for word in words {
-            let max_width = if is_first_line {
-                first_line_width
-            } else {
-                continuation_width
-            };
-
-            if current_line.is_empty() {
-                current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width {
-                current_line.push(' ');
-                current_line.push_str(word);
-            } else {
-                // Line is full, start a new one
-                lines.push(current_line);
-                current_line = word.to_string();
-                is_first_line = false;
-            }
-        }
-
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
-
-        // Output lines
-        for (i, line) in lines.iter().enumerate() {
-            if i == 0 {
-                self.output.push_str(&prefix);
-                self.output.push_str(line);
-            } else {
-                self.output.push_str(&continuation_indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
         }
+        self.output.push('\n');
     }
 
     /// Serialize footnote content that contains block elements.
@@ -640,23 +605,11 @@ impl<'a> Serializer<'a> {
 
                 // Check if footnote contains block elements (code blocks, lists, etc.)
                 let has_blocks = {
-                    let children: Vec<_> = node.children().collect();
-                    // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
-                    // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
-                        .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
+                    // Has blocks unless it is a single paragraph
+                    node.children().count() > 1
+                        || node.children().any(|child| {
+                            !matches!(&child.data.borrow().value, NodeValue::Paragraph)
+                        })
                 };
 
                 // Collect content from children
-- 
2.43.0


From c9f2260f339f291a7b9f63902d1505c432b4e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 07/69] fix: separate trailing HTML blocks with a blank line

---
 src/serializer/document.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index fe9398d..5df93a3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -270,23 +270,25 @@ impl<'a> Serializer<'a> {
         start_index: usize,
     ) {
         let mut is_first = true;
+        let mut prev_end_line = 0;
         for (i, child) in children.iter().enumerate() {
             if i < start_index {
                 continue;
             }
 
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
-                // Add a blank line before the first trailing HTML block
+                // Add a blank line before the first trailing HTML block, and between
+                // blocks that are not on adjacent lines
+                let sourcepos = child.data.borrow().sourcepos;
                 if is_first {
-                    if !self.output.ends_with("\n\n") {
-                        if self.output.ends_with('\n') {
-                            self.output.push('\n');
-                        } else {
-                            self.output.push_str("\n\n");
-                        }
+                    if !self.output.is_empty() {
+                        self.ensure_blank_line();
                     }
                     is_first = false;
+                } else if sourcepos.start.line > prev_end_line + 1 {
+                    self.ensure_blank_line();
                 }
+                prev_end_line = sourcepos.end.line;
                 self.output.push_str(&html_block.literal);
             }
         }
-- 
2.43.0


From 3f51721094030d864fcf75384289b53e62a10e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 08/69] fix: keep inline HTML and footnote references in
 headings

---
 src/serializer/inline.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 1f58e0c..d9222fd 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -111,6 +111,15 @@ impl<'a> Serializer<'a> {
                 let alt_text = self.collect_raw_text(node);
                 Self::format_inline_image(text, &alt_text, &image.url, &image.title);
             }
+            NodeValue::HtmlInline(html) => {
+                // Preserve inline HTML as-is
+                text.push_str(html);
+            }
+            NodeValue::FootnoteReference(footnote_ref) => {
+                text.push_str("[^");
+                text.push_str(&footnote_ref.name);
+                text.push(']');
+            }
             _ => {
                 for child in node.children() {
                     self.collect_text_recursive(child, text);
-- 
2.43.0


From d662fb1f3779b89e0a04e26af188e69ca72e9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 09/69] fix: keep the prefixes of nested block quotes, lists
 and their blocks

---
 src/serializer/block.rs    |  73 ++++++++++++++++++--------
 src/serializer/code.rs     |  22 ++++----
 src/serializer/document.rs |  14 ++---
 src/serializer/list.rs     | 105 ++++++++++++++-----------------------
 src/serializer/mod.rs      |   1 -
 src/serializer/state.rs    |   8 +--
 src/serializer/table.rs    |   6 +--
 7 files changed, 109 insertions(+), 120 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 99613d7..7055c6a 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,6 +1,6 @@
 //! Block quote and alert serialization logic.
 
-use comrak::nodes::{AlertType, AstNode, NodeAlert};
+use comrak::nodes::{AlertType, AstNode, NodeAlert, NodeValue};
 
 use super::Serializer;
 
@@ -8,13 +8,10 @@ use super::Serializer;
 struct BlockquoteState {
     was_in_block_quote: bool,
     old_blockquote_prefix: String,
-    old_blockquote_outer_indent: String,
     old_blockquote_entry_list_depth: usize,
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
-    /// The list item indent before entering blockquote context (for separator lines).
-    indent: String,
 }
 
 impl<'a> Serializer<'a> {
@@ -24,18 +21,12 @@ impl<'a> Serializer<'a> {
         self.in_block_quote = true;
 
         let old_blockquote_prefix = self.blockquote_prefix.clone();
+        self.blockquote_prefix.push_str(&self.list_item_indent);
         self.blockquote_prefix.push_str("> ");
 
-        let old_blockquote_outer_indent = std::mem::replace(
-            &mut self.blockquote_outer_indent,
-            self.list_item_indent.clone(),
-        );
-
         let old_blockquote_entry_list_depth =
             std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
 
-        let indent = self.list_item_indent.clone();
-
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
@@ -43,12 +34,10 @@ impl<'a> Serializer<'a> {
         BlockquoteState {
             was_in_block_quote,
             old_blockquote_prefix,
-            old_blockquote_outer_indent,
             old_blockquote_entry_list_depth,
             old_list_item_indent,
             old_list_type,
             old_list_depth,
-            indent,
         }
     }
 
@@ -57,7 +46,6 @@ impl<'a> Serializer<'a> {
         self.list_depth = state.old_list_depth;
         self.list_type = state.old_list_type;
         self.list_item_indent = state.old_list_item_indent;
-        self.blockquote_outer_indent = state.old_blockquote_outer_indent;
         self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
         self.blockquote_prefix = state.old_blockquote_prefix;
         self.in_block_quote = state.was_in_block_quote;
@@ -67,22 +55,61 @@ impl<'a> Serializer<'a> {
     fn serialize_blockquote_children<'b>(
         &mut self,
         children: &[&'b AstNode<'b>],
-        state: &BlockquoteState,
     ) {
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
-                self.output.push_str(&state.indent);
-                self.output.push_str(&state.old_blockquote_prefix);
-                self.output.push_str(">\n");
+                self.push_blank_quote_line();
+            }
+            match &child.data.borrow().value {
+                NodeValue::Heading(_) | NodeValue::HtmlBlock(_) => {
+                    // These know nothing of the quote around them
+                    let prefix = self.blockquote_prefix.clone();
+                    let block = self.capture_node(child);
+                    self.push_prefixed_lines(&block, &prefix, &prefix);
+                }
+                _ => self.serialize_node(child),
+            }
+        }
+    }
+
+    /// Output a blank line that keeps the surrounding block quote (if any) open.
+    pub(super) fn push_blank_quote_line(&mut self) {
+        self.output.push_str(self.blockquote_prefix.trim_end());
+        self.output.push('\n');
+    }
+
+    /// Serialize a node as if there were no block quotes and lists around it, without
+    /// writing it to the output.
+    pub(super) fn capture_node<'b>(&mut self, node: &'b AstNode<'b>) -> String {
+        let old_output = std::mem::take(&mut self.output);
+        let old_in_description_details = std::mem::take(&mut self.in_description_details);
+        let state = self.enter_blockquote_context();
+        self.in_block_quote = false;
+        self.blockquote_prefix.clear();
+        self.serialize_node(node);
+        self.exit_blockquote_context(state);
+        self.in_description_details = old_in_description_details;
+        std::mem::replace(&mut self.output, old_output)
+    }
+
+    /// Output the lines of a block, the first one after `first` and the others after `prefix`.
+    pub(super) fn push_prefixed_lines(&mut self, block: &str, first: &str, prefix: &str) {
+        for (i, line) in block.lines().enumerate() {
+            let prefix = if i == 0 { first } else { prefix };
+            if line.is_empty() {
+                self.output.push_str(prefix.trim_end());
+            } else {
+                self.output.push_str(prefix);
+                self.output.push_str(line);
             }
-            self.serialize_node(child);
+            self.output.push('\n');
         }
     }
 
     pub(super) fn serialize_block_quote<'b>(&mut self, node: &'b AstNode<'b>) {
         let state = self.enter_blockquote_context();
         let children: Vec<_> = node.children().collect();
-        self.serialize_blockquote_children(&children, &state);
+        self.serialize_blockquote_children(&children);
         self.exit_blockquote_context(state);
     }
 
@@ -95,8 +122,8 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
-        self.output.push_str(&self.list_item_indent);
         self.output.push_str(&self.blockquote_prefix);
+        self.output.push_str(&self.list_item_indent);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
         self.output.push(']');
@@ -117,13 +144,13 @@ impl<'a> Serializer<'a> {
         };
 
         if has_blank_after_header {
-            self.output.push_str(&self.list_item_indent);
             self.output.push_str(&self.blockquote_prefix);
+            self.output.push_str(&self.list_item_indent);
             self.output.push_str(">\n");
         }
 
         let state = self.enter_blockquote_context();
-        self.serialize_blockquote_children(&children, &state);
+        self.serialize_blockquote_children(&children);
         self.exit_blockquote_context(state);
     }
 }
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..026baa0 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -187,7 +187,7 @@ impl<'a> Serializer<'a> {
 
         // Opening fence
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(&fence);
         if !output_info.is_empty() {
@@ -202,9 +202,9 @@ impl<'a> Serializer<'a> {
         for line in content.lines() {
             if self.in_block_quote {
                 if line.is_empty() {
-                    self.output.push('>');
+                    self.output.push_str(self.blockquote_prefix.trim_end());
                 } else {
-                    self.output.push_str("> ");
+                    self.output.push_str(&self.blockquote_prefix);
                 }
             }
             self.output.push_str(line);
@@ -213,7 +213,7 @@ impl<'a> Serializer<'a> {
 
         // Closing fence
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(&fence);
         self.output.push('\n');
@@ -286,19 +286,19 @@ impl<'a> Serializer<'a> {
 
         // Output content with indentation (skip indent for empty lines)
         for line in content.lines() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
-            if !line.is_empty() {
-                self.output.push_str(indent);
-                self.output.push_str(line);
+            if line.is_empty() {
+                self.push_blank_quote_line();
+                continue;
             }
+            self.output.push_str(&self.blockquote_prefix);
+            self.output.push_str(indent);
+            self.output.push_str(line);
             self.output.push('\n');
         }
 
         // Output closing fence with indentation
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(indent);
         self.output.push_str(&fence);
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 5df93a3..78c95c3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -303,7 +303,7 @@ impl<'a> Serializer<'a> {
 
         // Determine the prefix for blockquote context
         let blockquote_prefix = if self.in_block_quote {
-            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+            self.blockquote_prefix.clone()
         } else {
             String::new()
         };
@@ -504,12 +504,7 @@ impl<'a> Serializer<'a> {
             };
             let continuation = if self.in_block_quote {
                 // Inside a blockquote, continuation lines need > prefix + indent
-                // Use blockquote_outer_indent (the outer list's indent, if any)
-                // rather than list_item_indent (which is for the list inside the blockquote)
-                format!(
-                    "{}{}{}",
-                    self.blockquote_outer_indent, self.blockquote_prefix, base_indent
-                )
+                format!("{}{}", self.blockquote_prefix, base_indent)
             } else {
                 base_indent
             };
@@ -523,7 +518,7 @@ impl<'a> Serializer<'a> {
         } else {
             // Not in a list - wrap the paragraph at line_width
             let prefix = if self.in_block_quote {
-                format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+                self.blockquote_prefix.clone()
             } else {
                 String::new()
             };
@@ -866,8 +861,7 @@ impl<'a> Serializer<'a> {
 
         // Determine the prefix based on blockquote context
         if self.in_block_quote {
-            let prefix = format!("{}> ", self.blockquote_outer_indent);
-            self.output.push_str(&prefix);
+            self.output.push_str(&self.blockquote_prefix);
         }
 
         // Add leading spaces
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 33c63d9..d29fce9 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -75,12 +75,12 @@ impl<'a> Serializer<'a> {
 
         // For loose lists, add a blank line before items (except the first)
         if !self.list_tight && self.list_item_index > 1 {
-            self.output.push('\n');
+            self.push_blank_quote_line();
         }
 
         // Add block quote prefix if we're inside a block quote
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
 
         // Check if this is the first item of a list that starts on the same line as `:` in
@@ -211,80 +211,63 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
 
+        let line_prefix = format!("{}{}", self.blockquote_prefix, base_indent);
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
-            match &child.data.borrow().value {
-                NodeValue::List(_) => {
-                    // Check if there's a blank line before this nested list in the original
-                    let has_blank_line_before = if i > 0 {
-                        let prev_child = children[i - 1];
-                        let prev_end_line = prev_child.data.borrow().sourcepos.end.line;
-                        let curr_start_line = child.data.borrow().sourcepos.start.line;
-                        // More than one line difference means there's a blank line
-                        curr_start_line > prev_end_line + 1
-                    } else {
-                        false
-                    };
+            let child_value = &child.data.borrow().value;
 
-                    if has_blank_line_before {
-                        // Blank line to separate from preceding paragraph
-                        self.output.push_str("\n\n");
-                    } else {
+            if !is_first {
+                // End the previous child, unless it ended itself (code blocks, nested lists)
+                if !self.output.ends_with('\n') {
+                    self.output.push('\n');
+                }
+                // Blocks are separated by a blank line, except for a nested list that
+                // follows the previous child directly in the original
+                let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
+                let curr_start_line = child.data.borrow().sourcepos.start.line;
+                if !matches!(child_value, NodeValue::List(_)) || curr_start_line > prev_end_line + 1
+                {
+                    self.push_blank_quote_line();
+                }
+            }
+
+            match child_value {
+                NodeValue::List(_) | NodeValue::BlockQuote | NodeValue::Alert(_) => {
+                    // These handle the indentation themselves, and begin on a new line
+                    if is_first {
                         self.output.push('\n');
                     }
                     self.serialize_node(child);
                 }
                 NodeValue::Paragraph => {
-                    // For paragraphs after the first, add blank line with proper indentation
                     if !is_first {
-                        // Check if previous child ends with a newline (code blocks, nested lists)
-                        let prev_ends_with_newline = i > 0
-                            && matches!(
-                                &children[i - 1].data.borrow().value,
-                                NodeValue::CodeBlock(_) | NodeValue::List(_)
-                            );
-                        if prev_ends_with_newline {
-                            // Previous element already ends with \n, so just add one more \n
-                            self.output.push('\n');
-                        } else {
-                            // First \n ends the previous paragraph, second \n creates blank line
-                            self.output.push_str("\n\n");
-                        }
-                        if self.in_block_quote {
-                            self.output.push_str("> ");
-                        }
-                        self.output.push_str(&base_indent);
+                        self.output.push_str(&line_prefix);
                     }
                     self.serialize_node(child);
                 }
                 NodeValue::CodeBlock(code_block) => {
-                    // Code blocks in list items need blank line and indentation
-                    self.output.push_str("\n\n");
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
+                    if !is_first {
+                        self.output.push_str(&line_prefix);
                     }
-                    self.output.push_str(&base_indent);
                     self.serialize_code_block_indented(
                         &code_block.info,
                         &code_block.literal,
                         &base_indent,
                     );
                 }
-                NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                    // Block quotes and alerts in list items need blank line
-                    // The indentation is handled by the blockquote/alert serialization itself
-                    if !is_first {
-                        self.output.push_str("\n\n");
-                    } else {
-                        self.output.push('\n');
-                    }
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
-                    self.serialize_node(child);
-                }
                 _ => {
-                    self.serialize_node(child);
+                    // Other blocks know nothing of the list around them
+                    let block = self.capture_node(child);
+                    let first = if !is_first {
+                        line_prefix.as_str()
+                    } else if matches!(child_value, NodeValue::ThematicBreak) {
+                        // On the same line as the marker it could be taken for a part of it
+                        self.output.push('\n');
+                        line_prefix.as_str()
+                    } else {
+                        ""
+                    };
+                    self.push_prefixed_lines(&block, first, &line_prefix);
                 }
             }
         }
@@ -294,17 +277,7 @@ impl<'a> Serializer<'a> {
 
         // Only add newline if the last child doesn't already end with one
         // (nested lists, code blocks, and blockquotes add their own newlines)
-        let last_child = node.children().last();
-        let last_child_ends_with_newline = last_child.is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::CodeBlock(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-            )
-        });
-        if !last_child_ends_with_newline {
+        if !self.output.ends_with('\n') || children.is_empty() {
             self.output.push('\n');
         }
     }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index ebe35af..1f128e3 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -516,7 +516,6 @@ impl<'a> Serializer<'a> {
                         // If inside a blockquote, we need to add the > prefix on the blank line
                         // to keep items within the same blockquote
                         if self.in_block_quote {
-                            self.output.push_str(&self.list_item_indent);
                             // Use blockquote_prefix without trailing space for blank lines
                             self.output.push_str(self.blockquote_prefix.trim_end());
                             self.output.push('\n');
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..eb4550a 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -245,7 +245,8 @@ pub struct Serializer<'a> {
     pub list_tight: bool,
     /// Whether we're inside a block quote
     pub in_block_quote: bool,
-    /// Accumulated blockquote prefix for nested blockquotes (e.g., "> " or "> > ")
+    /// Accumulated prefix of the lines in the current blockquote, with the indentation of
+    /// the lists around each level (e.g., "> ", "> > " or "    > ")
     pub blockquote_prefix: String,
     /// Reference links collected for the current section
     /// Key: label, Value: ReferenceLink (insertion order preserved)
@@ -272,9 +273,6 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
-    /// Indentation prefix for content inside a blockquote that's nested inside a list.
-    /// This is the outer list's indent that should appear before each `>` in the blockquote.
-    pub blockquote_outer_indent: String,
     /// The list depth when entering the current blockquote.
     /// Used to determine if a list exists inside vs outside the blockquote.
     pub blockquote_entry_list_depth: usize,
@@ -313,7 +311,6 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
@@ -350,7 +347,6 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 1ed87d9..496c1b4 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -53,7 +53,7 @@ impl<'a> Serializer<'a> {
         // Output header row
         if let Some(header_cells) = all_cells.first() {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             self.output.push('|');
             for (i, cell) in header_cells.iter().enumerate() {
@@ -69,7 +69,7 @@ impl<'a> Serializer<'a> {
 
         // Output separator row with alignment
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push('|');
         for (i, alignment) in alignments.iter().enumerate() {
@@ -100,7 +100,7 @@ impl<'a> Serializer<'a> {
         // Output data rows (skip header)
         for row_cells in all_cells.iter().skip(1) {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             self.output.push('|');
             for (i, cell) in row_cells.iter().enumerate() {
-- 
2.43.0


From 293d7bf879ce70a7405baa440ca0452d17f4ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 10/69] fix: do not turn indented paragraph text into list
 items

---
 src/serializer/block.rs |  5 +----
 src/serializer/wrap.rs  | 41 +++++++++++++++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 7055c6a..b8fdd31 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -52,10 +52,7 @@ impl<'a> Serializer<'a> {
     }
 
     /// Serialize children within blockquote context, adding blank quote lines between them.
-    fn serialize_blockquote_children<'b>(
-        &mut self,
-        children: &[&'b AstNode<'b>],
-    ) {
+    fn serialize_blockquote_children<'b>(&mut self, children: &[&'b AstNode<'b>]) {
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
                 self.push_blank_quote_line();
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 703fbed..b50b18f 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -40,11 +40,11 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_soft_breaks(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, prefix, prefix, line_width);
+        return wrap_single_segment(&original_lines[0], prefix, prefix, line_width);
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -53,7 +53,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim_matches([' ', '\t']);
+        let line = original_lines[i].as_str();
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -69,7 +69,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim_matches([' ', '\t']);
+                let next_line = original_lines[i].as_str();
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -88,6 +88,26 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// Split a paragraph into its original lines.
+///
+/// A line that would be read as block markup once its indentation is gone (such as an
+/// over-indented list item) is kept on the same line as the text before it.
+fn split_soft_breaks(text: &str) -> Vec<String> {
+    let mut lines: Vec<String> = Vec::new();
+    for line in text.split('\x00') {
+        let line = line.trim_matches([' ', '\t']);
+        let chars: Vec<char> = line.chars().collect();
+        match lines.last_mut() {
+            Some(last) if !chars.is_empty() && starts_block(&chars) => {
+                last.push(' ');
+                last.push_str(line);
+            }
+            _ => lines.push(line.to_string()),
+        }
+    }
+    lines
+}
+
 /// Wrap text where the first line has a different prefix than continuation lines.
 ///
 /// This is used for list items where the marker is already output and continuation
@@ -141,11 +161,16 @@ fn wrap_text_first_line_segment(
     line_width: usize,
 ) -> String {
     // Split by soft break markers (original line breaks)
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_soft_breaks(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_single_segment(
+            &original_lines[0],
+            first_prefix,
+            continuation_prefix,
+            line_width,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -155,7 +180,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim_matches([' ', '\t']);
+        let line = original_lines[i].as_str();
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -177,7 +202,7 @@ fn wrap_text_first_line_segment(
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim_matches([' ', '\t']);
+                let next_line = original_lines[i].as_str();
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
-- 
2.43.0


From b8ba16b0e7819d38214f962614fa880e1e5d9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 11/69] fix: make fences in definition lists long enough

---
 src/serializer/code.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 026baa0..aacecc3 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -79,8 +79,6 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
         let fence_char = self.options.fence_char.as_char();
         let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -107,12 +105,18 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
+        // The fence must be longer than any fence in the code
+        let max_fence_in_content = literal
+            .lines()
+            .map(|line| {
+                let trimmed = line.trim_start();
+                trimmed.chars().take_while(|&c| c == fence_char).count()
+            })
+            .max()
+            .unwrap_or(0);
+        let fence_length = std::cmp::max(min_len, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+        self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
                 self.output.push(' ');
@@ -133,7 +137,7 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
         self.output.push_str(indent);
-        self.output.push_str(fence);
+        self.output.push_str(&fence);
         self.output.push('\n');
     }
 
-- 
2.43.0


From e1c2a3304c35a1961f48044b39a7348937a77180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 12/69] fix: place footnotes by their first reference outside
 other footnotes

---
 src/serializer/document.rs | 63 +++++++++++++++++++++++++++++++++-----
 src/serializer/mod.rs      |  3 ++
 src/serializer/state.rs    |  5 +--
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 78c95c3..8069403 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -22,10 +22,19 @@ impl<'a> Serializer<'a> {
 
         // Second pass: process all FootnoteDefinition nodes first
         // This ensures pending_footnotes is populated before we flush at section boundaries
-        for child in &children {
-            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value {
-                self.serialize_node(child);
-            }
+        let mut definitions: Vec<_> = children
+            .iter()
+            .filter_map(|child| match &child.data.borrow().value {
+                NodeValue::FootnoteDefinition(def) => {
+                    let order = self.footnotes.reference_lines.get_index_of(&def.name);
+                    Some((order, *child))
+                }
+                _ => None,
+            })
+            .collect();
+        definitions.sort_by_key(|(order, _)| *order);
+        for (_, child) in definitions {
+            self.serialize_node(child);
         }
 
         // Identify trailing HTML blocks (non-directive comments at the end of document)
@@ -535,17 +544,57 @@ impl<'a> Serializer<'a> {
         self.output.push_str("\n\n");
     }
 
-    /// Recursively collect footnote reference lines from the AST.
+    /// Collect the lines where footnotes are referenced from the AST.
     /// This must be called before processing the document to ensure
     /// footnote reference lines are populated for all footnotes.
+    ///
+    /// References inside a footnote count as standing where that footnote is
+    /// referenced, wherever its definition is.
     fn collect_footnote_reference_lines<'b>(&mut self, node: &'b AstNode<'b>) {
+        let (mut definitions, body): (Vec<_>, Vec<_>) = node.children().partition(|child| {
+            matches!(child.data.borrow().value, NodeValue::FootnoteDefinition(_))
+        });
+        for child in body {
+            self.collect_footnote_reference_lines_in(child, None);
+        }
+        loop {
+            let mut remaining = Vec::new();
+            let before = definitions.len();
+            for child in definitions {
+                let line = match &child.data.borrow().value {
+                    NodeValue::FootnoteDefinition(def) => {
+                        self.footnotes.get_reference_line(&def.name)
+                    }
+                    _ => None,
+                };
+                if line.is_some() {
+                    self.collect_footnote_reference_lines_in(child, line);
+                } else {
+                    remaining.push(child);
+                }
+            }
+            if remaining.len() == before {
+                for child in remaining {
+                    self.collect_footnote_reference_lines_in(child, None);
+                }
+                return;
+            }
+            definitions = remaining;
+        }
+    }
+
+    fn collect_footnote_reference_lines_in<'b>(
+        &mut self,
+        node: &'b AstNode<'b>,
+        line: Option<usize>,
+    ) {
         if let NodeValue::FootnoteReference(footnote_ref) = &node.data.borrow().value {
-            let ref_line = node.data.borrow().sourcepos.start.line;
+            let ref_line = line.unwrap_or(node.data.borrow().sourcepos.start.line);
             self.footnotes
                 .record_reference_line(footnote_ref.name.clone(), ref_line);
         }
         for child in node.children() {
-            self.collect_footnote_reference_lines(child);
+            self.collect_footnote_reference_lines_in(child, line);
         }
     }
 
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1f128e3..a23a481 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -291,6 +291,9 @@ impl<'a> Serializer<'a> {
             return;
         }
 
+        // Footnotes are output in the order of their first references
+        to_emit.sort_by_key(|f| self.footnotes.reference_lines.get_index_of(&f.name));
+
         self.ensure_blank_line();
 
         // Count numeric footnotes to decide sorting strategy
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index eb4550a..13c3813 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -124,8 +124,9 @@ pub struct FootnoteSet {
     pub pending: IndexMap<String, FootnoteDefinition>,
     /// Footnote names that have already been emitted (to avoid duplicates)
     pub emitted: std::collections::HashSet<String>,
-    /// Line numbers where footnotes were referenced (key: footnote name)
-    pub reference_lines: std::collections::HashMap<String, usize>,
+    /// Line numbers where footnotes were referenced (key: footnote name, in the order
+    /// of their first references)
+    pub reference_lines: IndexMap<String, usize>,
     /// Whether we're currently collecting footnote content.
     /// When true, reference links are added to `pending_references` instead of
     /// the main reference collection.
-- 
2.43.0


From b0cc6d6618ad16adc5cbe34e8033cbb7354145f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 13/69] fix: indent blocks in definition details

---
 src/serializer/document.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 8069403..e87b907 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -372,14 +372,15 @@ impl<'a> Serializer<'a> {
                     }
                     _ => {
                         // Other block types: serialize normally with indent
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str(":   ");
-                        self.serialize_node(child);
+                        let block = self.capture_node(child);
+                        let prefix = format!("{}    ", blockquote_prefix);
+                        let first = format!("{}:   ", blockquote_prefix);
+                        self.push_prefixed_lines(&block, &first, &prefix);
                     }
                 }
             } else {
                 // Subsequent children: need blank line and 4-space indent
-                self.output.push('\n');
+                self.push_blank_quote_line();
                 match child_value {
                     NodeValue::Paragraph => {
                         self.output.push_str(&blockquote_prefix);
@@ -418,9 +419,9 @@ impl<'a> Serializer<'a> {
                     }
                     _ => {
                         // Other block types
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
-                        self.serialize_node(child);
+                        let block = self.capture_node(child);
+                        let prefix = format!("{}    ", blockquote_prefix);
+                        self.push_prefixed_lines(&block, &prefix, &prefix);
                     }
                 }
             }
-- 
2.43.0


From 6a9d517fdf3cbf9d97901d370ed10b080a1d3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 14/69] fix: keep backslash escapes at the start of text

---
 src/serializer/inline.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index d9222fd..1204a50 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -43,7 +43,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
@@ -145,7 +145,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
@@ -291,6 +291,21 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Extract the original source of a text node. The source position of a text that
+    /// begins with a backslash escape begins after the backslash, which is added here.
+    fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let line = self.source_lines.get(start.line.checked_sub(1)?)?;
+        let before = start.column.checked_sub(2);
+        if before.is_some_and(|column| line.as_bytes().get(column) == Some(&b'\\'))
+            && source.starts_with(|c: char| c.is_ascii_punctuation())
+        {
+            return Some(format!("\\{source}"));
+        }
+        Some(source)
+    }
+
     /// Escape text while preserving escapes from the original source.
     ///
     /// When comrak parses text like `node\_modules`, it stores `node_modules` in the AST.
-- 
2.43.0


From c641af1f7ffa05dee93609c8be60ffa950bf1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 15/69] fix: keep escapes and entities after replaced
 punctuation

---
 src/serializer/inline.rs | 50 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 1204a50..380998b 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use crate::DashSetting;
 
 impl<'a> Serializer<'a> {
     pub(super) fn collect_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
@@ -44,7 +45,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    text.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -146,7 +147,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    content.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -313,7 +314,7 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(text: &str, source: &str) -> String {
+    fn escape_text_preserving_source(&self, text: &str, source: &str) -> String {
         let mut result = String::with_capacity(source.len());
         let text_chars: Vec<char> = text.chars().collect();
         let source_chars: Vec<char> = source.chars().collect();
@@ -325,7 +326,12 @@ impl<'a> Serializer<'a> {
             let text_char = text_chars[text_idx];
             let source_char = source_chars[source_idx];
 
-            if source_char == '\\' && source_idx + 1 < source_chars.len() {
+            if let Some(end) = self.skip_replaced(text_char, &source_chars, source_idx) {
+                // Typographic replacement of ASCII punctuation in the source
+                result.push(text_char);
+                text_idx += 1;
+                source_idx = end;
+            } else if source_char == '\\' && source_idx + 1 < source_chars.len() {
                 if text_char == '\\' {
                     // Both source and text have a backslash
                     // Check if source has an escaped backslash (\\)
@@ -403,6 +409,42 @@ impl<'a> Serializer<'a> {
         result
     }
 
+    /// If `text_char` is a typographic replacement of the ASCII punctuation at `start` of
+    /// the source, return where that punctuation ends.
+    fn skip_replaced(&self, text_char: char, source: &[char], start: usize) -> Option<usize> {
+        let pattern = match text_char {
+            punctuation::LEFT_DOUBLE_QUOTE | punctuation::RIGHT_DOUBLE_QUOTE => "\"",
+            punctuation::LEFT_SINGLE_QUOTE | punctuation::RIGHT_SINGLE_QUOTE => "'",
+            punctuation::ELLIPSIS => "...",
+            punctuation::EM_DASH => Self::dash_pattern(&self.options.em_dash)?,
+            punctuation::EN_DASH => Self::dash_pattern(&self.options.en_dash)?,
+            _ => return None,
+        };
+        let mut end = start;
+        for expected in pattern.chars() {
+            let first = *source.get(end)?;
+            if first == '\\' && source.get(end + 1) == Some(&expected) {
+                end += 2;
+            } else if first == expected {
+                end += 1;
+            } else {
+                let (entity, decoded) = Self::try_parse_html_entity(source, end)?;
+                if decoded != expected {
+                    return None;
+                }
+                end += entity.len();
+            }
+        }
+        Some(end)
+    }
+
+    fn dash_pattern(setting: &DashSetting) -> Option<&str> {
+        match setting {
+            DashSetting::Disabled => None,
+            DashSetting::Pattern(pattern) => Some(pattern.as_str()),
+        }
+    }
+
     /// Try to parse an HTML entity starting at the given position.
     /// Returns the entity string and the decoded character if successful.
     fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
-- 
2.43.0


From 00deebcf06f6cffc7851e3e3700201fff5087d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 16/69] fix: never reuse a label that stands for something else

---
 src/serializer/document.rs |  3 ++
 src/serializer/inline.rs   | 33 +++-----------
 src/serializer/link.rs     | 88 +++++++++++++++++++++++++++++++++++---
 src/serializer/mod.rs      | 17 +++++++-
 src/serializer/state.rs    |  5 +++
 src/serializer/wrap.rs     |  3 +-
 6 files changed, 114 insertions(+), 35 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index e87b907..21eb82d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -15,6 +15,9 @@ impl<'a> Serializer<'a> {
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
 
+        // Labels must be known before links are turned into references
+        self.collect_labels(node);
+
         // First pass: collect all footnote reference lines
         // This is needed because FootnoteDefinition nodes come at the end of the AST,
         // but we need to know reference lines before flushing at section boundaries
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 380998b..e978df6 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -85,32 +85,11 @@ impl<'a> Serializer<'a> {
             NodeValue::SoftBreak => {
                 text.push(' ');
             }
-            NodeValue::Link(link) => {
-                // Handle reference-style links in headings
-                if let Some((link_text, label)) = self.get_reference_style_info(node) {
-                    self.format_reference_link(text, &link_text, &label, &link.url, &link.title);
-                } else {
-                    // For inline links, just output plain text (or format as inline?)
-                    // In headings, we typically want reference style for external links
-                    let link_text = self.collect_raw_text(node);
-                    if Self::is_external_url(&link.url) {
-                        // Headings don't have footnote references as siblings, so no need for collapsed style
-                        self.format_external_link_as_reference(
-                            text,
-                            &link_text,
-                            &link.url,
-                            &link.title,
-                            false,
-                        );
-                    } else {
-                        Self::format_inline_link(text, &link_text, &link.url, &link.title);
-                    }
-                }
-            }
-            NodeValue::Image(image) => {
-                // Preserve images in headings using inline syntax
-                let alt_text = self.collect_raw_text(node);
-                Self::format_inline_image(text, &alt_text, &image.url, &image.title);
+            NodeValue::Link(_) | NodeValue::Image(_) => {
+                // Same as in paragraphs, but on a single line
+                let mut inline = String::new();
+                self.collect_inline_node(node, &mut inline);
+                text.push_str(&inline.replace('\x00', " "));
             }
             NodeValue::HtmlInline(html) => {
                 // Preserve inline HTML as-is
@@ -294,7 +273,7 @@ impl<'a> Serializer<'a> {
 
     /// Extract the original source of a text node. The source position of a text that
     /// begins with a backslash escape begins after the backslash, which is added here.
-    fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+    pub(super) fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
         let source = self.extract_source(node)?;
         let start = node.data.borrow().sourcepos.start;
         let line = self.source_lines.get(start.line.checked_sub(1)?)?;
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 8830f24..218c182 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -104,6 +104,10 @@ impl<'a> Serializer<'a> {
     ) {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
+        if !self.claim_label(&normalized_text, url, title) {
+            Self::format_inline_link(output, text, url, title);
+            return;
+        }
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
@@ -115,19 +119,91 @@ impl<'a> Serializer<'a> {
     }
 
     /// Check if the next sibling of a node starts with `[`.
-    /// This includes footnote references, link references, and images.
+    /// This includes footnote references, link references, and images, and text that would
+    /// be read as the target of the link, or as the definition of its label.
     pub(super) fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> bool {
         if let Some(next) = node.next_sibling() {
-            let value = &next.data.borrow().value;
-            matches!(
-                value,
-                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_)
-            )
+            match &next.data.borrow().value {
+                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_) => true,
+                NodeValue::Text(text) => {
+                    text.starts_with(['[', '('])
+                        || (text.starts_with(':') && node.previous_sibling().is_none())
+                }
+                _ => false,
+            }
         } else {
             false
         }
     }
 
+    /// The form of a reference label that decides whether two labels are the same.
+    pub(super) fn normalize_label(label: &str) -> String {
+        escape::normalize_whitespace(&label.replace('\x00', " "))
+            .to_lowercase()
+            .to_uppercase()
+    }
+
+    /// Record the labels that the document uses: those of its reference links and images
+    /// with their targets, and those of bracketed text, which must not become links.
+    pub(super) fn collect_labels<'b>(&mut self, node: &'b AstNode<'b>) {
+        for descendant in node.descendants() {
+            match &descendant.data.borrow().value {
+                NodeValue::Link(link) | NodeValue::Image(link) => {
+                    if let Some((_, label)) = self.get_reference_style_info(descendant) {
+                        let label = Self::normalize_label(label.trim_start_matches('\x01'));
+                        self.labels
+                            .insert(label, Some((link.url.clone(), link.title.clone())));
+                    }
+                }
+                NodeValue::Text(_) => {
+                    let source = self.extract_text_source(descendant).unwrap_or_default();
+                    let mut start = None;
+                    let mut escaped = false;
+                    for (i, ch) in source.char_indices() {
+                        match ch {
+                            _ if escaped => {}
+                            '[' => start = Some(i + 1),
+                            ']' => {
+                                if let Some(start) = start.take() {
+                                    self.labels
+                                        .entry(Self::normalize_label(&source[start..i]))
+                                        .or_insert(None);
+                                }
+                            }
+                            _ => {}
+                        }
+                        escaped = ch == '\\' && !escaped;
+                    }
+                }
+                _ => {}
+            }
+        }
+    }
+
+    /// Claim `label` for a link, unless it cannot be a label, or already stands for
+    /// something else.
+    fn claim_label(&mut self, label: &str, url: &str, title: &str) -> bool {
+        let mut escaped = false;
+        let has_brackets = label.chars().any(|ch| {
+            let bracket = !escaped && matches!(ch, '[' | ']');
+            escaped = ch == '\\' && !escaped;
+            bracket
+        });
+        if has_brackets
+            || label.contains('\n')
+            || label.starts_with(['^', '!'])
+            || matches!(label.trim(), "" | "x" | "X")
+            || label.len() > 999
+        {
+            return false;
+        }
+        let target = Some((url.to_string(), title.to_string()));
+        self.labels
+            .entry(Self::normalize_label(label))
+            .or_insert_with(|| target.clone())
+            == &target
+    }
+
     /// Format a reference-style image and write to output buffer.
     pub(super) fn format_reference_image(
         &mut self,
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index a23a481..0d049a1 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -99,6 +99,11 @@ impl<'a> Serializer<'a> {
         // Badge pattern (link containing image):
         // [![alt][img-ref]][link-ref]
 
+        // Autolinks
+        if source.starts_with('<') {
+            return None;
+        }
+
         // Remove leading ! for images
         let source = source.strip_prefix('!').unwrap_or(&source);
 
@@ -129,7 +134,17 @@ impl<'a> Serializer<'a> {
         let after_close: String = chars[text_end_pos + 1..].iter().collect();
         let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
 
-        // Normalize newlines to spaces in the text (for idempotency when text spans lines)
+        // Normalize newlines to spaces in the text (for idempotency when text spans lines),
+        // dropping the block quote prefixes of the continuation lines
+        let text = text
+            .split('\n')
+            .enumerate()
+            .map(|(i, line)| match i {
+                0 => line,
+                _ => line.trim_start_matches([' ', '\t', '>']),
+            })
+            .collect::<Vec<_>>()
+            .join(" ");
         let text = escape::normalize_whitespace(&text);
 
         // If followed by "(", it's inline style
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 13c3813..8e95c10 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -254,6 +254,9 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// Normalized reference labels in use, with the URL and title they stand for, or
+    /// `None` for those that are not links
+    pub labels: std::collections::HashMap<String, Option<(String, String)>>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -303,6 +306,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            labels: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -339,6 +343,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            labels: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index b50b18f..94b590c 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -325,7 +325,8 @@ fn add_token_to_line_with_prefix(
     is_first_line: &mut bool,
 ) {
     let token_width = token.width();
-    let spaces_len = trailing_spaces.len();
+    // Spaces beyond the first are not kept at a line break, so they never decide one
+    let spaces_len = trailing_spaces.len().min(1);
     let current_prefix_width = if *is_first_line {
         first_prefix_width
     } else {
-- 
2.43.0


From f48b1adf6a23bf4941cfd88c525950cac2713dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 17/69] fix: define each reference label once

---
 src/serializer/mod.rs   | 18 +++++++++++++-----
 src/serializer/state.rs | 14 ++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0d049a1..c9846d3 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -200,7 +200,11 @@ impl<'a> Serializer<'a> {
         let refs: Vec<ReferenceLink> = self
             .pending_references
             .values()
-            .filter(|r| !self.emitted_references.contains(&r.label))
+            .filter(|r| {
+                !self
+                    .emitted_references
+                    .contains(&Self::normalize_label(&r.label))
+            })
             .cloned()
             .collect();
         self.pending_references.clear();
@@ -221,7 +225,8 @@ impl<'a> Serializer<'a> {
             // Less than 2 numeric refs: output all in insertion order
             for reference in &refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(Self::normalize_label(&reference.label));
             }
         } else {
             // 2+ numeric refs: separate, sort numeric ones, output regular first
@@ -242,13 +247,15 @@ impl<'a> Serializer<'a> {
             // Output regular references first (in insertion order)
             for reference in regular_refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(Self::normalize_label(&reference.label));
             }
 
             // Output numeric references (sorted by number)
             for (_, reference) in numeric_refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(Self::normalize_label(&reference.label));
             }
         }
     }
@@ -403,7 +410,8 @@ impl<'a> Serializer<'a> {
         // Output references in insertion order
         for reference in &to_emit {
             Self::write_reference(&mut self.output, reference);
-            self.emitted_references.insert(reference.label.clone());
+            self.emitted_references
+                .insert(Self::normalize_label(&reference.label));
         }
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 8e95c10..6745a04 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -183,7 +183,8 @@ impl FootnoteSet {
     /// Add a reference link found within footnote content.
     pub fn add_reference(&mut self, label: String, reference: ReferenceLink) {
         self.pending_references
-            .insert(label, (reference, self.current_reference_line));
+            .entry(label)
+            .or_insert((reference, self.current_reference_line));
     }
 }
 
@@ -448,15 +449,12 @@ impl<'a> Serializer<'a> {
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
     pub fn add_reference(&mut self, label: String, url: String, title: String) {
-        let reference = ReferenceLink {
-            label: label.clone(),
-            url,
-            title,
-        };
+        let key = Self::normalize_label(&label);
+        let reference = ReferenceLink { label, url, title };
         if self.footnotes.collecting_content {
-            self.footnotes.add_reference(label, reference);
+            self.footnotes.add_reference(key, reference);
         } else {
-            self.pending_references.insert(label, reference);
+            self.pending_references.entry(key).or_insert(reference);
         }
     }
 
-- 
2.43.0


From 844e0eadb1ecd2e4bfb866b8df0d168f75b4ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 18/69] fix: never underline a heading that would be read as
 another block

Keep the hard line breaks of headings, and the soft ones of inline HTML.
---
 src/serializer/document.rs | 26 ++++++++++++++++++++------
 src/serializer/inline.rs   | 11 +++++++----
 src/serializer/wrap.rs     | 21 +++++++++++++++++++++
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 21eb82d..9c7f5ec 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -451,23 +451,37 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        if level == 1 && self.options.setext_h1 {
+        // A hard line break needs an underlined heading; a text that would be read as
+        // another block cannot be underlined
+        let has_break = heading_text.contains('\n');
+        let setext = match level {
+            1 => self.options.setext_h1,
+            2 => self.options.setext_h2,
+            _ => false,
+        };
+        let setext = has_break || (setext && !wrap::starts_other_block(&heading_text));
+        let width = heading_text.lines().map(|line| line.width()).max();
+        let width = width.unwrap_or_default();
+
+        if level == 1 && setext {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
-            self.output.push_str(&"=".repeat(heading_text.width()));
+            self.output.push_str(&"=".repeat(width));
             self.output.push('\n');
-        } else if level == 2 && self.options.setext_h2 {
+        } else if level == 2 && setext {
             // Setext-style with '-'
             self.output.push_str(&heading_text);
             self.output.push('\n');
-            self.output.push_str(&"-".repeat(heading_text.width()));
+            self.output.push_str(&"-".repeat(width));
             self.output.push('\n');
         } else {
             // ATX-style for level 3+ or when setext is disabled
             self.output.push_str(&"#".repeat(level as usize));
-            self.output.push(' ');
-            self.output.push_str(&heading_text);
+            if !heading_text.is_empty() {
+                self.output.push(' ');
+                self.output.push_str(&heading_text);
+            }
             self.output.push('\n');
         }
     }
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index e978df6..c7b986a 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -85,6 +85,9 @@ impl<'a> Serializer<'a> {
             NodeValue::SoftBreak => {
                 text.push(' ');
             }
+            NodeValue::LineBreak => {
+                text.push_str("\\\n");
+            }
             NodeValue::Link(_) | NodeValue::Image(_) => {
                 // Same as in paragraphs, but on a single line
                 let mut inline = String::new();
@@ -92,8 +95,8 @@ impl<'a> Serializer<'a> {
                 text.push_str(&inline.replace('\x00', " "));
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                text.push_str(html);
+                // Preserve inline HTML as-is, but on a single line
+                text.push_str(&html.replace('\n', " "));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 text.push_str("[^");
@@ -255,8 +258,8 @@ impl<'a> Serializer<'a> {
                 }
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                content.push_str(html);
+                // Preserve inline HTML as-is; its line breaks are soft ones
+                content.push_str(&html.replace('\n', "\x00"));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 94b590c..28728fb 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -454,6 +454,27 @@ fn starts_block(chars: &[char]) -> bool {
         || ordered_marker()
 }
 
+/// Whether a line of text would be read as something else than the text of an underlined
+/// heading if it stood at the beginning of a block.
+pub(super) fn starts_other_block(line: &str) -> bool {
+    let chars: Vec<char> = line.chars().collect();
+    let word = line.split(' ').next().unwrap_or_default();
+    let list_marker = word == "-"
+        || word
+            .strip_suffix(['.', ')'])
+            .is_some_and(|n| (1..=9).contains(&n.len()) && n.chars().all(|c| c.is_ascii_digit()));
+    let lone_tag = line.starts_with('<')
+        && line.find('>') == Some(line.len() - 1)
+        && !line.contains("://")
+        && !line.contains('@');
+    chars.is_empty()
+        || starts_block(&chars)
+        || list_marker
+        || lone_tag
+        || line.starts_with("[!")
+        || (chars[0] == '[' && (chars.get(2) == Some(&']') || line.contains("]:")))
+}
+
 /// Whether a word starts with an HTML tag that can interrupt a paragraph.
 fn starts_html_block(word: &str) -> bool {
     const TAGS: &str = " address article aside base basefont blockquote body caption center col \
-- 
2.43.0


From c0851fe8be980acdfccba3fa43481086d0f103b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 19/69] fix: use tildes for fences whose info string has
 backticks, and add no blank line to code in definitions

---
 src/serializer/code.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index aacecc3..2d731b3 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -75,9 +75,19 @@ impl<'a> Serializer<'a> {
         None
     }
 
+    /// The fence character for a code block: the info string of a backtick fence cannot
+    /// contain backticks.
+    fn fence_char_for(&self, info: &str) -> char {
+        if info.contains('`') {
+            '~'
+        } else {
+            self.options.fence_char.as_char()
+        }
+    }
+
     /// Serialize a code block with indent for description list details.
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char_for(&code.info);
         let min_len = self.options.min_fence_length.get();
 
         // Parse info to get language and check for no-format flag
@@ -132,10 +142,6 @@ impl<'a> Serializer<'a> {
             }
             self.output.push('\n');
         }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
-        }
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
@@ -144,7 +150,7 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char_for(info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -233,7 +239,7 @@ impl<'a> Serializer<'a> {
     ) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char_for(info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
-- 
2.43.0


From 14275fd03d0c00fe797412e4101e7e15b2848f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 20/69] fix: find the end of a link text past escapes and code
 spans

Keep the spaces of code spans in reference link texts, and never begin a document with a front matter delimiter.
---
 src/serializer/document.rs |  7 +++++++
 src/serializer/mod.rs      | 21 +++++++++++++--------
 src/serializer/wrap.rs     |  2 +-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 9c7f5ec..d834228 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -931,6 +931,13 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&self.blockquote_prefix);
         }
 
+        // A first line of three dashes would begin front matter
+        let leading_spaces = if self.output.is_empty() && style == "---" {
+            leading_spaces.max(1)
+        } else {
+            leading_spaces
+        };
+
         // Add leading spaces
         for _ in 0..leading_spaces {
             self.output.push(' ');
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index c9846d3..8aad5f3 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -108,14 +108,16 @@ impl<'a> Serializer<'a> {
         let source = source.strip_prefix('!').unwrap_or(&source);
 
         // Find the position of the first '[' and track brackets to find the matching ']'
-        let first_bracket = source.find('[')?;
         let chars: Vec<char> = source.chars().collect();
+        let first_bracket = chars.iter().position(|&ch| ch == '[')?;
 
-        // Find the closing bracket at depth 0 (the one that closes the text/content part)
+        // Find the closing bracket at depth 0 (the one that closes the text/content part),
+        // passing over escapes and code spans
         let mut depth = 0;
         let mut text_end_pos = None;
-        for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
-            match ch {
+        let mut i = first_bracket;
+        while i < chars.len() {
+            match chars[i] {
                 '[' => depth += 1,
                 ']' => {
                     depth -= 1;
@@ -124,8 +126,11 @@ impl<'a> Serializer<'a> {
                         break;
                     }
                 }
+                '\\' => i += 1,
+                '`' => i = wrap::code_span_end(&chars, i) - 1,
                 _ => {}
             }
+            i += 1;
         }
 
         let text_end_pos = text_end_pos?;
@@ -135,17 +140,17 @@ impl<'a> Serializer<'a> {
         let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
 
         // Normalize newlines to spaces in the text (for idempotency when text spans lines),
-        // dropping the block quote prefixes of the continuation lines
+        // dropping the indentation and block quote prefixes of the continuation lines
         let text = text
             .split('\n')
             .enumerate()
             .map(|(i, line)| match i {
-                0 => line,
-                _ => line.trim_start_matches([' ', '\t', '>']),
+                0 => line.trim_end(),
+                _ => line.trim_start_matches([' ', '\t', '>']).trim_end(),
             })
             .collect::<Vec<_>>()
             .join(" ");
-        let text = escape::normalize_whitespace(&text);
+        let text = text.trim().to_string();
 
         // If followed by "(", it's inline style
         if after_close.starts_with('(') {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 28728fb..b31865f 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -386,7 +386,7 @@ fn unit_end(chars: &[char], pos: usize) -> usize {
 
 /// The end of the code span that starts at `pos`, or of the run of backticks if
 /// nothing closes it.
-fn code_span_end(chars: &[char], pos: usize) -> usize {
+pub(super) fn code_span_end(chars: &[char], pos: usize) -> usize {
     let run_length = |from: usize| chars[from..].iter().take_while(|&&c| c == '`').count();
     let opening = run_length(pos);
     let mut i = pos + opening;
-- 
2.43.0


From 75cbd87e66973157a220b4796ed8cff954399e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 21/69] fix: keep HTML blocks of footnotes, and the fill of
 lines after double spaces, stable

---
 src/serializer/mod.rs  | 15 ++++++++++++++-
 src/serializer/wrap.rs |  9 +++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 8aad5f3..de173e4 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -479,7 +479,20 @@ impl<'a> Serializer<'a> {
         let mut first_block = true;
 
         for child in node.children() {
-            let block_content = self.serialize_single_block(child);
+            let mut block_content = self.serialize_single_block(child);
+            if let NodeValue::HtmlBlock(_) = &child.data.borrow().value {
+                // Without the indentation beyond that of the footnote, which would grow
+                let lines = block_content.lines().filter(|line| !line.trim().is_empty());
+                let indent = lines
+                    .map(|line| line.len() - line.trim_start_matches(' ').len())
+                    .min()
+                    .unwrap_or_default();
+                block_content = block_content
+                    .lines()
+                    .map(|line| line.get(indent..).unwrap_or_default())
+                    .collect::<Vec<_>>()
+                    .join("\n");
+            }
 
             if !first_block && !block_content.is_empty() {
                 // Add blank line between blocks (need two newlines for a blank line)
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index b31865f..84f3ddc 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -341,6 +341,15 @@ fn add_token_to_line_with_prefix(
         // Token fits on current line
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
+    } else if current_line.ends_with("  ")
+        && current_line.trim_end_matches(' ').width() + 1 + token_width + spaces_len <= line_width
+    {
+        // Token fits on current line after a single space, which is all that a line break
+        // would keep of the spaces
+        current_line.truncate(current_line.trim_end_matches(' ').len());
+        current_line.push(' ');
+        current_line.push_str(token);
+        current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
         let trimmed = current_line.trim_end_matches(' ');
-- 
2.43.0


From 50c1d90860685a0140d33c605cd3122ba4b91263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 22/69] fix: keep hard line breaks and link titles at
 block-like line ends

---
 src/serializer/wrap.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 84f3ddc..e974067 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -24,8 +24,8 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     let mut result = String::new();
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
-            // Add two trailing spaces for hard line break, then newline and prefix
-            result.push_str("  \n");
+            // Add the hard line break, then newline and prefix
+            push_hard_break(&mut result);
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
@@ -36,6 +36,18 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// End a line with a hard line break: two trailing spaces, or a backslash if the line
+/// would be read as block markup without one.
+fn push_hard_break(result: &mut String) {
+    let line = result.rsplit('\n').next().unwrap_or_default();
+    let chars: Vec<char> = line.trim_start_matches([' ', '>']).chars().collect();
+    if !chars.is_empty() && starts_block(&chars) {
+        result.push_str("\\\n");
+    } else {
+        result.push_str("  \n");
+    }
+}
+
 /// Wrap a single segment of text (between hard line breaks).
 fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     // Split by soft break markers (original line breaks)
@@ -135,8 +147,8 @@ pub fn wrap_text_first_line(
     let mut is_first_segment = true;
     for segment in hard_break_segments {
         if !is_first_segment {
-            // Add two trailing spaces for hard line break, then newline
-            result.push_str("  \n");
+            // Add the hard line break, then newline
+            push_hard_break(&mut result);
             result.push_str(continuation_prefix);
         }
         let (current_first, current_cont) = if is_first_segment {
@@ -370,6 +382,8 @@ fn unit_end(chars: &[char], pos: usize) -> usize {
     match chars[pos] {
         '\\' if chars.get(pos + 1).is_some_and(|&c| c != ' ') => pos + 2,
         '`' => code_span_end(chars, pos),
+        // The end of a link text that began on an earlier line
+        ']' => link_target_end(chars, pos + 1),
         '[' => {
             let mut depth = 0;
             let mut i = pos;
-- 
2.43.0


From 5cdc204a0114437d8e1177e9ce47fc3a287eb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 23/69] fix: keep HTML that begins a footnote as written

---
 src/serializer/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index de173e4..429c2c5 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -433,12 +433,14 @@ impl<'a> Serializer<'a> {
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
-            // Blocks indented by 8 columns or more would become code blocks
-            let continuation_indent = if continuation_indent.len() < 8 {
-                continuation_indent.as_str()
-            } else {
-                "    "
-            };
+            // Blocks indented by 8 columns or more would become code blocks, and the lines
+            // of an HTML block that the footnote begins with keep any further indentation
+            let continuation_indent =
+                if continuation_indent.len() < 8 && !footnote.content.starts_with('<') {
+                    continuation_indent.as_str()
+                } else {
+                    "    "
+                };
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
-- 
2.43.0


From 26771169376222db9de34ee0b29708d49e4e3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 24/69] fix: use underscores for emphasis only where they work,
 and read table cells with escaped pipes

Also do not make labels of texts with pipes.
---
 src/serializer/inline.rs |  2 +-
 src/serializer/link.rs   |  2 +-
 src/serializer/state.rs  | 77 +++++++++++++++++++++++++++++++++++++---
 3 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index c7b986a..c1850dd 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -280,7 +280,7 @@ impl<'a> Serializer<'a> {
         let source = self.extract_source(node)?;
         let start = node.data.borrow().sourcepos.start;
         let line = self.source_lines.get(start.line.checked_sub(1)?)?;
-        let before = start.column.checked_sub(2);
+        let before = self.source_columns(node).0.checked_sub(2);
         if before.is_some_and(|column| line.as_bytes().get(column) == Some(&b'\\'))
             && source.starts_with(|c: char| c.is_ascii_punctuation())
         {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 218c182..dcaa5e4 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -190,7 +190,7 @@ impl<'a> Serializer<'a> {
             bracket
         });
         if has_brackets
-            || label.contains('\n')
+            || label.contains(['\n', '|'])
             || label.starts_with(['^', '!'])
             || matches!(label.trim(), "" | "x" | "X")
             || label.len() > 999
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 6745a04..2508845 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -374,8 +374,7 @@ impl<'a> Serializer<'a> {
         let sourcepos = node.data.borrow().sourcepos;
         let start_line = sourcepos.start.line;
         let end_line = sourcepos.end.line;
-        let start_col = sourcepos.start.column;
-        let end_col = sourcepos.end.column;
+        let (start_col, end_col) = self.source_columns(node);
 
         if start_line == 0 || end_line == 0 {
             return None;
@@ -416,6 +415,43 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// The first and last columns of a node in the source.
+    ///
+    /// In a table cell, the position of a node does not count the backslashes of the
+    /// escaped pipes before it in the cell, which are counted here.
+    pub fn source_columns<'b>(&self, node: &'b AstNode<'b>) -> (usize, usize) {
+        let position = node.data.borrow().sourcepos;
+        let columns = (position.start.column, position.end.column);
+        let cell = node
+            .ancestors()
+            .skip(1)
+            .find(|ancestor| matches!(ancestor.data.borrow().value, NodeValue::TableCell));
+        let Some(cell) = cell else {
+            return columns;
+        };
+        let first = cell.data.borrow().sourcepos.start.column;
+        let line = position.start.line.checked_sub(1);
+        let Some(line) = line.and_then(|line| self.source_lines.get(line)) else {
+            return columns;
+        };
+        let (mut start, mut end) = columns;
+        let mut column = first;
+        let mut rest = line
+            .as_bytes()
+            .get(first.saturating_sub(1)..)
+            .unwrap_or_default();
+        while column <= end && !rest.is_empty() {
+            let escaped_pipe = rest.starts_with(b"\\|");
+            if escaped_pipe {
+                start += usize::from(column < start);
+                end += 1;
+            }
+            column += 1 + usize::from(escaped_pipe);
+            rest = &rest[1 + usize::from(escaped_pipe)..];
+        }
+        (start, end)
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
@@ -468,7 +504,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
         // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && self.may_use_underscores(node) {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -485,7 +521,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && self.may_use_underscores(node) {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -497,6 +533,39 @@ impl<'a> Serializer<'a> {
         "**"
     }
 
+    /// Whether emphasis written with asterisks could be written with underscores as well:
+    /// not inside a word, nor next to other delimiters.
+    fn may_use_underscores<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        let position = node.data.borrow().sourcepos;
+        let (start, end) = self.source_columns(node);
+        let line = |number: usize| self.source_lines.get(number.wrapping_sub(1));
+        let before = line(position.start.line)
+            .and_then(|line| line.get(..start.saturating_sub(1)))
+            .and_then(|text| text.chars().next_back());
+        let after = line(position.end.line)
+            .and_then(|line| line.get(end..))
+            .and_then(|text| text.chars().next());
+        let separate = |ch: Option<char>| {
+            ch.is_none_or(|ch| {
+                ch.is_whitespace() || (ch.is_ascii_punctuation() && ch != '_' && ch != '*')
+            })
+        };
+        let emphasis = |node: Option<&'b AstNode<'b>>| {
+            node.is_some_and(|node| {
+                matches!(
+                    node.data.borrow().value,
+                    NodeValue::Emph | NodeValue::Strong
+                )
+            })
+        };
+        let at_edge = node.previous_sibling().is_none() || node.next_sibling().is_none();
+        separate(before)
+            && separate(after)
+            && !emphasis(node.first_child())
+            && !emphasis(node.last_child())
+            && !(at_edge && emphasis(node.parent()))
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From 1903c51349c274771cc331b6b49c91ac1afc2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 25/69] fix: keep tight lists tight around code blocks and
 quotes, and lone HTML tags off line starts

---
 src/serializer/list.rs | 29 ++++++++++++++++++++++++-----
 src/serializer/wrap.rs | 35 ++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index d29fce9..129b97f 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -12,6 +12,25 @@ impl<'a> Serializer<'a> {
             .count()
     }
 
+    /// Whether a list item has a block that cannot directly follow the paragraph before
+    /// it: the list it belongs to cannot be tight.
+    fn needs_blank_line<'b>(item: &'b AstNode<'b>) -> bool {
+        item.children().any(|child| {
+            let follows_paragraph = child
+                .previous_sibling()
+                .is_some_and(|prev| matches!(prev.data.borrow().value, NodeValue::Paragraph));
+            follows_paragraph
+                && !matches!(
+                    child.data.borrow().value,
+                    NodeValue::List(_)
+                        | NodeValue::CodeBlock(_)
+                        | NodeValue::HtmlBlock(_)
+                        | NodeValue::BlockQuote
+                        | NodeValue::Alert(_)
+                )
+        })
+    }
+
     /// Calculate the width of a list item marker.
     /// This is used to determine the indentation for continuation lines.
     fn calculate_marker_width(&self) -> usize {
@@ -41,7 +60,7 @@ impl<'a> Serializer<'a> {
         let old_max_items = self.ordered_list_max_items;
 
         self.list_type = Some(list_type);
-        self.list_tight = tight;
+        self.list_tight = tight && !node.children().any(Self::needs_blank_line);
         self.list_item_index = 0;
         self.list_depth += 1;
 
@@ -221,12 +240,12 @@ impl<'a> Serializer<'a> {
                 if !self.output.ends_with('\n') {
                     self.output.push('\n');
                 }
-                // Blocks are separated by a blank line, except for a nested list that
-                // follows the previous child directly in the original
+                // Blocks are separated by a blank line, except in tight lists, and for a
+                // nested list that follows the previous child directly in the original
                 let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
                 let curr_start_line = child.data.borrow().sourcepos.start.line;
-                if !matches!(child_value, NodeValue::List(_)) || curr_start_line > prev_end_line + 1
-                {
+                let is_list = matches!(child_value, NodeValue::List(_));
+                if (!self.list_tight && !is_list) || curr_start_line > prev_end_line + 1 {
                     self.push_blank_quote_line();
                 }
             }
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index e974067..4945850 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -248,7 +248,6 @@ pub fn wrap_single_segment(
     let mut result = String::new();
     let mut current_line = String::new();
     let mut is_first_line = true;
-    let first_prefix_width = first_prefix.width();
 
     // Add prefix to first line
     current_line.push_str(first_prefix);
@@ -289,7 +288,7 @@ pub fn wrap_single_segment(
                     &mut current_line,
                     &current_token,
                     &trailing_spaces,
-                    first_prefix_width,
+                    first_prefix,
                     prefix,
                     line_width,
                     &mut is_first_line,
@@ -309,7 +308,7 @@ pub fn wrap_single_segment(
             &mut current_line,
             &current_token,
             "",
-            first_prefix_width,
+            first_prefix,
             prefix,
             line_width,
             &mut is_first_line,
@@ -331,7 +330,7 @@ fn add_token_to_line_with_prefix(
     current_line: &mut String,
     token: &str,
     trailing_spaces: &str,
-    first_prefix_width: usize,
+    first_prefix: &str,
     prefix: &str,
     line_width: usize,
     is_first_line: &mut bool,
@@ -339,18 +338,16 @@ fn add_token_to_line_with_prefix(
     let token_width = token.width();
     // Spaces beyond the first are not kept at a line break, so they never decide one
     let spaces_len = trailing_spaces.len().min(1);
-    let current_prefix_width = if *is_first_line {
-        first_prefix_width
-    } else {
-        prefix.width()
-    };
+    let current_prefix = if *is_first_line { first_prefix } else { prefix };
 
-    if current_line.width() == current_prefix_width {
+    if current_line.len() == current_prefix.len() {
         // First word on this line (prefix already added)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width {
-        // Token fits on current line
+    } else if current_line.width() + token_width + spaces_len <= line_width
+        || (*is_first_line && is_lone_tag(current_line[first_prefix.len()..].trim_end()))
+    {
+        // Token fits on current line, or must stay on it
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else if current_line.ends_with("  ")
@@ -486,18 +483,22 @@ pub(super) fn starts_other_block(line: &str) -> bool {
         || word
             .strip_suffix(['.', ')'])
             .is_some_and(|n| (1..=9).contains(&n.len()) && n.chars().all(|c| c.is_ascii_digit()));
-    let lone_tag = line.starts_with('<')
-        && line.find('>') == Some(line.len() - 1)
-        && !line.contains("://")
-        && !line.contains('@');
     chars.is_empty()
         || starts_block(&chars)
         || list_marker
-        || lone_tag
+        || is_lone_tag(line)
         || line.starts_with("[!")
         || (chars[0] == '[' && (chars.get(2) == Some(&']') || line.contains("]:")))
 }
 
+/// Whether a line consists of an HTML tag, which makes it the start of an HTML block.
+fn is_lone_tag(line: &str) -> bool {
+    line.starts_with('<')
+        && line.find('>') == Some(line.len() - 1)
+        && !line.contains("://")
+        && !line.contains('@')
+}
+
 /// Whether a word starts with an HTML tag that can interrupt a paragraph.
 fn starts_html_block(word: &str) -> bool {
     const TAGS: &str = " address article aside base basefont blockquote body caption center col \
-- 
2.43.0


From 1b1194a219c1e850da6a615d470cfd0622fd44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 26/69] fix: keep hard line breaks after lone HTML tags, and
 count the indentation after hard breaks

---
 src/serializer/wrap.rs | 82 ++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 4945850..6bb7b4e 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -17,7 +17,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 
     if hard_break_segments.len() == 1 {
         // No hard line breaks, process normally with soft breaks
-        return wrap_text_segment(text, prefix, line_width);
+        return wrap_text_segment(text, prefix, line_width, true);
     }
 
     // Process each segment separated by hard line breaks
@@ -25,11 +25,11 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
             // Add the hard line break, then newline and prefix
-            push_hard_break(&mut result);
+            push_hard_break(&mut result, prefix, idx == 1);
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
-        let wrapped = wrap_text_segment(segment, prefix, line_width);
+        let wrapped = wrap_text_segment(segment, prefix, line_width, idx == 0);
         result.push_str(&wrapped);
     }
 
@@ -38,10 +38,12 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 
 /// End a line with a hard line break: two trailing spaces, or a backslash if the line
 /// would be read as block markup without one.
-fn push_hard_break(result: &mut String) {
+fn push_hard_break(result: &mut String, prefix: &str, starts_paragraph: bool) {
     let line = result.rsplit('\n').next().unwrap_or_default();
+    let line = line.strip_prefix(prefix).unwrap_or(line);
     let chars: Vec<char> = line.trim_start_matches([' ', '>']).chars().collect();
-    if !chars.is_empty() && starts_block(&chars) {
+    let starts_paragraph = starts_paragraph && !result.contains('\n');
+    if !chars.is_empty() && (starts_block(&chars) || starts_paragraph && is_lone_tag(line)) {
         result.push_str("\\\n");
     } else {
         result.push_str("  \n");
@@ -49,14 +51,25 @@ fn push_hard_break(result: &mut String) {
 }
 
 /// Wrap a single segment of text (between hard line breaks).
-fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
+fn wrap_text_segment(
+    text: &str,
+    prefix: &str,
+    line_width: usize,
+    starts_paragraph: bool,
+) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
     let original_lines = split_soft_breaks(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(&original_lines[0], prefix, prefix, line_width);
+        return wrap_single_segment(
+            &original_lines[0],
+            prefix,
+            prefix,
+            line_width,
+            starts_paragraph,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -88,7 +101,9 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
             }
 
             // Wrap the merged content
-            let wrapped = wrap_single_segment(&merged, prefix, prefix, line_width);
+            let starts_paragraph = starts_paragraph && result.is_empty();
+            let wrapped =
+                wrap_single_segment(&merged, prefix, prefix, line_width, starts_paragraph);
 
             if !result.is_empty() {
                 result.push('\n');
@@ -139,27 +154,35 @@ pub fn wrap_text_first_line(
 
     if hard_break_segments.len() == 1 {
         // No hard line breaks, process normally with soft breaks
-        return wrap_text_first_line_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_text_first_line_segment(
+            text,
+            first_prefix,
+            continuation_prefix,
+            line_width,
+            true,
+        );
     }
 
     // Process each segment separated by hard line breaks
     let mut result = String::new();
-    let mut is_first_segment = true;
-    for segment in hard_break_segments {
-        if !is_first_segment {
+    for (idx, segment) in hard_break_segments.iter().enumerate() {
+        if idx > 0 {
             // Add the hard line break, then newline
-            push_hard_break(&mut result);
-            result.push_str(continuation_prefix);
+            push_hard_break(&mut result, first_prefix, idx == 1);
         }
-        let (current_first, current_cont) = if is_first_segment {
-            (first_prefix, continuation_prefix)
+        let current_first = if idx == 0 {
+            first_prefix
         } else {
-            ("", continuation_prefix)
+            continuation_prefix
         };
-        let wrapped =
-            wrap_text_first_line_segment(segment, current_first, current_cont, line_width);
+        let wrapped = wrap_text_first_line_segment(
+            segment,
+            current_first,
+            continuation_prefix,
+            line_width,
+            idx == 0,
+        );
         result.push_str(&wrapped);
-        is_first_segment = false;
     }
 
     result
@@ -171,6 +194,7 @@ fn wrap_text_first_line_segment(
     first_prefix: &str,
     continuation_prefix: &str,
     line_width: usize,
+    starts_paragraph: bool,
 ) -> String {
     // Split by soft break markers (original line breaks)
     let original_lines = split_soft_breaks(text);
@@ -182,6 +206,7 @@ fn wrap_text_first_line_segment(
             first_prefix,
             continuation_prefix,
             line_width,
+            starts_paragraph,
         );
     }
 
@@ -221,8 +246,13 @@ fn wrap_text_first_line_segment(
             }
 
             // Wrap the merged content
-            let wrapped =
-                wrap_single_segment(&merged, current_prefix, continuation_prefix, line_width);
+            let wrapped = wrap_single_segment(
+                &merged,
+                current_prefix,
+                continuation_prefix,
+                line_width,
+                starts_paragraph && is_first_line,
+            );
 
             if !result.is_empty() {
                 result.push('\n');
@@ -244,6 +274,7 @@ pub fn wrap_single_segment(
     first_prefix: &str,
     prefix: &str,
     line_width: usize,
+    starts_paragraph: bool,
 ) -> String {
     let mut result = String::new();
     let mut current_line = String::new();
@@ -291,6 +322,7 @@ pub fn wrap_single_segment(
                     first_prefix,
                     prefix,
                     line_width,
+                    starts_paragraph,
                     &mut is_first_line,
                 );
                 current_token.clear();
@@ -311,6 +343,7 @@ pub fn wrap_single_segment(
             first_prefix,
             prefix,
             line_width,
+            starts_paragraph,
             &mut is_first_line,
         );
     }
@@ -333,6 +366,7 @@ fn add_token_to_line_with_prefix(
     first_prefix: &str,
     prefix: &str,
     line_width: usize,
+    starts_paragraph: bool,
     is_first_line: &mut bool,
 ) {
     let token_width = token.width();
@@ -345,7 +379,9 @@ fn add_token_to_line_with_prefix(
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else if current_line.width() + token_width + spaces_len <= line_width
-        || (*is_first_line && is_lone_tag(current_line[first_prefix.len()..].trim_end()))
+        || (starts_paragraph
+            && *is_first_line
+            && is_lone_tag(current_line[first_prefix.len()..].trim_end()))
     {
         // Token fits on current line, or must stay on it
         current_line.push_str(token);
-- 
2.43.0


From c9b5450f66bd573cf74fb293d937d218a6099ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 27/69] fix: indent continuation lines like the item they
 belong to, and keep dashes at line starts from being block markup

---
 src/serializer/document.rs | 71 ++++++++++----------------------------
 src/serializer/mod.rs      |  5 +++
 src/serializer/wrap.rs     |  7 ++++
 3 files changed, 30 insertions(+), 53 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index d834228..8d68d1f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -332,13 +332,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
-                        let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
-                            "",
-                            &continuation,
-                            self.options.line_width.get(),
-                        );
-                        self.output.push_str(&wrapped);
+                        self.push_wrapped(content.trim(), &continuation);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
@@ -391,13 +385,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
-                        let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
-                            "",
-                            &continuation,
-                            self.options.line_width.get(),
-                        );
-                        self.output.push_str(&wrapped);
+                        self.push_wrapped(content.trim(), &continuation);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
@@ -503,45 +491,15 @@ impl<'a> Serializer<'a> {
         self.collect_inline_content(node, &mut inline_content);
 
         if self.list_type.is_some() {
-            // Inside a list item, wrap with proper continuation indent
-            // First line has no prefix (marker already output)
-            // Continuation lines need appropriate indent
-            //
-            // There are two cases:
-            // 1. List inside blockquote: list_depth > blockquote_entry_list_depth
-            //    - Use base_indent for the inner list's continuation
-            // 2. Blockquote inside list: list_depth == blockquote_entry_list_depth
-            //    - Don't add base_indent, just use the outer prefix
-            let inner_list_depth = self
-                .list_depth
-                .saturating_sub(self.blockquote_entry_list_depth);
-            let base_indent = if self.in_description_details && inner_list_depth > 0 {
-                // Inside description details, add extra 5-space indent for `:    ` prefix.
-                // For unordered lists at top level, the marker is `-  ` (3 chars, no leading space).
-                // For nested lists, use the standard 4-char indent.
-                let first_level_marker_width = 1 + self.options.trailing_spaces.get(); // `-` + trailing
-                let nested_indent = "    ".repeat(inner_list_depth.saturating_sub(1));
-                format!(
-                    "     {}{}",
-                    " ".repeat(first_level_marker_width),
-                    nested_indent
-                )
-            } else {
-                "    ".repeat(inner_list_depth)
-            };
-            let continuation = if self.in_block_quote {
-                // Inside a blockquote, continuation lines need > prefix + indent
-                format!("{}{}", self.blockquote_prefix, base_indent)
-            } else {
-                base_indent
-            };
-            let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim(),
-                "",
-                &continuation,
-                self.options.line_width.get(),
-            );
-            self.output.push_str(&wrapped);
+            // Inside a list item: the marker is already output, continuation lines are
+            // indented like the other blocks of the item
+            let continuation = format!("{}{}", self.blockquote_prefix, self.list_item_indent);
+            let first_line = inline_content.split(['\n', '\x00']).next();
+            if first_line.is_some_and(|line| wrap::is_underline(line.trim())) {
+                // Together with the list marker it would be a thematic break
+                inline_content = format!("\\{}", inline_content.trim_start());
+            }
+            self.push_wrapped(inline_content.trim(), &continuation);
         } else {
             // Not in a list - wrap the paragraph at line_width
             let prefix = if self.in_block_quote {
@@ -555,6 +513,13 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Output wrapped text after a marker that is already output.
+    fn push_wrapped(&mut self, text: &str, continuation_prefix: &str) {
+        let line_width = self.options.line_width.get();
+        let wrapped = wrap::wrap_text_first_line(text, "", continuation_prefix, line_width);
+        self.output.push_str(&wrapped);
+    }
+
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
         // Front matter content from comrak includes the delimiters,
         // so we preserve it verbatim and add a trailing blank line
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 429c2c5..c441807 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -496,6 +496,11 @@ impl<'a> Serializer<'a> {
                     .join("\n");
             }
 
+            if let NodeValue::ThematicBreak = &child.data.borrow().value {
+                // Its own indentation could make it a code block
+                block_content = block_content.trim_start().to_string();
+            }
+
             if !first_block && !block_content.is_empty() {
                 // Add blank line between blocks (need two newlines for a blank line)
                 result.push_str("\n\n");
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 6bb7b4e..b5997c5 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -382,6 +382,7 @@ fn add_token_to_line_with_prefix(
         || (starts_paragraph
             && *is_first_line
             && is_lone_tag(current_line[first_prefix.len()..].trim_end()))
+        || is_underline(current_line[current_prefix.len()..].trim_end())
     {
         // Token fits on current line, or must stay on it
         current_line.push_str(token);
@@ -527,6 +528,12 @@ pub(super) fn starts_other_block(line: &str) -> bool {
         || (chars[0] == '[' && (chars.get(2) == Some(&']') || line.contains("]:")))
 }
 
+/// Whether a line consists of dashes or equals signs, which makes it an underline of the
+/// previous line or a thematic break.
+pub(super) fn is_underline(line: &str) -> bool {
+    !line.is_empty() && line.chars().all(|c| c == '-' || c == '=')
+}
+
 /// Whether a line consists of an HTML tag, which makes it the start of an HTML block.
 fn is_lone_tag(line: &str) -> bool {
     line.starts_with('<')
-- 
2.43.0


From fd2f5b2faf6d6ad8be56f9238876e1f70ca7899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 28/69] fix: keep link destinations, tags, entities and code
 spans of headings out of sentence case

---
 src/serializer/heading.rs | 86 +++++++++++++++++++++++++++++----------
 src/serializer/wrap.rs    |  2 +-
 2 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..d5dbb63 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -38,6 +38,7 @@ pub fn to_sentence_case(
                 result.push_str(&content);
                 is_first_word = false;
             }
+            Token::Markup(content) => result.push_str(&content),
             Token::Quote(content, is_double) => {
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
@@ -63,6 +64,8 @@ pub fn to_sentence_case(
 enum Token {
     /// Code span with backticks (preserved as-is)
     CodeSpan(String),
+    /// Other markup that is not text (preserved as-is)
+    Markup(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
     /// Regular text
@@ -186,33 +189,41 @@ fn normalize_quotes(text: &str) -> String {
     result
 }
 
-/// Tokenize text: first extract code spans, then normalize quotes and parse quotes in remaining text.
+/// Tokenize text: first extract code spans and other markup, then normalize quotes and
+/// parse quotes in remaining text.
 fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
     let mut current = String::new();
-    let mut chars = text.chars().peekable();
-
-    while let Some(ch) = chars.next() {
-        if ch == '`' {
-            // Save any accumulated text (normalize quotes in it)
-            if !current.is_empty() {
-                let normalized = normalize_quotes(&current);
-                tokens.extend(tokenize_quotes(&normalized));
-                current.clear();
-            }
+    let chars: Vec<char> = text.chars().collect();
+    let mut i = 0;
 
-            // Collect code span (preserve as-is, no quote normalization)
-            let mut code_span = String::from('`');
-            for ch in chars.by_ref() {
-                code_span.push(ch);
-                if ch == '`' {
-                    break;
-                }
-            }
-            tokens.push(Token::CodeSpan(code_span));
+    while i < chars.len() {
+        let end = if chars[i] == '`' {
+            super::wrap::code_span_end(&chars, i)
         } else {
-            current.push(ch);
+            markup_end(&chars, i)
+        };
+        if end == i {
+            current.push(chars[i]);
+            i += 1;
+            continue;
+        }
+
+        // Save any accumulated text (normalize quotes in it)
+        if !current.is_empty() {
+            let normalized = normalize_quotes(&current);
+            tokens.extend(tokenize_quotes(&normalized));
+            current.clear();
         }
+
+        // Preserve as-is, no quote normalization
+        let content: String = chars[i..end].iter().collect();
+        tokens.push(if chars[i] == '`' {
+            Token::CodeSpan(content)
+        } else {
+            Token::Markup(content)
+        });
+        i = end;
     }
 
     // Save remaining text (normalize quotes in it)
@@ -224,6 +235,37 @@ fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     tokens
 }
 
+/// The end of the markup that starts at `pos` and is not text: a link destination or
+/// label, a footnote reference, an HTML tag or autolink, an entity, or an escape.
+/// Returns `pos` if there is none.
+fn markup_end(chars: &[char], pos: usize) -> usize {
+    let until = |end: char| {
+        let found = chars[pos + 1..].iter().position(|&c| c == end);
+        found.map_or(pos, |length| pos + 1 + length + 1)
+    };
+    let next = chars.get(pos + 1).copied().unwrap_or(' ');
+    match chars[pos] {
+        '\\' if next.is_ascii_punctuation() => pos + 2,
+        ']' if next == '(' => {
+            let end = super::wrap::link_target_end(chars, pos + 1);
+            if end > pos + 1 { end } else { pos }
+        }
+        ']' if next == '[' => until(']'),
+        '[' if next == '^' => until(']'),
+        '<' if next.is_ascii_alphabetic() || matches!(next, '/' | '!' | '?') => until('>'),
+        '&' => {
+            let end = until(';');
+            let is_name = |c: &char| c.is_ascii_alphanumeric() || *c == '#';
+            if end > pos + 2 && chars[pos + 1..end - 1].iter().all(is_name) {
+                end
+            } else {
+                pos
+            }
+        }
+        _ => pos,
+    }
+}
+
 /// Tokenize text that has already been quote-normalized, extracting quoted parts.
 fn tokenize_quotes(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
@@ -325,7 +367,7 @@ fn process_quoted_text(
 
             for token in tokens {
                 match token {
-                    Token::CodeSpan(c) => result.push_str(&c),
+                    Token::CodeSpan(c) | Token::Markup(c) => result.push_str(&c),
                     Token::Quote(c, is_dbl) => {
                         let processed =
                             process_quoted_text(&c, is_dbl, user_proper_nouns, common_nouns);
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index b5997c5..fc517ea 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -463,7 +463,7 @@ pub(super) fn code_span_end(chars: &[char], pos: usize) -> usize {
 
 /// The end of the link target `(destination "title")` that starts at `pos`, or `pos`
 /// if there is none.
-fn link_target_end(chars: &[char], pos: usize) -> usize {
+pub(super) fn link_target_end(chars: &[char], pos: usize) -> usize {
     if chars.get(pos) != Some(&'(') {
         return pos;
     }
-- 
2.43.0


From 4c59691ffef18f46a5605efa9cfa28a83a981c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 29/69] fix: find the real end of a list item's block before
 separating the next one

---
 src/serializer/list.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 129b97f..28b704d 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -31,6 +31,13 @@ impl<'a> Serializer<'a> {
         })
     }
 
+    /// The last source line of a node, which its own position does not always cover.
+    fn end_line<'b>(node: &'b AstNode<'b>) -> usize {
+        let lines = node.descendants();
+        let lines = lines.map(|descendant| descendant.data.borrow().sourcepos.end.line);
+        lines.max().unwrap_or_default()
+    }
+
     /// Calculate the width of a list item marker.
     /// This is used to determine the indentation for continuation lines.
     fn calculate_marker_width(&self) -> usize {
@@ -242,7 +249,7 @@ impl<'a> Serializer<'a> {
                 }
                 // Blocks are separated by a blank line, except in tight lists, and for a
                 // nested list that follows the previous child directly in the original
-                let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
+                let prev_end_line = Self::end_line(children[i - 1]);
                 let curr_start_line = child.data.borrow().sourcepos.start.line;
                 let is_list = matches!(child_value, NodeValue::List(_));
                 if (!self.list_tight && !is_list) || curr_start_line > prev_end_line + 1 {
-- 
2.43.0


From 7b162c9cda7ebad3a1be7d86ad7a6921728215cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 30/69] fix: keep labels of headings in step with their text,
 and thematic breaks out of the list before them

---
 src/serializer/document.rs | 37 +++++++++++++++++++++++++++++++++++--
 src/serializer/list.rs     |  7 ++++++-
 src/serializer/mod.rs      |  2 +-
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 8d68d1f..4cb4faf 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -421,8 +421,33 @@ impl<'a> Serializer<'a> {
         self.in_description_details = was_in_description_details;
     }
 
+    /// Write the labels of the references that a heading added as the heading does after
+    /// its conversion to sentence case.
+    fn recase_labels(&mut self, known_references: usize, heading_text: &str) {
+        let fold = |text: &str| {
+            text.to_lowercase()
+                .replace(['\u{2018}', '\u{2019}'], "'")
+                .replace(['\u{201C}', '\u{201D}'], "\"")
+        };
+        for (_, reference) in self.pending_references.iter_mut().skip(known_references) {
+            let label = fold(&reference.label);
+            for (start, _) in heading_text.match_indices('[') {
+                let rest = &heading_text[start + 1..];
+                let end = rest.find(']').unwrap_or(rest.len());
+                if fold(&rest[..end]) == label
+                    && !rest[end..].starts_with("](")
+                    && (!rest[end..].starts_with("][") || rest[end..].starts_with("][]"))
+                {
+                    reference.label = rest[..end].to_string();
+                    break;
+                }
+            }
+        }
+    }
+
     pub(super) fn serialize_heading<'b>(&mut self, node: &'b AstNode<'b>, level: u8) {
         // Collect heading text first
+        let known_references = self.pending_references.len();
         let mut heading_text = self.collect_text(node);
 
         // Apply sentence case if enabled
@@ -437,6 +462,7 @@ impl<'a> Serializer<'a> {
 
             heading_text =
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
+            self.recase_labels(known_references, &heading_text);
         }
 
         // A hard line break needs an underlined heading; a text that would be read as
@@ -887,9 +913,16 @@ impl<'a> Serializer<'a> {
         false
     }
 
-    pub(super) fn serialize_thematic_break(&mut self) {
+    pub(super) fn serialize_thematic_break<'b>(&mut self, node: &'b AstNode<'b>) {
         let style = self.options.thematic_break_style.as_str();
-        let leading_spaces = self.options.thematic_break_leading_spaces.get();
+        let mut leading_spaces = self.options.thematic_break_leading_spaces.get();
+        if let Some(previous) = node.previous_sibling()
+            && let NodeValue::List(list) = &previous.data.borrow().value
+        {
+            // Indented like the items of the list before, it would be a part of it
+            let marker_width = self.marker_width(Some(list.list_type));
+            leading_spaces = leading_spaces.min(marker_width.saturating_sub(1));
+        }
 
         // Determine the prefix based on blockquote context
         if self.in_block_quote {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 28b704d..5871364 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -41,7 +41,12 @@ impl<'a> Serializer<'a> {
     /// Calculate the width of a list item marker.
     /// This is used to determine the indentation for continuation lines.
     fn calculate_marker_width(&self) -> usize {
-        match self.list_type {
+        self.marker_width(self.list_type)
+    }
+
+    /// Calculate the width of the item markers of a type of list.
+    pub(super) fn marker_width(&self, list_type: Option<ListType>) -> usize {
+        match list_type {
             Some(ListType::Bullet) => {
                 // " -  " = leading_spaces + 1 (marker) + trailing_spaces
                 self.options.leading_spaces.get() + 1 + self.options.trailing_spaces.get()
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index c441807..82144c7 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -601,7 +601,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_paragraph(node);
             }
             NodeValue::ThematicBreak => {
-                self.serialize_thematic_break();
+                self.serialize_thematic_break(node);
             }
             NodeValue::Text(text) => {
                 self.output.push_str(&escape::escape_text(text));
-- 
2.43.0


From e6bc164eb7103411bf4f24a81496e9769864c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 31/69] fix: put a space between a fence and an info string
 that begins with its character

---
 src/serializer/code.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 2d731b3..1af5406 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -128,7 +128,7 @@ impl<'a> Serializer<'a> {
         let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
@@ -201,7 +201,7 @@ impl<'a> Serializer<'a> {
         }
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
@@ -287,7 +287,7 @@ impl<'a> Serializer<'a> {
         // Output opening fence with optional language
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
-- 
2.43.0


From 3d91e07278b91637358450e3505fdb18ca8fb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 32/69] fix: count the leading spaces of lists in footnotes

---
 src/serializer/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 82144c7..1a8ffc6 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -433,14 +433,15 @@ impl<'a> Serializer<'a> {
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
-            // Blocks indented by 8 columns or more would become code blocks, and the lines
-            // of an HTML block that the footnote begins with keep any further indentation
-            let continuation_indent =
-                if continuation_indent.len() < 8 && !footnote.content.starts_with('<') {
-                    continuation_indent.as_str()
-                } else {
-                    "    "
-                };
+            // Blocks indented by 8 columns or more would become code blocks (list items have
+            // leading spaces of their own), and the lines of an HTML block that the footnote
+            // begins with keep any further indentation
+            let fits = continuation_indent.len() + self.options.leading_spaces.get() < 8;
+            let continuation_indent = if fits && !footnote.content.starts_with('<') {
+                continuation_indent.as_str()
+            } else {
+                "    "
+            };
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
-- 
2.43.0


From 267ed440157157229c4404336ede63e58f4e501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 33/69] fix: place footnotes that only footnotes refer to by
 the order of those

---
 src/serializer/document.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 4cb4faf..402bc1d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -566,29 +566,22 @@ impl<'a> Serializer<'a> {
         for child in body {
             self.collect_footnote_reference_lines_in(child, None);
         }
-        loop {
-            let mut remaining = Vec::new();
-            let before = definitions.len();
-            for child in definitions {
-                let line = match &child.data.borrow().value {
-                    NodeValue::FootnoteDefinition(def) => {
-                        self.footnotes.get_reference_line(&def.name)
-                    }
-                    _ => None,
-                };
-                if line.is_some() {
-                    self.collect_footnote_reference_lines_in(child, line);
-                } else {
-                    remaining.push(child);
-                }
+        // Those that footnotes refer to come in the order of the footnotes that do
+        let mut next = 0;
+        while let Some((name, line)) = self.footnotes.reference_lines.get_index(next) {
+            let (name, line) = (name.clone(), *line);
+            let position = definitions.iter().position(|child| {
+                matches!(&child.data.borrow().value,
+                    NodeValue::FootnoteDefinition(def) if def.name == name)
+            });
+            if let Some(position) = position {
+                let child = definitions.remove(position);
+                self.collect_footnote_reference_lines_in(child, Some(line));
             }
-            if remaining.len() == before {
-                for child in remaining {
-                    self.collect_footnote_reference_lines_in(child, None);
-                }
-                return;
-            }
-            definitions = remaining;
+            next += 1;
+        }
+        for child in definitions {
+            self.collect_footnote_reference_lines_in(child, None);
         }
     }
 
-- 
2.43.0


From fe9d5687759624dcf3ddbf4eda86f884a57da04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 34/69] fix: count the indentation of paragraphs in lists and
 footnotes as part of their lines

---
 src/serializer/document.rs | 26 +++++++++++++---
 src/serializer/mod.rs      | 62 +++++++++++++++++++++++++++++---------
 src/serializer/state.rs    |  4 +++
 3 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 402bc1d..21e29bc 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -533,17 +533,33 @@ impl<'a> Serializer<'a> {
             } else {
                 String::new()
             };
-            let wrapped = wrap::wrap_text(&inline_content, &prefix, self.options.line_width.get());
+            let wrapped = wrap::wrap_text(&inline_content, &prefix, self.wrap_width());
             self.output.push_str(&wrapped);
             self.output.push('\n');
         }
     }
 
-    /// Output wrapped text after a marker that is already output.
+    /// The line width, less the indentation that the output of this block gets later.
+    pub(super) fn wrap_width(&self) -> usize {
+        self.options
+            .line_width
+            .get()
+            .saturating_sub(self.outer_indent)
+    }
+
+    /// Output wrapped text after a marker or indentation that is already output.
     fn push_wrapped(&mut self, text: &str, continuation_prefix: &str) {
-        let line_width = self.options.line_width.get();
-        let wrapped = wrap::wrap_text_first_line(text, "", continuation_prefix, line_width);
-        self.output.push_str(&wrapped);
+        let line_width = self.wrap_width();
+        // Indentation that is already output counts, a marker does not
+        let line = self.output.rsplit('\n').next().unwrap_or_default();
+        let indent = if line.chars().all(|c| matches!(c, ' ' | '>')) {
+            line.to_string()
+        } else {
+            String::new()
+        };
+        let wrapped = wrap::wrap_text_first_line(text, &indent, continuation_prefix, line_width);
+        self.output
+            .push_str(wrapped.strip_prefix(&indent).unwrap_or_default());
     }
 
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1a8ffc6..c941587 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -428,20 +428,12 @@ impl<'a> Serializer<'a> {
     /// Write a single footnote definition to output, wrapping at line_width
     fn write_footnote(&mut self, footnote: &state::FootnoteDefinition) {
         let prefix = format!("[^{}]: ", footnote.name);
-        // Continuation indent matches prefix length for alignment
-        let continuation_indent = " ".repeat(prefix.len());
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
-            // Blocks indented by 8 columns or more would become code blocks (list items have
-            // leading spaces of their own), and the lines of an HTML block that the footnote
-            // begins with keep any further indentation
-            let fits = continuation_indent.len() + self.options.leading_spaces.get() < 8;
-            let continuation_indent = if fits && !footnote.content.starts_with('<') {
-                continuation_indent.as_str()
-            } else {
-                "    "
-            };
+            let starts_with_tag = footnote.content.starts_with('<');
+            let continuation_indent =
+                " ".repeat(self.footnote_block_indent(prefix.len(), starts_with_tag));
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
@@ -452,7 +444,7 @@ impl<'a> Serializer<'a> {
                     self.output.push_str("");
                 } else {
                     // Add continuation indent
-                    self.output.push_str(continuation_indent);
+                    self.output.push_str(&continuation_indent);
                     self.output.push_str(line);
                 }
                 self.output.push('\n');
@@ -462,6 +454,8 @@ impl<'a> Serializer<'a> {
 
         // Replace SoftBreak marker (\x00) with space before wrapping at line_width
         let content = footnote.content.replace('\x00', " ");
+        // Continuation indent matches prefix length for alignment
+        let continuation_indent = " ".repeat(prefix.len());
         let wrapped = wrap::wrap_text_first_line(
             &content,
             &prefix,
@@ -475,14 +469,51 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
     }
 
+    /// The indentation of the blocks of a footnote: that of its text, unless blocks would
+    /// become code blocks (from 8 columns on; list items have leading spaces of their own), or
+    /// the footnote begins with an HTML block, whose lines keep any further indentation.
+    fn footnote_block_indent(&self, prefix_len: usize, starts_with_tag: bool) -> usize {
+        if prefix_len + self.options.leading_spaces.get() < 8 && !starts_with_tag {
+            prefix_len
+        } else {
+            4
+        }
+    }
+
     /// Serialize footnote content that contains block elements.
     /// Returns the serialized content without the footnote prefix.
-    fn serialize_footnote_blocks<'b>(&mut self, node: &'b AstNode<'b>) -> String {
+    fn serialize_footnote_blocks<'b>(&mut self, node: &'b AstNode<'b>, name: &str) -> String {
         let mut result = String::new();
         let mut first_block = true;
+        let prefix_len = name.len() + "[^]: ".len();
+        let mut first_paragraph = None;
+        let starts_with_tag = match node.first_child() {
+            Some(child) if matches!(child.data.borrow().value, NodeValue::Paragraph) => {
+                let mut content = String::new();
+                self.collect_inline_content(child, &mut content);
+                let content = content.trim().to_string();
+                let starts_with_tag = content.starts_with('<');
+                first_paragraph = Some(content);
+                starts_with_tag
+            }
+            Some(child) => matches!(child.data.borrow().value, NodeValue::HtmlBlock(_)),
+            None => false,
+        };
+        let indent = self.footnote_block_indent(prefix_len, starts_with_tag);
+        self.outer_indent = indent;
 
         for child in node.children() {
-            let mut block_content = self.serialize_single_block(child);
+            let mut block_content = match first_paragraph.take() {
+                Some(content) => {
+                    // The first line stands after the label
+                    let first_prefix = " ".repeat(prefix_len.saturating_sub(indent));
+                    let width = self.wrap_width();
+                    wrap::wrap_text_first_line(&content, &first_prefix, "", width)
+                        .trim()
+                        .to_string()
+                }
+                None => self.serialize_single_block(child),
+            };
             if let NodeValue::HtmlBlock(_) = &child.data.borrow().value {
                 // Without the indentation beyond that of the footnote, which would grow
                 let lines = block_content.lines().filter(|line| !line.trim().is_empty());
@@ -509,6 +540,7 @@ impl<'a> Serializer<'a> {
             result.push_str(&block_content);
             first_block = false;
         }
+        self.outer_indent = 0;
 
         result.trim_end().to_string()
     }
@@ -670,7 +702,7 @@ impl<'a> Serializer<'a> {
 
                 let content = if has_blocks {
                     // Serialize block elements properly
-                    self.serialize_footnote_blocks(node)
+                    self.serialize_footnote_blocks(node, &footnote_def.name)
                 } else {
                     // Simple inline content - use existing approach
                     let mut content = String::new();
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 2508845..02e7d1c 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -278,6 +278,8 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
+    /// Indentation of the blocks that are being serialized, if it is added only later
+    pub outer_indent: usize,
     /// The list depth when entering the current blockquote.
     /// Used to determine if a list exists inside vs outside the blockquote.
     pub blockquote_entry_list_depth: usize,
@@ -317,6 +319,7 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
+            outer_indent: 0,
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
@@ -354,6 +357,7 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
+            outer_indent: 0,
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
-- 
2.43.0


From 45badee8eb0f091b599c20a36843cf278e3efb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 35/69] fix: recase labels with escaped brackets

---
 src/serializer/document.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 21e29bc..70c8a7d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -431,16 +431,18 @@ impl<'a> Serializer<'a> {
         };
         for (_, reference) in self.pending_references.iter_mut().skip(known_references) {
             let label = fold(&reference.label);
-            for (start, _) in heading_text.match_indices('[') {
+            let is_shortcut = |rest: &str| {
+                !rest.starts_with("](") && (!rest.starts_with("][") || rest.starts_with("][]"))
+            };
+            let written = heading_text.match_indices('[').find_map(|(start, _)| {
                 let rest = &heading_text[start + 1..];
-                let end = rest.find(']').unwrap_or(rest.len());
-                if fold(&rest[..end]) == label
-                    && !rest[end..].starts_with("](")
-                    && (!rest[end..].starts_with("][") || rest[end..].starts_with("][]"))
-                {
-                    reference.label = rest[..end].to_string();
-                    break;
-                }
+                let mut ends = rest.match_indices(']').map(|(end, _)| end);
+                let end =
+                    ends.find(|&end| fold(&rest[..end]) == label && is_shortcut(&rest[end..]))?;
+                Some(rest[..end].to_string())
+            });
+            if let Some(written) = written {
+                reference.label = written;
             }
         }
     }
-- 
2.43.0


From 6444049a0d4da02b625f316dffc33f45d4d88a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 36/69] fix: pair up quotation marks across soft line breaks

---
 src/serializer/inline.rs | 56 ++++++++++++++++++++++++++++++++++++++--
 src/serializer/state.rs  |  4 +++
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index c1850dd..968a693 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -37,11 +37,63 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Replace the punctuation of a text node. Quotations may go on across soft line breaks,
+    /// so lines are looked at together.
+    fn transform_text<'b>(&mut self, node: &'b AstNode<'b>, text: &str) -> String {
+        let is_line = |n: &'b AstNode<'b>| {
+            matches!(
+                n.data.borrow().value,
+                NodeValue::Text(_) | NodeValue::SoftBreak
+            )
+        };
+        let has_neighbor = [node.previous_sibling(), node.next_sibling()]
+            .into_iter()
+            .flatten()
+            .any(is_line);
+        if !has_neighbor || !text.contains(['\'', '"']) {
+            return punctuation::transform_punctuation(text, self.options);
+        }
+        let key = |n: &'b AstNode<'b>| std::ptr::from_ref(n).cast::<()>();
+        if !self.transformed_lines.contains_key(&key(node)) {
+            let first = node
+                .preceding_siblings()
+                .take_while(|n| is_line(n))
+                .last()
+                .unwrap_or(node);
+            let run: Vec<_> = first
+                .following_siblings()
+                .take_while(|n| is_line(n))
+                .collect();
+            let mut joined = String::new();
+            for n in &run {
+                match &n.data.borrow().value {
+                    NodeValue::Text(t) => joined.push_str(t),
+                    _ => joined.push('\n'),
+                }
+            }
+            let transformed = punctuation::transform_punctuation(&joined, self.options);
+            let lines: Vec<_> = transformed.split('\n').collect();
+            let mut at = 0;
+            self.transformed_lines.clear();
+            for n in &run {
+                if let NodeValue::Text(t) = &n.data.borrow().value {
+                    let end = at + t.matches('\n').count();
+                    let text = lines[at..=end].join("\n");
+                    self.transformed_lines.insert(key(n), text);
+                    at = end;
+                } else {
+                    at += 1;
+                }
+            }
+        }
+        self.transformed_lines[&key(node)].clone()
+    }
+
     fn collect_text_recursive<'b>(&mut self, node: &'b AstNode<'b>, text: &mut String) {
         match &node.data.borrow().value {
             NodeValue::Text(t) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(t, self.options);
+                let transformed = self.transform_text(node, t);
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
@@ -125,7 +177,7 @@ impl<'a> Serializer<'a> {
         match &node.data.borrow().value {
             NodeValue::Text(text) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(text, self.options);
+                let transformed = self.transform_text(node, text);
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 02e7d1c..1aa88d3 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -287,6 +287,8 @@ pub struct Serializer<'a> {
     pub directive_proper_nouns: Vec<String>,
     /// Common nouns defined via directives for sentence case (merged with config)
     pub directive_common_nouns: Vec<String>,
+    /// Transformed text of the nodes of the current run of lines, by node
+    pub transformed_lines: std::collections::HashMap<*const (), String>,
     /// Code formatter callback for WASM builds.
     #[cfg(feature = "wasm")]
     pub code_formatter_callback: CodeFormatterCallback,
@@ -323,6 +325,7 @@ impl<'a> Serializer<'a> {
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
+            transformed_lines: std::collections::HashMap::new(),
             #[cfg(feature = "wasm")]
             code_formatter_callback: None,
         }
@@ -361,6 +364,7 @@ impl<'a> Serializer<'a> {
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
+            transformed_lines: std::collections::HashMap::new(),
             code_formatter_callback: callback,
         }
     }
-- 
2.43.0


From 479e8be321f85db6d13d665fb2dfdea993d3148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 37/69] fix: keep apostrophes at word ends before replaced
 punctuation

---
 src/serializer/punctuation.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1be6265..d70cf4b 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -203,7 +203,9 @@ fn transform_single_quotes(text: &str) -> String {
             if expecting_open
                 && prev_is_letter
                 && (next_char.is_none()
-                    || next_char.is_some_and(|c| c.is_whitespace() || c.is_ascii_punctuation()))
+                    || next_char.is_some_and(|c| {
+                        c.is_whitespace() || c.is_ascii_punctuation() || is_replacement(c)
+                    }))
             {
                 result.push(ch);
                 continue;
@@ -290,6 +292,15 @@ fn transform_single_quotes(text: &str) -> String {
     result
 }
 
+/// Whether a character is what earlier transformations put in the place of ASCII
+/// punctuation.
+fn is_replacement(c: char) -> bool {
+    matches!(
+        c,
+        LEFT_DOUBLE_QUOTE | RIGHT_DOUBLE_QUOTE | ELLIPSIS | EN_DASH | EM_DASH
+    )
+}
+
 /// Transform straight apostrophes within words to curly apostrophes.
 /// This function is conservative to avoid converting single quotes used as quotation marks.
 fn transform_apostrophes(text: &str) -> String {
-- 
2.43.0


From 086d5879002187f5d5cb8fd0a9c00881ffa99d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 38/69] fix: leave no three dots behind in longer runs of dots

---
 src/serializer/punctuation.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index d70cf4b..9b22b9a 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -116,24 +116,16 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
 
 /// Transform three consecutive dots to ellipsis character.
 fn transform_ellipsis(text: &str) -> String {
-    // Replace ... with ellipsis, but handle .... (4 dots) as ellipsis + period
+    // Replace ... with ellipsis
     let mut result = String::with_capacity(text.len());
     let chars: Vec<char> = text.chars().collect();
     let mut i = 0;
 
     while i < chars.len() {
         if i + 2 < chars.len() && chars[i] == '.' && chars[i + 1] == '.' && chars[i + 2] == '.' {
-            // Check if there's a 4th dot
-            if i + 3 < chars.len() && chars[i + 3] == '.' {
-                // Four dots: ellipsis + period
-                result.push(ELLIPSIS);
-                result.push('.');
-                i += 4;
-            } else {
-                // Three dots: just ellipsis
-                result.push(ELLIPSIS);
-                i += 3;
-            }
+            // Four dots become an ellipsis and a period, six dots two ellipses
+            result.push(ELLIPSIS);
+            i += 3;
         } else {
             result.push(chars[i]);
             i += 1;
-- 
2.43.0


From 60ea630eb98876bd0b242bf2f12aba001285afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 39/69] fix: indent what follows a long item number by its
 whole width

An item number that takes more than the configured width (from the
hundredth item on, by default) is followed by one space, but the blocks
of the item were indented by the configured width only, so that they
were not part of the item.
---
 src/serializer/list.rs  | 41 +++++++++++++++++++++--------------------
 src/serializer/state.rs |  4 ++++
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 5871364..edd4ed1 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -41,7 +41,12 @@ impl<'a> Serializer<'a> {
     /// Calculate the width of a list item marker.
     /// This is used to determine the indentation for continuation lines.
     fn calculate_marker_width(&self) -> usize {
-        self.marker_width(self.list_type)
+        let width = self.marker_width(self.list_type);
+        match self.list_type {
+            // A long number is followed by at least one space
+            Some(ListType::Ordered) => width.max(self.list_item_index.to_string().len() + 2),
+            _ => width,
+        }
     }
 
     /// Calculate the width of the item markers of a type of list.
@@ -137,16 +142,14 @@ impl<'a> Serializer<'a> {
             Some(ListType::Ordered) => self.options.ordered_list_indent_width.get(),
             _ => self.options.indent_width.get(),
         };
-        if self.list_depth > 1 {
-            let indent = format!(
-                "{}{}",
-                desc_base_indent,
-                " ".repeat(indent_width * (self.list_depth - 1))
-            );
-            self.output.push_str(&indent);
-        } else {
-            self.output.push_str(desc_base_indent);
-        }
+        // The numbers of outer items may take more than the width they are indented by
+        let outer_excess = match self.list_depth {
+            0 | 1 => 0,
+            _ => self.list_marker_excess,
+        };
+        let nesting_indent = indent_width * self.list_depth.saturating_sub(1) + outer_excess;
+        self.output.push_str(desc_base_indent);
+        self.output.push_str(&" ".repeat(nesting_indent));
 
         match self.list_type {
             Some(ListType::Bullet) => {
@@ -178,8 +181,7 @@ impl<'a> Serializer<'a> {
                 // Calculate trailing spaces to maintain fixed marker width
                 // marker_width = number + marker_char + trailing
                 // trailing = marker_width - number - 1 (minimum 1)
-                let marker_width = self.options.ordered_list_indent_width.get();
-                let trailing_count = marker_width.saturating_sub(current_num_width + 1).max(1);
+                let trailing_count = self.calculate_marker_width() - current_num_width - 1;
 
                 self.output.push_str(&current_num);
                 self.output.push(marker);
@@ -212,7 +214,7 @@ impl<'a> Serializer<'a> {
                 }
                 Some(ListType::Ordered) => {
                     // For ordered lists in description details, still use full width
-                    self.options.ordered_list_indent_width.get()
+                    marker_width
                 }
                 None => 0,
             }
@@ -223,16 +225,12 @@ impl<'a> Serializer<'a> {
             // Inside description details, add extra 5-space indent
             format!(
                 "{}{}",
-                " ".repeat(5 + indent_width * (self.list_depth - 1)),
+                " ".repeat(5 + nesting_indent),
                 " ".repeat(marker_width_for_indent)
             )
         } else if self.list_depth > 1 {
             // Nested list: outer indent + marker width
-            format!(
-                "{}{}",
-                " ".repeat(indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width)
-            )
+            format!("{}{}", " ".repeat(nesting_indent), " ".repeat(marker_width))
         } else {
             // Top-level list: just marker width
             " ".repeat(marker_width)
@@ -241,6 +239,8 @@ impl<'a> Serializer<'a> {
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
+        let excess = outer_excess + marker_width - self.marker_width(self.list_type);
+        let old_list_marker_excess = std::mem::replace(&mut self.list_marker_excess, excess);
 
         let line_prefix = format!("{}{}", self.blockquote_prefix, base_indent);
         for (i, child) in children.iter().enumerate() {
@@ -305,6 +305,7 @@ impl<'a> Serializer<'a> {
 
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
+        self.list_marker_excess = old_list_marker_excess;
 
         // Only add newline if the last child doesn't already end with one
         // (nested lists, code blocks, and blockquotes add their own newlines)
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 1aa88d3..b36ed35 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -278,6 +278,8 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
+    /// Columns by which the markers of the current list items are wider than configured
+    pub list_marker_excess: usize,
     /// Indentation of the blocks that are being serialized, if it is added only later
     pub outer_indent: usize,
     /// The list depth when entering the current blockquote.
@@ -321,6 +323,7 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
+            list_marker_excess: 0,
             outer_indent: 0,
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
@@ -360,6 +363,7 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
+            list_marker_excess: 0,
             outer_indent: 0,
             blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
-- 
2.43.0


From d028723fec844143a7008bb4eb4771f18357e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 40/69] fix: keep the blank line between two lists of a quoted
 item

The position of a list in a block quote covers the blank line after it,
so the blank line to the next list was taken for a part of the first,
and a loose list became tight.
---
 src/serializer/list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index edd4ed1..24992ff 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -32,9 +32,17 @@ impl<'a> Serializer<'a> {
     }
 
     /// The last source line of a node, which its own position does not always cover.
+    /// Lists and their items can end with the blank line after them.
     fn end_line<'b>(node: &'b AstNode<'b>) -> usize {
-        let lines = node.descendants();
-        let lines = lines.map(|descendant| descendant.data.borrow().sourcepos.end.line);
+        let lines = node.descendants().map(|descendant| {
+            let data = descendant.data.borrow();
+            match data.value {
+                NodeValue::List(_) | NodeValue::Item(_) | NodeValue::TaskItem(_) => {
+                    data.sourcepos.start.line
+                }
+                _ => data.sourcepos.end.line,
+            }
+        });
         lines.max().unwrap_or_default()
     }
 
-- 
2.43.0


From 14ba63ba35b3b7e97f786a1f918b3e53541e5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 41/69] fix: do not capitalize the word after a quotation that
 begins a heading

The quotation holds the first word of the heading.
---
 src/serializer/heading.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index d5dbb63..0dd85b8 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -43,6 +43,7 @@ pub fn to_sentence_case(
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
                 result.push_str(&processed);
+                is_first_word = false;
             }
             Token::Text(content) => {
                 let processed = process_text(
-- 
2.43.0


From d835ea81f74a74ed751eefd7c70e690a4b2b5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 42/69] fix: do not take a word before a period for an acronym
 in headings

The last word of `Hello World.` kept its capital because of the period.
---
 src/serializer/heading.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0dd85b8..3596899 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -825,9 +825,9 @@ fn is_acronym(word: &str) -> bool {
             if chars[i].is_uppercase() {
                 uppercase_count += 1;
             }
-            // Check if next char is a period
+            // Check if next char is a period (one at the end may only end a sentence)
             if i + 1 < chars.len() && chars[i + 1] == '.' {
-                has_period = true;
+                has_period |= chars.get(i + 2).is_some_and(|c| c.is_alphabetic());
                 i += 2; // Skip the period
                 continue;
             }
-- 
2.43.0


From 0ca1dc4487494a82997c8cc28b876db4934e6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 43/69] fix: keep the capital of a word between two delimiters
 in headings

A word after a delimiter keeps its capital, also if it is followed by
another delimiter itself.
---
 src/serializer/heading.rs | 47 +++++++++------------------------------
 1 file changed, 10 insertions(+), 37 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 3596899..5f6c88f 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -569,38 +569,19 @@ fn process_text(
     // Step 3: Process text word-by-word (placeholders won't match any rules)
     let mut result = String::new();
     let mut current_word = String::new();
-    let mut word_count = 0;
     let mut after_delimiter = false; // Track if we're after :, ;, or —
 
     for ch in text_with_placeholders.chars() {
         if ch.is_whitespace() {
             if !current_word.is_empty() {
-                // Check if the current word starts with uppercase in original text
-                let original_is_uppercase = current_word
-                    .chars()
-                    .next()
-                    .map(|c| c.is_uppercase())
-                    .unwrap_or(false);
-
-                // Only the very first word (word_count == 0) gets first-word treatment
-                // Words after delimiters preserve their original capitalization
-                let should_capitalize = if word_count == 0 && *is_first_word {
-                    true
-                } else if after_delimiter {
-                    original_is_uppercase
-                } else {
-                    false
-                };
-
                 let processed = process_word(
                     &current_word,
-                    should_capitalize,
+                    should_capitalize(&current_word, *is_first_word, after_delimiter),
                     user_proper_nouns,
                     common_nouns,
                 );
                 result.push_str(&processed);
                 current_word.clear();
-                word_count += 1;
                 *is_first_word = false;
                 after_delimiter = false;
             }
@@ -612,13 +593,12 @@ fn process_text(
                 if !current_word.is_empty() {
                     let processed = process_word(
                         &current_word,
-                        word_count == 0 && *is_first_word,
+                        should_capitalize(&current_word, *is_first_word, after_delimiter),
                         user_proper_nouns,
                         common_nouns,
                     );
                     result.push_str(&processed);
                     current_word.clear();
-                    word_count += 1;
                     *is_first_word = false;
                 }
                 result.push(ch);
@@ -631,23 +611,9 @@ fn process_text(
 
     // Process remaining word
     if !current_word.is_empty() {
-        let original_is_uppercase = current_word
-            .chars()
-            .next()
-            .map(|c| c.is_uppercase())
-            .unwrap_or(false);
-
-        let should_capitalize = if word_count == 0 && *is_first_word {
-            true
-        } else if after_delimiter {
-            original_is_uppercase
-        } else {
-            false
-        };
-
         let processed = process_word(
             &current_word,
-            should_capitalize,
+            should_capitalize(&current_word, *is_first_word, after_delimiter),
             user_proper_nouns,
             common_nouns,
         );
@@ -659,6 +625,13 @@ fn process_text(
     restore_placeholders(&result, &replacements)
 }
 
+/// Whether the first letter of a word becomes a capital, unless other rules decide it.
+/// Only the very first word gets first-word treatment; words after delimiters preserve
+/// their original capitalization.
+fn should_capitalize(word: &str, is_first_word: bool, after_delimiter: bool) -> bool {
+    is_first_word || (after_delimiter && word.chars().next().is_some_and(char::is_uppercase))
+}
+
 /// Process a single word according to sentence case rules.
 fn process_word(
     word: &str,
-- 
2.43.0


From f53103da33d6137e2557e04c5e4b4021fa4df255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 44/69] fix: apply sentence case to words behind opening
 punctuation

In headings, only the very first character of a word was looked at, so
that a word in parentheses, emphasis or a link lost its capital at the
beginning of a heading, and an acronym its form.
---
 src/serializer/heading.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 5f6c88f..252a5be 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -629,9 +629,16 @@ fn process_text(
 /// Only the very first word gets first-word treatment; words after delimiters preserve
 /// their original capitalization.
 fn should_capitalize(word: &str, is_first_word: bool, after_delimiter: bool) -> bool {
+    let (_, word) = split_opening(word);
     is_first_word || (after_delimiter && word.chars().next().is_some_and(char::is_uppercase))
 }
 
+/// Split opening punctuation and markup off a word.
+fn split_opening(word: &str) -> (&str, &str) {
+    let is_opening = |c: char| "*_~[({\"'\u{201C}\u{2018}¡¿".contains(c);
+    word.split_at(word.len() - word.trim_start_matches(is_opening).len())
+}
+
 /// Process a single word according to sentence case rules.
 fn process_word(
     word: &str,
@@ -732,6 +739,13 @@ fn process_word_simple(
         return word.to_string();
     }
 
+    // The rules are about the word itself
+    let (opening, inner) = split_opening(word);
+    if !opening.is_empty() {
+        let processed = process_word_simple(inner, is_first, user_proper_nouns, common_nouns);
+        return format!("{opening}{processed}");
+    }
+
     // Check if all alphabetic characters are uppercase (intentional emphasis)
     let alphabetic_chars: Vec<char> = word.chars().filter(|c| c.is_alphabetic()).collect();
     if !alphabetic_chars.is_empty() && alphabetic_chars.iter().all(|c| c.is_uppercase()) {
-- 
2.43.0


From b2e083a216ecda88b0e9db47e3614cd3869c5122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 45/69] fix: capitalize the first word behind an emoji in
 headings

A symbol at the beginning of a heading is not its first word.
---
 src/serializer/heading.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 252a5be..034b739 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -581,9 +581,11 @@ fn process_text(
                     common_nouns,
                 );
                 result.push_str(&processed);
+                if has_alphanumeric(&current_word) {
+                    *is_first_word = false;
+                    after_delimiter = false;
+                }
                 current_word.clear();
-                *is_first_word = false;
-                after_delimiter = false;
             }
             result.push(ch);
         } else {
@@ -598,8 +600,10 @@ fn process_text(
                         common_nouns,
                     );
                     result.push_str(&processed);
+                    if has_alphanumeric(&current_word) {
+                        *is_first_word = false;
+                    }
                     current_word.clear();
-                    *is_first_word = false;
                 }
                 result.push(ch);
                 after_delimiter = true;
@@ -618,7 +622,9 @@ fn process_text(
             common_nouns,
         );
         result.push_str(&processed);
-        *is_first_word = false;
+        if has_alphanumeric(&current_word) {
+            *is_first_word = false;
+        }
     }
 
     // Step 4: Restore placeholders back to original proper nouns
@@ -633,6 +639,11 @@ fn should_capitalize(word: &str, is_first_word: bool, after_delimiter: bool) ->
     is_first_word || (after_delimiter && word.chars().next().is_some_and(char::is_uppercase))
 }
 
+/// Whether this is more than an emoji or another symbol.
+fn has_alphanumeric(word: &str) -> bool {
+    word.chars().any(char::is_alphanumeric)
+}
+
 /// Split opening punctuation and markup off a word.
 fn split_opening(word: &str) -> (&str, &str) {
     let is_opening = |c: char| "*_~[({\"'\u{201C}\u{2018}¡¿".contains(c);
-- 
2.43.0


From 0c1b583d38ea52dd298728a3c70d596ca5e09a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 46/69] fix: leave first letters without a capital as they are
 in headings
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A heading that begins with such a letter as `ß` got `SS` instead, and if
it was in the text of a link, the definition no longer matched.
---
 src/serializer/heading.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 034b739..28ae8d9 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -915,7 +915,11 @@ fn capitalize_first(word: &str) -> String {
     match chars.next() {
         None => String::new(),
         Some(first) => {
-            let mut result = first.to_uppercase().to_string();
+            // Letters without a capital of their own stay (`ß` would become `SS`)
+            let mut result = match first.to_uppercase().collect::<Vec<_>>()[..] {
+                [capital] => capital.to_string(),
+                _ => first.to_string(),
+            };
             result.push_str(&chars.as_str().to_lowercase());
             result
         }
-- 
2.43.0


From d4869f9865235979f2109ed45ab4d1413c3e45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 47/69] fix: underline headings that begin with the link of a
 single letter

Only a task box, which is followed by a space, would be read as another
block.
---
 src/serializer/wrap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index fc517ea..c290d0a 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -525,7 +525,8 @@ pub(super) fn starts_other_block(line: &str) -> bool {
         || list_marker
         || is_lone_tag(line)
         || line.starts_with("[!")
-        || (chars[0] == '[' && (chars.get(2) == Some(&']') || line.contains("]:")))
+        || (chars[0] == '[' && line.contains("]:"))
+        || matches!(chars[..], ['[', _, ']'] | ['[', _, ']', ' ', ..])
 }
 
 /// Whether a line consists of dashes or equals signs, which makes it an underline of the
-- 
2.43.0


From 0c357db56bcf07360b36edf989e2ae94c1f3c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 48/69] fix: end the output with a newline after HTML without
 one

A document that ended with an HTML block and no newline came out without
the newline, too.
---
 src/serializer/document.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 70c8a7d..3efe2dd 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -242,6 +242,11 @@ impl<'a> Serializer<'a> {
 
         // Output trailing HTML blocks after references and footnotes
         self.output_trailing_html_blocks(&children, trailing_html_start);
+
+        // HTML blocks end as in the original, where the last line may not be terminated
+        if !self.output.is_empty() && !self.output.ends_with('\n') {
+            self.output.push('\n');
+        }
     }
 
     /// Find the index where trailing HTML blocks start.
-- 
2.43.0


From d22429a9adef854d3c3033d63a4ab2f50797f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 49/69] fix: do not mix line endings

With carriage returns in the input, front matter and HTML kept them,
while everything else was written with line feeds only.
---
 src/lib.rs  | 13 +++++++++++++
 src/wasm.rs |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..567b0ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,8 @@ pub use config::{
 pub use serializer::Warning;
 pub use serializer::punctuation::{PunctuationError, validate_dash_settings};
 
+use std::borrow::Cow;
+
 use comrak::{Arena, Options as ComrakOptions, parse_document};
 
 /// External code formatter configuration.
@@ -208,6 +210,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     if input.is_empty() {
         return Ok(String::new());
     }
+    let input = &*normalize_line_endings(input);
 
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
@@ -224,6 +227,15 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     Ok(output)
 }
 
+/// The output has line feeds only, also in what is taken over from the input.
+fn normalize_line_endings(input: &str) -> Cow<'_, str> {
+    if input.contains('\r') {
+        Cow::Owned(input.replace("\r\n", "\n"))
+    } else {
+        Cow::Borrowed(input)
+    }
+}
+
 /// Result of formatting with warnings.
 #[derive(Debug)]
 pub struct FormatResult {
@@ -253,6 +265,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
             warnings: Vec::new(),
         });
     }
+    let input = &*normalize_line_endings(input);
 
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
diff --git a/src/wasm.rs b/src/wasm.rs
index cbaeaf4..7a3e759 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -356,6 +356,8 @@ pub fn format_with_code_formatter(
         return serde_wasm_bindgen::to_value(&js_result).map_err(|e| JsError::new(&e.to_string()));
     }
 
+    let input = &*crate::normalize_line_endings(input);
+
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-- 
2.43.0


From 58462ac7e51f02be370e09faa660d9e86c3835a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 50/69] fix: output disabled regions exactly as in the source

---
 src/lib.rs                 |  24 +--
 src/serializer/document.rs | 307 ++++++++----------------------
 src/serializer/mod.rs      |   1 +
 src/serializer/state.rs    |  63 +------
 src/serializer/verbatim.rs | 370 +++++++++++++++++++++++++++++++++++++
 5 files changed, 469 insertions(+), 296 deletions(-)
 create mode 100644 src/serializer/verbatim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 567b0ae..0db8847 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -213,6 +213,16 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     let input = &*normalize_line_endings(input);
 
     let arena = Arena::new();
+    let comrak_options = comrak_options();
+
+    let root = parse_document(&arena, input, &comrak_options);
+    let output = serializer::serialize_with_source(root, options, Some(input));
+
+    Ok(output)
+}
+
+/// The syntax that documents are parsed with.
+pub(crate) fn comrak_options() -> ComrakOptions<'static> {
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
     comrak_options.extension.table = true;
@@ -220,11 +230,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.alerts = true;
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
-
-    let root = parse_document(&arena, input, &comrak_options);
-    let output = serializer::serialize_with_source(root, options, Some(input));
-
-    Ok(output)
+    comrak_options
 }
 
 /// The output has line feeds only, also in what is taken over from the input.
@@ -268,13 +274,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     let input = &*normalize_line_endings(input);
 
     let arena = Arena::new();
-    let mut comrak_options = ComrakOptions::default();
-    comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-    comrak_options.extension.table = true;
-    comrak_options.extension.description_lists = true;
-    comrak_options.extension.alerts = true;
-    comrak_options.extension.footnotes = true;
-    comrak_options.extension.tasklist = true;
+    let comrak_options = comrak_options();
 
     let root = parse_document(&arena, input, &comrak_options);
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 3efe2dd..1eb0e8f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -5,13 +5,17 @@ use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
-use super::state::{Directive, FormatSkipMode};
+use super::state::Directive;
+use super::verbatim::RegionEnding;
 use super::wrap;
 
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         let children: Vec<_> = node.children().collect();
 
+        // Find what is excluded from formatting
+        self.verbatim_regions = self.find_verbatim_regions(&children);
+
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
 
@@ -23,6 +27,9 @@ impl<'a> Serializer<'a> {
         // but we need to know reference lines before flushing at section boundaries
         self.collect_footnote_reference_lines(node);
 
+        // The excluded regions keep their definitions, and need some from outside
+        self.plan_verbatim_definitions(node, &children);
+
         // Second pass: process all FootnoteDefinition nodes first
         // This ensures pending_footnotes is populated before we flush at section boundaries
         let mut definitions: Vec<_> = children
@@ -37,14 +44,23 @@ impl<'a> Serializer<'a> {
             .collect();
         definitions.sort_by_key(|(order, _)| *order);
         for (_, child) in definitions {
-            self.serialize_node(child);
+            if !self.is_verbatim_line(child.data.borrow().sourcepos.start.line) {
+                self.serialize_node(child);
+            }
         }
 
         // Identify trailing HTML blocks (non-directive comments at the end of document)
         // These should be output after reference definitions to maintain their position
         let trailing_html_start = self.find_trailing_html_blocks(&children);
 
+        let mut next = 0;
+        let mut separate = true;
         for (i, child) in children.iter().enumerate() {
+            // Skip what is in a region that has been output
+            if i < next {
+                continue;
+            }
+            next = i + 1;
             // Skip trailing HTML blocks for now - they'll be output after references
             if i >= trailing_html_start
                 && let NodeValue::HtmlBlock(_) = &child.data.borrow().value
@@ -59,106 +75,44 @@ impl<'a> Serializer<'a> {
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
                 && let Some(directive) = Directive::parse(&html_block.literal)
             {
-                match directive {
-                    Directive::DisableFile => {
-                        // Flush pending footnotes and references BEFORE the disable-file directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        // Output the directive comment, then output remaining content as-is
-                        self.output.push_str(html_block.literal.trim_end());
-                        // Get the line after the directive block ends
-                        let directive_end_line = child.data.borrow().sourcepos.end.line;
-                        // Extract everything from the next line to the end of file
-                        if let Some(remaining) =
-                            self.extract_source_from_line(directive_end_line + 1)
+                let region = self
+                    .verbatim_regions
+                    .iter()
+                    .find(|region| region.directive == i)
+                    .cloned();
+                if let Some(region) = &region {
+                    // Definitions that appear before the directive should stay before it.
+                    let directive_line = child.data.borrow().sourcepos.start.line;
+                    self.flush_before_region(region, directive_line);
+                }
+
+                // Output the directive comment
+                if i > 0 && separate {
+                    self.separate_from(children[i - 1]);
+                }
+                separate = true;
+                self.output
+                    .push_str(html_block.literal.trim_end_matches('\n'));
+                self.output.push('\n');
+                self.add_directive_nouns(directive);
+
+                if let Some(region) = region {
+                    self.output_region(&region);
+                    for covered in &children[i + 1..region.next] {
+                        if let NodeValue::HtmlBlock(html_block) = &covered.data.borrow().value
+                            && let Some(directive) = Directive::parse(&html_block.literal)
                         {
-                            self.output.push('\n');
-                            self.output.push_str(&remaining);
-                        }
-                        return;
-                    }
-                    Directive::DisableNextLine => {
-                        // Flush pending footnotes and references BEFORE the directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::NextBlock;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::DisableNextSection => {
-                        // Flush pending footnotes and references BEFORE the directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::UntilSection;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
+                            self.add_directive_nouns(directive);
                         }
-                        self.output.push_str(&html_block.literal);
-                        continue;
                     }
-                    Directive::Disable => {
-                        // Flush pending footnotes and references BEFORE the disable directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::Disabled;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::Enable => {
-                        self.skip_mode = FormatSkipMode::None;
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::ProperNouns(nouns) => {
-                        // Add to directive proper nouns list
-                        self.directive_proper_nouns.extend(nouns);
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::CommonNouns(nouns) => {
-                        // Add to directive common nouns list
-                        self.directive_common_nouns.extend(nouns);
-                        // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
-                        self.output.push_str(&html_block.literal);
-                        continue;
+                    match region.ending {
+                        RegionEnding::File => return,
+                        RegionEnding::Enable => separate = false,
+                        RegionEnding::Block => {}
                     }
+                    next = region.next;
                 }
+                continue;
             }
 
             // Check if we're about to start a new section (h2 or h3 heading)
@@ -181,55 +135,18 @@ impl<'a> Serializer<'a> {
 
             // Add blank line between block elements (except after front matter)
             if i > 0 {
+                // Check if previous element was a heading (empty section)
+                let prev_is_heading =
+                    matches!(&children[i - 1].data.borrow().value, NodeValue::Heading(_));
                 let prev_is_front_matter = matches!(
                     &children[i - 1].data.borrow().value,
                     NodeValue::FrontMatter(_)
                 );
-                if prev_is_front_matter {
-                    // No extra blank line needed after front matter
-                } else if is_h2 {
-                    // Check if previous element was a heading (empty section)
-                    let prev_is_heading =
-                        matches!(&children[i - 1].data.borrow().value, NodeValue::Heading(_));
-                    if prev_is_heading {
-                        // Just one blank line between consecutive headings
-                        self.output.push('\n');
-                    } else {
-                        // Two blank lines before h2 sections (one after content + one extra)
-                        self.output.push_str("\n\n");
-                    }
-                } else {
+                if is_h2 && !prev_is_heading && !prev_is_front_matter {
+                    // Two blank lines before h2 sections (one after content + one extra)
                     self.output.push('\n');
                 }
-            }
-
-            // Check if this block should be output as-is (skip formatting)
-            if self.should_skip_formatting() {
-                // For NextBlock mode, reset after this block
-                let was_next_block = self.skip_mode == FormatSkipMode::NextBlock;
-                if was_next_block {
-                    self.skip_mode = FormatSkipMode::None;
-                }
-
-                // For UntilSection mode, check if this is a heading to reset
-                if self.skip_mode == FormatSkipMode::UntilSection
-                    && let NodeValue::Heading(h) = &child.data.borrow().value
-                    && h.level <= 2
-                {
-                    self.skip_mode = FormatSkipMode::None;
-                    // Continue with normal formatting for this heading
-                    self.serialize_node(child);
-                    continue;
-                }
-
-                // Output the original source
-                if let Some(source) = self.extract_source(child) {
-                    self.output.push_str(&source);
-                    self.output.push('\n');
-                } else {
-                    self.serialize_node(child);
-                }
-                continue;
+                self.separate_from(children[i - 1]);
             }
 
             self.serialize_node(child);
@@ -249,14 +166,31 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Add a blank line after the previous block (except after front matter, which has one).
+    fn separate_from<'b>(&mut self, previous: &'b AstNode<'b>) {
+        if !matches!(previous.data.borrow().value, NodeValue::FrontMatter(_)) {
+            self.output.push('\n');
+        }
+    }
+
+    /// Add the nouns that a directive defines.
+    fn add_directive_nouns(&mut self, directive: Directive) {
+        match directive {
+            Directive::ProperNouns(nouns) => self.directive_proper_nouns.extend(nouns),
+            Directive::CommonNouns(nouns) => self.directive_common_nouns.extend(nouns),
+            _ => {}
+        }
+    }
+
     /// Find the index where trailing HTML blocks start.
     /// Returns `children.len()` if there are no trailing HTML blocks.
     fn find_trailing_html_blocks<'b>(&self, children: &[&'b AstNode<'b>]) -> usize {
         let mut trailing_start = children.len();
+        let covered = self.verbatim_regions.last().map_or(0, |r| r.next);
 
         // Walk backwards from the end, looking for consecutive HTML blocks
         // that are not formatting directives
-        for (i, child) in children.iter().enumerate().rev() {
+        for (i, child) in children.iter().enumerate().skip(covered).rev() {
             match &child.data.borrow().value {
                 NodeValue::HtmlBlock(html_block) => {
                     // Skip formatting directives - they should stay where they are
@@ -643,9 +577,6 @@ impl<'a> Serializer<'a> {
         // (e.g., when they follow abbreviation definitions without a blank line)
         let source_ref_defs = Self::collect_source_reference_definitions(&self.source_lines);
 
-        // Collect disabled line ranges based on formatting directives
-        let disabled_ranges = Self::collect_disabled_line_ranges(node);
-
         // Collect warnings first to avoid borrow issues
         let warnings = Self::find_undefined_references_in_ast(
             node,
@@ -656,98 +587,12 @@ impl<'a> Serializer<'a> {
 
         // Filter out warnings that fall within disabled regions
         for (line, msg) in warnings {
-            if !Self::is_line_in_disabled_ranges(line, &disabled_ranges) {
+            if !self.is_verbatim_line(line) {
                 self.add_warning(line, msg);
             }
         }
     }
 
-    /// Collect line ranges that should be excluded from warnings due to
-    /// formatting directives (hongdown-disable, hongdown-disable-next-line, etc.).
-    ///
-    /// Returns a vector of (start_line, end_line) tuples representing disabled ranges.
-    fn collect_disabled_line_ranges<'b>(node: &'b AstNode<'b>) -> Vec<(usize, usize)> {
-        let mut ranges = Vec::new();
-        let children: Vec<_> = node.children().collect();
-
-        for (i, child) in children.iter().enumerate() {
-            if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
-                && let Some(directive) = Directive::parse(&html_block.literal)
-            {
-                match directive {
-                    Directive::DisableFile => {
-                        // Everything after this directive is disabled
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        ranges.push((start_line, usize::MAX));
-                    }
-                    Directive::DisableNextLine => {
-                        // Only the next block is disabled
-                        if let Some(next_child) = children.get(i + 1) {
-                            // Skip if next child is also a directive
-                            if !matches!(
-                                &next_child.data.borrow().value,
-                                NodeValue::HtmlBlock(hb) if Directive::parse(&hb.literal).is_some()
-                            ) {
-                                let start_line = next_child.data.borrow().sourcepos.start.line;
-                                let end_line = next_child.data.borrow().sourcepos.end.line;
-                                ranges.push((start_line, end_line));
-                            }
-                        }
-                    }
-                    Directive::DisableNextSection => {
-                        // Disabled until next h2 or lower heading
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the next section (h2 or lower)
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::Heading(h) = &future_child.data.borrow().value
-                                && h.level <= 2
-                            {
-                                // End just before this heading
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
-                        ranges.push((start_line, end_line));
-                    }
-                    Directive::Disable => {
-                        // Disabled until corresponding Enable directive
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the corresponding Enable directive
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::HtmlBlock(hb) = &future_child.data.borrow().value
-                                && let Some(Directive::Enable) = Directive::parse(&hb.literal)
-                            {
-                                // End just before the Enable directive
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
-                        ranges.push((start_line, end_line));
-                    }
-                    Directive::Enable => {
-                        // Enable doesn't start a new range, it ends one
-                    }
-                    Directive::ProperNouns(_) | Directive::CommonNouns(_) => {
-                        // These directives don't affect warning ranges
-                    }
-                }
-            }
-        }
-
-        ranges
-    }
-
-    /// Check if a line number falls within any of the disabled ranges.
-    fn is_line_in_disabled_ranges(line: usize, ranges: &[(usize, usize)]) -> bool {
-        ranges
-            .iter()
-            .any(|(start, end)| line >= *start && line <= *end)
-    }
-
     /// Collect PHP Markdown Extra abbreviation definitions from source.
     /// Returns a set of abbreviation names (e.g., "HTML" from "*[HTML]: Hyper Text Markup Language").
     fn collect_abbreviations(source_lines: &[&str]) -> std::collections::HashSet<String> {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index c941587..1c154d8 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -13,6 +13,7 @@ mod list;
 pub mod punctuation;
 mod state;
 mod table;
+mod verbatim;
 mod wrap;
 
 #[cfg(feature = "wasm")]
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index b36ed35..8b24bad 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -4,28 +4,9 @@ use indexmap::IndexMap;
 
 use comrak::nodes::{AstNode, ListType, NodeValue};
 
+use super::verbatim::VerbatimRegion;
 use crate::Options;
 
-/// The current formatting skip mode.
-///
-/// Controls whether and how formatting should be skipped for content.
-/// Only one mode can be active at a time.
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
-pub enum FormatSkipMode {
-    /// Normal formatting is active.
-    #[default]
-    None,
-    /// Skip formatting for the next block element only.
-    /// Automatically resets to `None` after the block is processed.
-    NextBlock,
-    /// Skip formatting until the next section heading (h2 or lower).
-    /// Automatically resets to `None` when a heading is encountered.
-    UntilSection,
-    /// Formatting is disabled (by `hongdown-disable` directive).
-    /// Remains active until `hongdown-enable` directive is encountered.
-    Disabled,
-}
-
 /// Formatting directives that can be embedded in HTML comments.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum Directive {
@@ -262,8 +243,11 @@ pub struct Serializer<'a> {
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
     pub list_depth: usize,
-    /// Current formatting skip mode
-    pub skip_mode: FormatSkipMode,
+    /// The parts of the source that are output as they are
+    pub(super) verbatim_regions: Vec<VerbatimRegion>,
+    /// Reference links to define before and after the verbatim region of a directive
+    pub verbatim_references:
+        std::collections::HashMap<usize, (Vec<ReferenceLink>, Vec<ReferenceLink>)>,
     /// Whether we're inside a description details block (for indentation)
     pub in_description_details: bool,
     /// Whether we're serializing the first list inside description details on the same line as `:`.
@@ -316,7 +300,8 @@ impl<'a> Serializer<'a> {
             labels: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
-            skip_mode: FormatSkipMode::None,
+            verbatim_regions: Vec::new(),
+            verbatim_references: std::collections::HashMap::new(),
             in_description_details: false,
             description_details_first_list: false,
             warnings: Vec::new(),
@@ -356,7 +341,8 @@ impl<'a> Serializer<'a> {
             labels: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
-            skip_mode: FormatSkipMode::None,
+            verbatim_regions: Vec::new(),
+            verbatim_references: std::collections::HashMap::new(),
             in_description_details: false,
             description_details_first_list: false,
             warnings: Vec::new(),
@@ -464,35 +450,6 @@ impl<'a> Serializer<'a> {
         (start, end)
     }
 
-    /// Extract original source text from a given line to the end of the file.
-    /// Line numbers are 1-indexed.
-    pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-        if self.source_lines.is_empty() || start_line == 0 {
-            return None;
-        }
-        let start_idx = start_line - 1;
-        if start_idx >= self.source_lines.len() {
-            return None;
-        }
-        let mut result = String::new();
-        for (i, line) in self.source_lines.iter().enumerate().skip(start_idx) {
-            if i > start_idx {
-                result.push('\n');
-            }
-            result.push_str(line);
-        }
-        // Preserve trailing newline if the original source had one
-        if self.source_ends_with_newline {
-            result.push('\n');
-        }
-        Some(result)
-    }
-
-    /// Check if formatting should be skipped for this node.
-    pub fn should_skip_formatting(&self) -> bool {
-        self.skip_mode != FormatSkipMode::None
-    }
-
     /// Add a reference link to the pending references.
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
new file mode 100644
index 0000000..c489158
--- /dev/null
+++ b/src/serializer/verbatim.rs
@@ -0,0 +1,370 @@
+//! The parts of a document that directives exclude from formatting.
+
+use std::collections::HashMap;
+
+use comrak::nodes::{AstNode, NodeValue};
+use comrak::{Arena, parse_document};
+
+use super::Serializer;
+use super::state::{Directive, ReferenceLink};
+
+/// Lines of the source that are output as they are, after the directive that says so.
+#[derive(Debug, Clone)]
+pub(super) struct VerbatimRegion {
+    /// The index of the directive among the children of the document.
+    pub directive: usize,
+    /// The index of the child with which formatting goes on.
+    pub next: usize,
+    /// The first line (1-indexed).
+    pub start: usize,
+    /// The last line. It is before the first if there is nothing to output.
+    pub end: usize,
+    /// How the region ends.
+    pub ending: RegionEnding,
+}
+
+/// How a region ends, which decides what may come between it and the next block.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(super) enum RegionEnding {
+    /// With a block, or before a heading.
+    Block,
+    /// Before the directive that enables formatting again.
+    Enable,
+    /// With the file: what comes after it would be a part of it.
+    File,
+}
+
+impl VerbatimRegion {
+    pub fn contains(&self, line: usize) -> bool {
+        (self.start..=self.end).contains(&line)
+    }
+}
+
+fn directive_of<'b>(node: &'b AstNode<'b>) -> Option<Directive> {
+    match &node.data.borrow().value {
+        NodeValue::HtmlBlock(html_block) => Directive::parse(&html_block.literal),
+        _ => None,
+    }
+}
+
+fn is_footnote_definition<'b>(node: &'b AstNode<'b>) -> bool {
+    matches!(node.data.borrow().value, NodeValue::FootnoteDefinition(_))
+}
+
+fn start_line<'b>(node: &'b AstNode<'b>) -> usize {
+    node.data.borrow().sourcepos.start.line
+}
+
+impl<'a> Serializer<'a> {
+    /// Find the regions of a document that are excluded from formatting.
+    pub(super) fn find_verbatim_regions<'b>(
+        &self,
+        children: &[&'b AstNode<'b>],
+    ) -> Vec<VerbatimRegion> {
+        let mut regions = Vec::new();
+        if self.source_lines.is_empty() {
+            return regions;
+        }
+        let mut next = 0;
+        while let Some(child) = children.get(next) {
+            let region = directive_of(child)
+                .and_then(|directive| self.verbatim_region(children, next, &directive));
+            next = match &region {
+                Some(region) => region.next,
+                None => next + 1,
+            };
+            regions.extend(region);
+        }
+        regions
+    }
+
+    /// The region that the directive with the given index excludes.
+    fn verbatim_region<'b>(
+        &self,
+        children: &[&'b AstNode<'b>],
+        index: usize,
+        directive: &Directive,
+    ) -> Option<VerbatimRegion> {
+        #[derive(PartialEq, Eq)]
+        enum Until {
+            Section,
+            Enable,
+            File,
+        }
+        let mut until = match directive {
+            Directive::DisableNextLine => {
+                return Some(self.next_block_region(children, index));
+            }
+            Directive::DisableNextSection => Until::Section,
+            Directive::Disable => Until::Enable,
+            Directive::DisableFile => Until::File,
+            _ => return None,
+        };
+        let mut region = VerbatimRegion {
+            directive: index,
+            next: children.len(),
+            start: children[index].data.borrow().sourcepos.end.line + 1,
+            end: self.source_lines.len(),
+            ending: RegionEnding::File,
+        };
+        let mut follows_next_line = false;
+        for (i, child) in children.iter().enumerate().skip(index + 1) {
+            let directive = directive_of(child);
+            let is_section = matches!(
+                child.data.borrow().value,
+                NodeValue::Heading(heading) if heading.level <= 2
+            );
+            match directive {
+                Some(Directive::Enable) if until != Until::File => {
+                    region.next = i;
+                    region.end = start_line(child) - 1;
+                    region.ending = RegionEnding::Enable;
+                    return Some(region);
+                }
+                Some(Directive::Disable) if until == Until::Section => until = Until::Enable,
+                Some(Directive::DisableFile) => until = Until::File,
+                _ if is_section && until == Until::Section && !follows_next_line => {
+                    region.next = i;
+                    region.end = self.last_text_line(start_line(child) - 1);
+                    region.ending = RegionEnding::Block;
+                    return Some(region);
+                }
+                _ => {}
+            }
+            follows_next_line = directive == Some(Directive::DisableNextLine);
+        }
+        Some(region)
+    }
+
+    /// The region from the directive with the given index to the end of the next block.
+    fn next_block_region<'b>(&self, children: &[&'b AstNode<'b>], index: usize) -> VerbatimRegion {
+        let directive_end = children[index].data.borrow().sourcepos.end.line;
+        let mut region = VerbatimRegion {
+            directive: index,
+            next: index + 1,
+            start: directive_end + 1,
+            end: directive_end,
+            ending: RegionEnding::Block,
+        };
+        let mut following = index + 1;
+        while let Some(child) = children.get(following)
+            && let Some(Directive::ProperNouns(_) | Directive::CommonNouns(_)) = directive_of(child)
+        {
+            following += 1;
+        }
+        let block = children
+            .get(following)
+            .filter(|child| !is_footnote_definition(child));
+        // Footnotes are the last children, wherever they are in the source
+        let footnote = children
+            .iter()
+            .filter(|child| is_footnote_definition(child) && start_line(child) > directive_end)
+            .min_by_key(|child| start_line(child));
+        let block = match (block, footnote) {
+            (Some(block), Some(footnote)) if start_line(footnote) < start_line(block) => footnote,
+            (Some(block), _) if directive_of(block).is_some() => return region,
+            (Some(block), _) => {
+                region.next = following + 1;
+                block
+            }
+            (None, Some(footnote)) => footnote,
+            (None, None) => return region,
+        };
+        region.end = block.data.borrow().sourcepos.end.line;
+        let is_last = !self.source_lines[region.end.min(self.source_lines.len())..]
+            .iter()
+            .any(|line| !line.trim().is_empty());
+        if !is_last {
+            region.end = self.last_text_line(region.end);
+        } else if self.is_open(&region) {
+            region.ending = RegionEnding::File;
+            region.end = self.source_lines.len();
+        }
+        region
+    }
+
+    /// The last line up to the given one that is not blank.
+    fn last_text_line(&self, line: usize) -> usize {
+        self.source_lines[..line.min(self.source_lines.len())]
+            .iter()
+            .rposition(|line| !line.trim().is_empty())
+            .map_or(0, |index| index + 1)
+    }
+
+    fn region_text(&self, region: &VerbatimRegion) -> String {
+        let end = region.end.min(self.source_lines.len());
+        match self.source_lines.get(region.start - 1..end) {
+            Some(lines) => lines.join("\n"),
+            None => String::new(),
+        }
+    }
+
+    /// Whether what follows the region becomes a part of its last block.
+    fn is_open(&self, region: &VerbatimRegion) -> bool {
+        let text = format!("[-]\n\n{}\n\n[-]: /\n", self.region_text(region));
+        Self::definitions_in(&text, &["-"])[0].is_none()
+    }
+
+    /// What the labels stand for according to the definitions in the text, which begins
+    /// with a paragraph for each of them.
+    fn definitions_in(text: &str, labels: &[&str]) -> Vec<Option<(String, String)>> {
+        let arena = Arena::new();
+        let root = parse_document(&arena, text, &crate::comrak_options());
+        let mut paragraphs = root.children();
+        labels
+            .iter()
+            .map(|_| {
+                let link = paragraphs.next()?.first_child()?;
+                match &link.data.borrow().value {
+                    NodeValue::Link(link) => Some((link.url.clone(), link.title.clone())),
+                    _ => None,
+                }
+            })
+            .collect()
+    }
+
+    /// The references of the nodes by their labels.
+    fn references_in<'b>(
+        &self,
+        nodes: impl Iterator<Item = &'b AstNode<'b>>,
+    ) -> Vec<(String, ReferenceLink)> {
+        let mut references = Vec::new();
+        for node in nodes.flat_map(|node| node.descendants()) {
+            if let NodeValue::Link(link) | NodeValue::Image(link) = &node.data.borrow().value
+                && let Some((_, label)) = self.get_reference_style_info(node)
+            {
+                let reference = ReferenceLink {
+                    label: label.trim_start_matches('\x01').to_string(),
+                    url: link.url.clone(),
+                    title: link.title.clone(),
+                };
+                references.push((Self::normalize_label(&reference.label), reference));
+            }
+        }
+        references
+    }
+
+    /// Plan how the definitions inside and outside of the regions go together.
+    ///
+    /// What a region defines need not be defined again. What it needs from outside has to
+    /// be kept, also if nothing else uses it, and before the region if it defines the same
+    /// label in a different way or ends with the file.
+    pub(super) fn plan_verbatim_definitions<'b>(
+        &mut self,
+        document: &'b AstNode<'b>,
+        children: &[&'b AstNode<'b>],
+    ) {
+        if self.verbatim_regions.is_empty() {
+            return;
+        }
+        let mut used: Vec<(String, ReferenceLink)> = Vec::new();
+        let mut seen = std::collections::HashSet::new();
+        for (label, reference) in self.references_in(std::iter::once(document)) {
+            if seen.insert(label.clone()) {
+                used.push((label, reference));
+            }
+        }
+        let mut definition_lines: HashMap<String, usize> = HashMap::new();
+        for (i, line) in self.source_lines.iter().enumerate() {
+            if let Some((label, _)) = line.split_once("]:")
+                && let Some((_, label)) = label.split_once('[')
+            {
+                definition_lines
+                    .entry(Self::normalize_label(label))
+                    .or_insert(i + 1);
+            }
+        }
+
+        for region in self.verbatim_regions.clone() {
+            let text = self.region_text(&region);
+            let mut defined = HashMap::new();
+            if text.contains("]:") && !used.is_empty() {
+                let labels: Vec<&str> = used.iter().map(|(_, r)| &*r.label).collect();
+                let mut probe: String = labels.iter().map(|l| format!("[{l}]\n\n")).collect();
+                probe.push_str(&text);
+                for ((label, _), target) in used.iter().zip(Self::definitions_in(&probe, &labels)) {
+                    defined.extend(target.map(|target| (label.clone(), target)));
+                }
+            }
+            let (mut before, mut after) = (Vec::new(), Vec::new());
+            for (label, reference) in &used {
+                if let Some((url, title)) = defined.get(label) {
+                    if (url, title) == (&reference.url, &reference.title) {
+                        self.emitted_references.insert(label.clone());
+                    } else {
+                        before.push(reference.clone());
+                    }
+                }
+            }
+            let covered = children[region.directive + 1..region.next]
+                .iter()
+                .chain(children.iter().filter(|child| {
+                    is_footnote_definition(child) && region.contains(start_line(child))
+                }))
+                .copied();
+            for (label, reference) in self.references_in(covered) {
+                if defined.contains_key(&label) {
+                    continue;
+                }
+                let is_defined_before = definition_lines
+                    .get(&label)
+                    .is_some_and(|line| *line < region.start);
+                match region.ending {
+                    RegionEnding::File => before.push(reference),
+                    _ if is_defined_before => before.push(reference),
+                    _ => after.push(reference),
+                }
+            }
+            self.verbatim_references
+                .insert(region.directive, (before, after));
+        }
+
+        for child in children {
+            if let NodeValue::FootnoteDefinition(definition) = &child.data.borrow().value
+                && self.is_verbatim_line(start_line(child))
+            {
+                self.footnotes.emitted.insert(definition.name.clone());
+            }
+        }
+    }
+
+    /// Whether the line is in a region that is excluded from formatting.
+    pub(super) fn is_verbatim_line(&self, line: usize) -> bool {
+        self.verbatim_regions
+            .iter()
+            .any(|region| region.contains(line))
+    }
+
+    /// Output the definitions that have to come before the region of the directive.
+    pub(super) fn flush_before_region(&mut self, region: &VerbatimRegion, directive_line: usize) {
+        let references = self.verbatim_references.get_mut(&region.directive);
+        for reference in references
+            .map(|r| std::mem::take(&mut r.0))
+            .unwrap_or_default()
+        {
+            self.add_reference(reference.label, reference.url, reference.title);
+        }
+        let before_line = match region.ending {
+            RegionEnding::File => None,
+            _ => Some(directive_line),
+        };
+        self.flush_footnotes_before(before_line);
+        self.flush_references();
+        self.flush_footnote_references_before(before_line);
+    }
+
+    /// Output the region as it is in the source.
+    pub(super) fn output_region(&mut self, region: &VerbatimRegion) {
+        let last = self.source_lines.len();
+        for line in region.start..=region.end.min(last) {
+            self.output.push_str(self.source_lines[line - 1]);
+            if line < last || self.source_ends_with_newline || region.ending != RegionEnding::File {
+                self.output.push('\n');
+            }
+        }
+        let references = self.verbatim_references.remove(&region.directive);
+        for reference in references.map(|r| r.1).unwrap_or_default() {
+            self.add_reference(reference.label, reference.url, reference.title);
+        }
+    }
+}
-- 
2.43.0


From 1845d91496359600ead1a92ecbf9a63fda102193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 51/69] fix: find the source of text right after link
 definitions

---
 src/serializer/document.rs |  2 +
 src/serializer/mod.rs      |  1 +
 src/serializer/position.rs | 80 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 83 insertions(+)
 create mode 100644 src/serializer/position.rs

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1eb0e8f..73598b4 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -13,6 +13,8 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         let children: Vec<_> = node.children().collect();
 
+        self.correct_positions(node);
+
         // Find what is excluded from formatting
         self.verbatim_regions = self.find_verbatim_regions(&children);
 
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1c154d8..bd4d4ca 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -10,6 +10,7 @@ pub mod heading;
 mod inline;
 mod link;
 mod list;
+mod position;
 pub mod punctuation;
 mod state;
 mod table;
diff --git a/src/serializer/position.rs b/src/serializer/position.rs
new file mode 100644
index 0000000..9bc230a
--- /dev/null
+++ b/src/serializer/position.rs
@@ -0,0 +1,80 @@
+//! Corrections of the source positions of nodes.
+
+use comrak::nodes::{AstNode, NodeValue};
+use comrak::{Arena, parse_document};
+
+use super::Serializer;
+
+impl<'a> Serializer<'a> {
+    /// Correct the positions in paragraphs and headings that follow link reference
+    /// definitions without a blank line, which the parser counts from the definitions.
+    pub(super) fn correct_positions<'b>(&self, document: &'b AstNode<'b>) {
+        if self.source_lines.is_empty() {
+            return;
+        }
+        for node in document.descendants() {
+            let definitions = self.definition_lines_before(node);
+            if definitions > 0 {
+                let first = node.data.borrow().sourcepos.start;
+                for descendant in node.descendants() {
+                    let position = &mut descendant.data.borrow_mut().sourcepos;
+                    let mut places = vec![&mut position.start];
+                    // The block ends where it ends
+                    if !std::ptr::eq(descendant, node) {
+                        places.push(&mut position.end);
+                    }
+                    for place in places {
+                        let from = self.text_offset(place.line, first.line, first.column);
+                        place.line += definitions;
+                        let to = self.text_offset(place.line, first.line, first.column);
+                        place.column = (place.column + to).saturating_sub(from).max(1);
+                    }
+                }
+            }
+        }
+    }
+
+    /// The number of lines at the beginning of a block that are link reference definitions.
+    fn definition_lines_before<'b>(&self, node: &'b AstNode<'b>) -> usize {
+        let data = node.data.borrow();
+        let position = data.sourcepos;
+        let last_text_line = match &data.value {
+            NodeValue::Paragraph => position.end.line,
+            NodeValue::Heading(heading) if heading.setext => position.end.line - 1,
+            _ => return 0,
+        };
+        let text_end = node
+            .children()
+            .map(|child| child.data.borrow().sourcepos.end.line)
+            .max();
+        let Some(lines) = text_end.and_then(|line| last_text_line.checked_sub(line)) else {
+            return 0;
+        };
+        let lines = position.start.line..position.start.line + lines;
+        let text: Vec<&str> = lines
+            .clone()
+            .filter_map(|line| {
+                let offset = self.text_offset(line, lines.start, position.start.column);
+                self.source_lines.get(line - 1)?.get(offset..)
+            })
+            .collect();
+        if !text.first().is_some_and(|line| line.starts_with('[')) {
+            return 0;
+        }
+        let arena = Arena::new();
+        let root = parse_document(&arena, &text.join("\n"), &crate::comrak_options());
+        match root.first_child() {
+            None => lines.len(),
+            Some(_) => 0,
+        }
+    }
+
+    /// How far the text of a line is indented, in a block that starts at `line` and `column`.
+    fn text_offset(&self, at: usize, line: usize, column: usize) -> usize {
+        if at == line {
+            return column - 1;
+        }
+        let source = self.source_lines.get(at - 1).copied().unwrap_or_default();
+        source.len() - source.trim_start_matches([' ', '\t', '>']).len()
+    }
+}
-- 
2.43.0


From 95cbc1ee0c2b377bc2fc0b56fecd30357ddd032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 52/69] fix: keep definitions of disabled regions apart from
 those outside

---
 src/serializer/document.rs |  14 +++-
 src/serializer/position.rs |  10 ++-
 src/serializer/state.rs    |   7 ++
 src/serializer/verbatim.rs | 143 ++++++++++++++++++++++++++-----------
 4 files changed, 127 insertions(+), 47 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 73598b4..afa9aa4 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -776,6 +776,14 @@ impl<'a> Serializer<'a> {
         false
     }
 
+    /// The columns that the text of a list item is indented in the source.
+    fn item_offset<'b>(item: &'b AstNode<'b>) -> usize {
+        match &item.data.borrow().value {
+            NodeValue::Item(list) => list.marker_offset + list.padding,
+            _ => 0,
+        }
+    }
+
     pub(super) fn serialize_thematic_break<'b>(&mut self, node: &'b AstNode<'b>) {
         let style = self.options.thematic_break_style.as_str();
         let mut leading_spaces = self.options.thematic_break_leading_spaces.get();
@@ -783,7 +791,11 @@ impl<'a> Serializer<'a> {
             && let NodeValue::List(list) = &previous.data.borrow().value
         {
             // Indented like the items of the list before, it would be a part of it
-            let marker_width = self.marker_width(Some(list.list_type));
+            let marker_width = if self.is_verbatim_line(previous.data.borrow().sourcepos.end.line) {
+                previous.last_child().map_or(0, Self::item_offset)
+            } else {
+                self.marker_width(Some(list.list_type))
+            };
             leading_spaces = leading_spaces.min(marker_width.saturating_sub(1));
         }
 
diff --git a/src/serializer/position.rs b/src/serializer/position.rs
index 9bc230a..e17d945 100644
--- a/src/serializer/position.rs
+++ b/src/serializer/position.rs
@@ -1,7 +1,6 @@
 //! Corrections of the source positions of nodes.
 
 use comrak::nodes::{AstNode, NodeValue};
-use comrak::{Arena, parse_document};
 
 use super::Serializer;
 
@@ -61,11 +60,10 @@ impl<'a> Serializer<'a> {
         if !text.first().is_some_and(|line| line.starts_with('[')) {
             return 0;
         }
-        let arena = Arena::new();
-        let root = parse_document(&arena, &text.join("\n"), &crate::comrak_options());
-        match root.first_child() {
-            None => lines.len(),
-            Some(_) => 0,
+        if Self::has_only_definitions(&text) {
+            lines.len()
+        } else {
+            0
         }
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 8b24bad..7f90203 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -79,6 +79,13 @@ pub struct ReferenceLink {
     pub title: String,
 }
 
+impl ReferenceLink {
+    /// Whether its label stands for the given URL and title.
+    pub fn stands_for(&self, (url, title): &(String, String)) -> bool {
+        self.url == *url && self.title == *title
+    }
+}
+
 /// A footnote definition: name -> content
 #[derive(Debug, Clone)]
 pub struct FootnoteDefinition {
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
index c489158..ad0ad41 100644
--- a/src/serializer/verbatim.rs
+++ b/src/serializer/verbatim.rs
@@ -1,6 +1,6 @@
 //! The parts of a document that directives exclude from formatting.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use comrak::nodes::{AstNode, NodeValue};
 use comrak::{Arena, parse_document};
@@ -170,7 +170,16 @@ impl<'a> Serializer<'a> {
             (None, Some(footnote)) => footnote,
             (None, None) => return region,
         };
-        region.end = block.data.borrow().sourcepos.end.line;
+        let block_start = start_line(block);
+        let next_start = children
+            .iter()
+            .map(|child| start_line(child))
+            .filter(|line| *line > block_start)
+            .min();
+        region.end = self.block_end(
+            block.data.borrow().sourcepos.end.line,
+            next_start.map_or(self.source_lines.len(), |line| line - 1),
+        );
         let is_last = !self.source_lines[region.end.min(self.source_lines.len())..]
             .iter()
             .any(|line| !line.trim().is_empty());
@@ -183,6 +192,33 @@ impl<'a> Serializer<'a> {
         region
     }
 
+    /// The last line of a block that, according to its position, ends with `end`, and
+    /// after which the next one begins after `limit`.
+    ///
+    /// The position may leave out lines of code, but lines after it may be definitions too.
+    fn block_end(&self, end: usize, limit: usize) -> usize {
+        let limit = self.last_text_line(limit);
+        for line in end..limit {
+            let rest = &self.source_lines[line..limit];
+            let is_definition_start = rest[0].trim_start().starts_with('[');
+            if is_definition_start && Self::has_only_definitions(rest) {
+                return if line == end {
+                    end
+                } else {
+                    self.last_text_line(line)
+                };
+            }
+        }
+        end.max(limit)
+    }
+
+    /// Whether the lines are nothing but link reference definitions.
+    pub(super) fn has_only_definitions(lines: &[&str]) -> bool {
+        let arena = Arena::new();
+        let root = parse_document(&arena, &lines.join("\n"), &crate::comrak_options());
+        root.first_child().is_none()
+    }
+
     /// The last line up to the given one that is not blank.
     fn last_text_line(&self, line: usize) -> usize {
         self.source_lines[..line.min(self.source_lines.len())]
@@ -201,26 +237,41 @@ impl<'a> Serializer<'a> {
 
     /// Whether what follows the region becomes a part of its last block.
     fn is_open(&self, region: &VerbatimRegion) -> bool {
-        let text = format!("[-]\n\n{}\n\n[-]: /\n", self.region_text(region));
-        Self::definitions_in(&text, &["-"])[0].is_none()
+        let text = format!("{}\n\n[-]: /\n", self.region_text(region));
+        let reference = ReferenceLink {
+            label: "-".to_string(),
+            url: String::new(),
+            title: String::new(),
+        };
+        Self::definitions_in(&text, &[(String::new(), reference)]).is_empty()
     }
 
-    /// What the labels stand for according to the definitions in the text, which begins
-    /// with a paragraph for each of them.
-    fn definitions_in(text: &str, labels: &[&str]) -> Vec<Option<(String, String)>> {
+    /// What the labels of the references stand for according to the definitions in `text`.
+    fn definitions_in(
+        text: &str,
+        references: &[(String, ReferenceLink)],
+    ) -> HashMap<String, (String, String)> {
+        let mut defined = HashMap::new();
+        if references.is_empty() || !text.contains("]:") {
+            return defined;
+        }
+        // A paragraph for each label, and something that is no paragraph
+        let mut probe = String::new();
+        for (_, reference) in references {
+            probe.push_str(&format!("[{}]\n\n", reference.label));
+        }
+        probe.push_str("<!-- -->\n\n");
+        probe.push_str(text);
         let arena = Arena::new();
-        let root = parse_document(&arena, text, &crate::comrak_options());
-        let mut paragraphs = root.children();
-        labels
-            .iter()
-            .map(|_| {
-                let link = paragraphs.next()?.first_child()?;
-                match &link.data.borrow().value {
-                    NodeValue::Link(link) => Some((link.url.clone(), link.title.clone())),
-                    _ => None,
-                }
-            })
-            .collect()
+        let root = parse_document(&arena, &probe, &crate::comrak_options());
+        for ((label, _), paragraph) in references.iter().zip(root.children()) {
+            if let Some(link) = paragraph.first_child()
+                && let NodeValue::Link(link) = &link.data.borrow().value
+            {
+                defined.insert(label.clone(), (link.url.clone(), link.title.clone()));
+            }
+        }
+        defined
     }
 
     /// The references of the nodes by their labels.
@@ -258,12 +309,25 @@ impl<'a> Serializer<'a> {
             return;
         }
         let mut used: Vec<(String, ReferenceLink)> = Vec::new();
-        let mut seen = std::collections::HashSet::new();
+        let mut seen = HashSet::new();
         for (label, reference) in self.references_in(std::iter::once(document)) {
             if seen.insert(label.clone()) {
                 used.push((label, reference));
             }
         }
+        // Leave out inline links that could not be told from references by their source
+        let front_matter_end = children
+            .first()
+            .filter(|child| matches!(child.data.borrow().value, NodeValue::FrontMatter(_)))
+            .map_or(0, |child| child.data.borrow().sourcepos.end.line);
+        let body = self.source_lines[front_matter_end.min(self.source_lines.len())..].join("\n");
+        let defined = Self::definitions_in(&body, &used);
+        used.retain(|(label, reference)| {
+            defined
+                .get(label)
+                .is_some_and(|target| reference.stands_for(target))
+        });
+
         let mut definition_lines: HashMap<String, usize> = HashMap::new();
         for (i, line) in self.source_lines.iter().enumerate() {
             if let Some((label, _)) = line.split_once("]:")
@@ -277,23 +341,15 @@ impl<'a> Serializer<'a> {
 
         for region in self.verbatim_regions.clone() {
             let text = self.region_text(&region);
-            let mut defined = HashMap::new();
-            if text.contains("]:") && !used.is_empty() {
-                let labels: Vec<&str> = used.iter().map(|(_, r)| &*r.label).collect();
-                let mut probe: String = labels.iter().map(|l| format!("[{l}]\n\n")).collect();
-                probe.push_str(&text);
-                for ((label, _), target) in used.iter().zip(Self::definitions_in(&probe, &labels)) {
-                    defined.extend(target.map(|target| (label.clone(), target)));
-                }
-            }
+            let defined = Self::definitions_in(&text, &used);
             let (mut before, mut after) = (Vec::new(), Vec::new());
             for (label, reference) in &used {
-                if let Some((url, title)) = defined.get(label) {
-                    if (url, title) == (&reference.url, &reference.title) {
+                match defined.get(label) {
+                    Some(target) if reference.stands_for(target) => {
                         self.emitted_references.insert(label.clone());
-                    } else {
-                        before.push(reference.clone());
                     }
+                    Some(_) => before.push(reference.clone()),
+                    None => {}
                 }
             }
             let covered = children[region.directive + 1..region.next]
@@ -303,7 +359,11 @@ impl<'a> Serializer<'a> {
                 }))
                 .copied();
             for (label, reference) in self.references_in(covered) {
-                if defined.contains_key(&label) {
+                let target = (reference.url.clone(), reference.title.clone());
+                let is_used = used
+                    .iter()
+                    .any(|(key, used)| *key == label && used.stands_for(&target));
+                if !is_used || defined.contains_key(&label) {
                     continue;
                 }
                 let is_defined_before = definition_lines
@@ -337,6 +397,15 @@ impl<'a> Serializer<'a> {
 
     /// Output the definitions that have to come before the region of the directive.
     pub(super) fn flush_before_region(&mut self, region: &VerbatimRegion, directive_line: usize) {
+        let before_line = match region.ending {
+            RegionEnding::File => None,
+            _ => Some(directive_line),
+        };
+        self.flush_footnotes_before(before_line);
+        self.flush_references();
+        self.flush_footnote_references_before(before_line);
+
+        // What only the region needs comes last
         let references = self.verbatim_references.get_mut(&region.directive);
         for reference in references
             .map(|r| std::mem::take(&mut r.0))
@@ -344,13 +413,7 @@ impl<'a> Serializer<'a> {
         {
             self.add_reference(reference.label, reference.url, reference.title);
         }
-        let before_line = match region.ending {
-            RegionEnding::File => None,
-            _ => Some(directive_line),
-        };
-        self.flush_footnotes_before(before_line);
         self.flush_references();
-        self.flush_footnote_references_before(before_line);
     }
 
     /// Output the region as it is in the source.
-- 
2.43.0


From 4c41b37a1d1469808060b2e508a616bef75a1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 53/69] fix: drain the pipes of code formatters while they run

---
 src/serializer/formatter.rs | 89 +++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 28 deletions(-)

diff --git a/src/serializer/formatter.rs b/src/serializer/formatter.rs
index 4fb1b56..57cec0c 100644
--- a/src/serializer/formatter.rs
+++ b/src/serializer/formatter.rs
@@ -4,8 +4,9 @@
 //! on code block contents. It handles process spawning, timeout management,
 //! and error handling.
 
-use std::io::Write;
+use std::io::{Read, Write};
 use std::process::{Command, Stdio};
+use std::sync::mpsc::{self, Receiver};
 use std::thread;
 use std::time::{Duration, Instant};
 
@@ -95,44 +96,76 @@ pub fn run_formatter(
         .spawn()
         .map_err(FormatterError::Spawn)?;
 
-    // Write code to stdin
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(code.as_bytes())
-            .map_err(FormatterError::Stdin)?;
-        // stdin is dropped here, closing it
-    }
-
-    // Wait with timeout using polling
-    let timeout = Duration::from_secs(timeout_secs);
-    let start = Instant::now();
-    let poll_interval = Duration::from_millis(50);
-
-    loop {
+    // Write and read in threads of their own, so that neither side waits for the other
+    // when a pipe is full, and the timeout applies to all of it
+    let stdin = child.stdin.take();
+    let code = code.as_bytes().to_vec();
+    let written = in_thread(move || match stdin {
+        Some(mut stdin) => stdin.write_all(&code),
+        None => Ok(()),
+    });
+    let stdout = read_in_thread(child.stdout.take());
+    let stderr = read_in_thread(child.stderr.take());
+
+    let deadline = Instant::now() + Duration::from_secs(timeout_secs);
+    let mut poll_interval = Duration::from_millis(1);
+    let status = loop {
         match child.try_wait() {
-            Ok(Some(status)) => {
-                // Process finished
-                let output = child.wait_with_output().map_err(FormatterError::Spawn)?;
-                if status.success() {
-                    return String::from_utf8(output.stdout).map_err(FormatterError::InvalidUtf8);
-                } else {
-                    return Err(FormatterError::NonZeroExit {
-                        code: status.code(),
-                        stderr: String::from_utf8_lossy(&output.stderr).to_string(),
-                    });
-                }
-            }
+            Ok(Some(status)) => break status,
             Ok(None) => {
                 // Still running
-                if start.elapsed() >= timeout {
+                if Instant::now() >= deadline {
                     let _ = child.kill();
+                    let _ = child.wait();
                     return Err(FormatterError::Timeout);
                 }
                 thread::sleep(poll_interval);
+                poll_interval = (poll_interval * 2).min(Duration::from_millis(50));
             }
             Err(e) => return Err(FormatterError::Spawn(e)),
         }
+    };
+
+    // Another process may still have the pipes open
+    let remaining = || deadline.saturating_duration_since(Instant::now());
+    if !status.success() {
+        let stderr = stderr.recv_timeout(remaining()).unwrap_or(Ok(Vec::new()));
+        return Err(FormatterError::NonZeroExit {
+            code: status.code(),
+            stderr: String::from_utf8_lossy(&stderr.unwrap_or_default()).to_string(),
+        });
+    }
+    let stdout = stdout
+        .recv_timeout(remaining())
+        .map_err(|_| FormatterError::Timeout)?
+        .map_err(FormatterError::Spawn)?;
+    match written.recv_timeout(remaining()) {
+        // A formatter need not read all of its input
+        Ok(Err(e)) if e.kind() != std::io::ErrorKind::BrokenPipe => {
+            return Err(FormatterError::Stdin(e));
+        }
+        _ => {}
     }
+    String::from_utf8(stdout).map_err(FormatterError::InvalidUtf8)
+}
+
+/// Run `action` in a thread, which sends its result.
+fn in_thread<T: Send + 'static>(action: impl FnOnce() -> T + Send + 'static) -> Receiver<T> {
+    let (sender, receiver) = mpsc::channel();
+    thread::spawn(move || {
+        let _ = sender.send(action());
+    });
+    receiver
+}
+
+fn read_in_thread<R: Read + Send + 'static>(pipe: Option<R>) -> Receiver<std::io::Result<Vec<u8>>> {
+    in_thread(move || {
+        let mut bytes = Vec::new();
+        if let Some(mut pipe) = pipe {
+            pipe.read_to_end(&mut bytes)?;
+        }
+        Ok(bytes)
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From d58b976b067f5ff50255265722d41e867cdb7ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 54/69] fix: find undefined references by their source, and
 count the pipes that rows need

References were looked for in the text without its escapes, line by line and
also in autolinks; definitions in code blocks counted; escaped brackets hid
others like them on their line. Rows without outer pipes were all reported,
rows with a missing cell were not.
---
 src/serializer/document.rs | 234 +++++++++++++++----------------------
 src/serializer/position.rs |   2 +-
 src/serializer/table.rs    |  29 ++---
 3 files changed, 111 insertions(+), 154 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index afa9aa4..b0008a3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -2,6 +2,7 @@
 
 use comrak::nodes::{AstNode, NodeValue};
 use regex::Regex;
+use std::sync::LazyLock;
 use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
@@ -565,27 +566,32 @@ impl<'a> Serializer<'a> {
     /// patterns. When comrak cannot resolve a reference link, it leaves the
     /// brackets as literal text. We detect these and emit warnings.
     ///
-    /// We also check the original source to ensure the bracket wasn't
-    /// intentionally escaped (e.g., `\[label]`).
+    /// The patterns are looked for in the source of the text, where brackets that
+    /// are escaped (e.g., `\[label]`) can be told apart.
     fn check_undefined_references_ast<'b>(&mut self, node: &'b AstNode<'b>) {
         if self.source_lines.is_empty() {
             return;
         }
 
-        // Collect PHP Markdown Extra abbreviation definitions from source
-        let abbreviations = Self::collect_abbreviations(&self.source_lines);
-
-        // Collect reference definitions from source that comrak may not have parsed
-        // (e.g., when they follow abbreviation definitions without a blank line)
-        let source_ref_defs = Self::collect_source_reference_definitions(&self.source_lines);
+        // Names that need no definition
+        let mut known = std::collections::HashSet::new();
+        for paragraph in node.descendants() {
+            let data = paragraph.data.borrow();
+            if matches!(data.value, NodeValue::Paragraph) {
+                let first = data.sourcepos.start.line.saturating_sub(1);
+                let last = data.sourcepos.end.line.min(self.source_lines.len());
+                let lines = self.source_lines.get(first..last).unwrap_or_default();
+                // PHP Markdown Extra abbreviation definitions
+                known.extend(Self::collect_abbreviations(lines));
+                // Reference definitions that comrak may not have parsed
+                // (e.g., when they follow abbreviation definitions without a blank line)
+                known.extend(Self::collect_source_reference_definitions(lines));
+            }
+        }
 
         // Collect warnings first to avoid borrow issues
-        let warnings = Self::find_undefined_references_in_ast(
-            node,
-            &self.source_lines,
-            &abbreviations,
-            &source_ref_defs,
-        );
+        let mut warnings = Vec::new();
+        self.find_undefined_references(node, &known, &mut warnings);
 
         // Filter out warnings that fall within disabled regions
         for (line, msg) in warnings {
@@ -634,146 +640,96 @@ impl<'a> Serializer<'a> {
         definitions
     }
 
-    /// Find undefined references by walking the AST.
-    /// Returns a vector of (line_number, warning_message) tuples.
-    fn find_undefined_references_in_ast<'b>(
-        node: &'b AstNode<'b>,
-        source_lines: &[&str],
-        abbreviations: &std::collections::HashSet<String>,
-        source_ref_defs: &std::collections::HashSet<String>,
-    ) -> Vec<(usize, String)> {
-        let mut warnings = Vec::new();
-
-        // Pattern to find [label] or [text][label] in text nodes
-        // This matches text that looks like a reference link but wasn't parsed as one
-        // The pattern [^\[\]] ensures the label doesn't start with [ or ]
-        let ref_pattern = Regex::new(r"\[([^\[\]][^\]]*)\](?:\[([^\]]*)\])?").unwrap();
-
-        Self::walk_ast_for_undefined_refs(
-            node,
-            source_lines,
-            &ref_pattern,
-            abbreviations,
-            source_ref_defs,
-            &mut warnings,
-        );
-
-        warnings
-    }
-
-    /// Recursively walk the AST looking for undefined references in Text nodes.
-    fn walk_ast_for_undefined_refs<'b>(
+    /// Find undefined references in the texts of a node and the nodes in it.
+    /// Adds (line_number, warning_message) tuples to `warnings`.
+    fn find_undefined_references<'b>(
+        &self,
         node: &'b AstNode<'b>,
-        source_lines: &[&str],
-        ref_pattern: &Regex,
-        abbreviations: &std::collections::HashSet<String>,
-        source_ref_defs: &std::collections::HashSet<String>,
+        known: &std::collections::HashSet<String>,
         warnings: &mut Vec<(usize, String)>,
     ) {
-        let data = node.data.borrow();
-
-        match &data.value {
-            NodeValue::Text(text) => {
-                // Look for [label] patterns in text content
-                let line_num = data.sourcepos.start.line;
-
-                for caps in ref_pattern.captures_iter(text) {
-                    let full_match = caps.get(0).unwrap();
-                    let label = if let Some(explicit_label) = caps.get(2) {
-                        // [text][label] form - use the explicit label
-                        let l = explicit_label.as_str();
-                        if l.is_empty() {
-                            // [text][] form - use the text as label
-                            caps.get(1).map(|m| m.as_str()).unwrap_or("")
-                        } else {
-                            l
-                        }
-                    } else {
-                        // [text] form - use the text as label
-                        caps.get(1).map(|m| m.as_str()).unwrap_or("")
-                    };
-
-                    // Skip empty labels
-                    if label.is_empty() {
-                        continue;
-                    }
-
-                    // Skip footnote references [^name]
-                    if label.starts_with('^') {
-                        continue;
-                    }
-
-                    // Skip GitHub alert markers [!NOTE], [!TIP], etc.
-                    if label.starts_with('!') {
-                        continue;
-                    }
-
-                    // Skip PHP Markdown Extra abbreviations
-                    if abbreviations.contains(label) {
-                        continue;
-                    }
-
-                    // Skip reference definitions that exist in source but comrak didn't parse
-                    // (e.g., when they follow abbreviation definitions without a blank line)
-                    if source_ref_defs.contains(label) {
-                        continue;
-                    }
+        // The addresses of autolinks are no references
+        if matches!(node.data.borrow().value, NodeValue::Link(_))
+            && self
+                .extract_source(node)
+                .is_some_and(|source| source.starts_with('<'))
+        {
+            return;
+        }
 
-                    // Check original source to see if this was escaped
-                    if Self::is_escaped_in_source(source_lines, line_num, full_match.as_str()) {
-                        continue;
+        // Texts with nothing but line breaks between them are read as one
+        let mut line = 0;
+        let mut text = String::new();
+        for child in node.children() {
+            let data = child.data.borrow();
+            match &data.value {
+                NodeValue::Text(content) => {
+                    if text.is_empty() {
+                        line = data.sourcepos.start.line;
                     }
-
-                    warnings.push((line_num, format!("undefined reference link: [{}]", label)));
+                    text.push_str(
+                        &self
+                            .extract_text_source(child)
+                            .unwrap_or(content.to_string()),
+                    );
+                }
+                NodeValue::SoftBreak if !text.is_empty() => text.push('\n'),
+                _ => {
+                    Self::find_undefined_labels(&text, line, known, warnings);
+                    text.clear();
+                    drop(data);
+                    self.find_undefined_references(child, known, warnings);
                 }
             }
-            // Skip code blocks and inline code - they don't contain reference links
-            NodeValue::CodeBlock(_) | NodeValue::Code(_) => {
-                return;
-            }
-            // Skip other leaf nodes that don't contain text we care about
-            NodeValue::HtmlBlock(_) | NodeValue::HtmlInline(_) => {
-                return;
-            }
-            _ => {}
         }
+        Self::find_undefined_labels(&text, line, known, warnings);
+    }
 
-        drop(data);
+    /// Find the labels in the source of a text that begins on the given line.
+    fn find_undefined_labels(
+        text: &str,
+        line: usize,
+        known: &std::collections::HashSet<String>,
+        warnings: &mut Vec<(usize, String)>,
+    ) {
+        // Pattern to find [label] or [text][label], where brackets in the label are escaped.
+        // This matches text that looks like a reference link but wasn't parsed as one.
+        static REF_PATTERN: LazyLock<Regex> = LazyLock::new(|| {
+            Regex::new(r"\\.|\[((?:\\.|[^\[\]\\])+)\](?:\[((?:\\.|[^\[\]\\])*)\])?").unwrap()
+        });
 
-        // Recurse into children
-        for child in node.children() {
-            Self::walk_ast_for_undefined_refs(
-                child,
-                source_lines,
-                ref_pattern,
-                abbreviations,
-                source_ref_defs,
-                warnings,
-            );
-        }
-    }
+        for caps in REF_PATTERN.captures_iter(text) {
+            // An escaped character
+            let Some(first) = caps.get(1) else {
+                continue;
+            };
+            // [text][label] has an explicit label, [text] and [text][] use the text as label
+            let label = caps.get(2).filter(|label| !label.is_empty());
+            let label = super::escape::normalize_whitespace(label.unwrap_or(first).as_str());
 
-    /// Check if a bracket pattern was escaped in the original source.
-    /// Returns true if the pattern appears as `\[...]` in the source.
-    fn is_escaped_in_source(source_lines: &[&str], line_num: usize, pattern: &str) -> bool {
-        if line_num == 0 || line_num > source_lines.len() {
-            return false;
-        }
+            // Skip empty labels
+            if label.is_empty() {
+                continue;
+            }
 
-        let line = source_lines[line_num - 1];
+            // Skip footnote references [^name]
+            if label.starts_with('^') {
+                continue;
+            }
 
-        // Look for the pattern in the line and check if it's preceded by backslash
-        if let Some(pos) = line.find(pattern)
-            && pos > 0
-        {
-            let bytes = line.as_bytes();
-            // Check if preceded by backslash (and not double backslash)
-            if bytes[pos - 1] == b'\\' && (pos < 2 || bytes[pos - 2] != b'\\') {
-                return true;
+            // Skip GitHub alert markers [!NOTE], [!TIP], etc.
+            if label.starts_with('!') {
+                continue;
+            }
+
+            // Skip abbreviations and definitions that comrak didn't parse
+            if known.contains(&label) {
+                continue;
             }
-        }
 
-        false
+            let line = line + text[..first.start()].matches('\n').count();
+            warnings.push((line, format!("undefined reference link: [{}]", label)));
+        }
     }
 
     /// The columns that the text of a list item is indented in the source.
diff --git a/src/serializer/position.rs b/src/serializer/position.rs
index e17d945..e81701e 100644
--- a/src/serializer/position.rs
+++ b/src/serializer/position.rs
@@ -68,7 +68,7 @@ impl<'a> Serializer<'a> {
     }
 
     /// How far the text of a line is indented, in a block that starts at `line` and `column`.
-    fn text_offset(&self, at: usize, line: usize, column: usize) -> usize {
+    pub(super) fn text_offset(&self, at: usize, line: usize, column: usize) -> usize {
         if at == line {
             return column - 1;
         }
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 496c1b4..b7b2006 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -142,11 +142,8 @@ impl<'a> Serializer<'a> {
             }
             let line = self.source_lines[line_idx];
 
-            // Skip separator row (contains only |, -, :, and spaces)
-            if line
-                .chars()
-                .all(|c| c == '|' || c == '-' || c == ':' || c == ' ')
-            {
+            // Skip separator row
+            if line_num == start_line + 1 {
                 continue;
             }
 
@@ -155,27 +152,31 @@ impl<'a> Serializer<'a> {
 
             // A row with N columns has N+1 pipe characters (including leading and trailing)
             // But some tables may omit leading/trailing pipes
-            // Expected: expected_cols + 1 pipes for a proper table row
-            // Allow expected_cols pipes if leading or trailing is omitted
-            let expected_pipes_full = expected_cols + 1;
-            let expected_pipes_min = expected_cols;
-
-            if pipe_count > expected_pipes_full {
+            let row = line
+                .get(self.text_offset(line_num, start_line, sourcepos.start.column)..)
+                .unwrap_or(line)
+                .trim();
+            let omits_leading = !row.starts_with('|');
+            let omits_trailing = !row.ends_with('|') || row.ends_with("\\|");
+            let expected_pipes =
+                expected_cols + 1 - omits_leading as usize - omits_trailing as usize;
+
+            if pipe_count > expected_pipes {
                 self.add_warning(
                     line_num,
                     format!(
                         "table row has {} pipe characters, expected {} for {} columns; \
                          unescaped `|` in cell content? (table starts at line {})",
-                        pipe_count, expected_pipes_full, expected_cols, table_start_line
+                        pipe_count, expected_pipes, expected_cols, table_start_line
                     ),
                 );
-            } else if pipe_count < expected_pipes_min {
+            } else if pipe_count < expected_pipes {
                 self.add_warning(
                     line_num,
                     format!(
                         "table row has {} pipe characters, expected at least {} for {} columns \
                          (table starts at line {})",
-                        pipe_count, expected_pipes_min, expected_cols, table_start_line
+                        pipe_count, expected_pipes, expected_cols, table_start_line
                     ),
                 );
             }
-- 
2.43.0


From 104517a5b2decc4b0bba905868704391d0022c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 55/69] fix: print diffs that can be applied

Files without a newline at the end got one in the diff, and lone carriage
returns were taken for line ends.
---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1d59371..f8d6f26 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -323,7 +323,10 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
         return;
     }
 
-    let diff = TextDiff::from_lines(original, formatted);
+    // Only line feeds end lines in a unified diff
+    let old: Vec<&str> = original.split_inclusive('\n').collect();
+    let new: Vec<&str> = formatted.split_inclusive('\n').collect();
+    let diff = TextDiff::from_slices(&old, &new);
 
     println!("--- {}", filename);
     println!("+++ {}", filename);
@@ -338,7 +341,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
             };
             print!("{}{}", sign, change.value());
             if !change.value().ends_with('\n') {
-                println!();
+                println!("\n\\ No newline at end of file");
             }
         }
     }
-- 
2.43.0


From b0e9f0b40d00d4bb0a54537c82c816011597f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 56/69] fix: process files that are given twice once

They were read and written at the same time.
---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index f8d6f26..38a5a81 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 //! Hongdown CLI - A Markdown formatter for Hong Minhee's style conventions.
 
+use std::collections::HashSet;
 use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
@@ -196,6 +197,13 @@ fn process_files_parallel(
     let has_error = AtomicBool::new(false);
     let all_formatted = AtomicBool::new(true);
 
+    // A file that is given more than once must not be read while it is written
+    let mut seen = HashSet::new();
+    let files: Vec<&PathBuf> = files
+        .iter()
+        .filter(|file| seen.insert(fs::canonicalize(file).unwrap_or_else(|_| file.to_path_buf())))
+        .collect();
+
     files.par_iter().for_each(|file| {
         let input = match fs::read_to_string(file) {
             Ok(content) => content,
-- 
2.43.0


From 829af8ca77fc677f78c517efa999f98ae8d35aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 57/69] fix: have include patterns respect .gitignore, and skip
 .git directories

Files that matched an include pattern escaped .gitignore, .git directories were
searched, and .ignore files were respected, even with git_aware = false.
---
 src/config.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..bea6d46 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1098,14 +1098,24 @@ impl Config {
 
         let overrides = override_builder.build().map_err(ConfigError::Ignore)?;
 
-        // Build walker with overrides
-        // This efficiently skips directories that don't match patterns
+        // Build walker. The patterns are not given to it as overrides, which would
+        // have files that match an include pattern escape `.gitignore`.
+        let git_aware = self.git_aware;
+        let directory_overrides = overrides.clone();
         let walker = WalkBuilder::new(base_dir)
             .hidden(false) // Don't automatically ignore hidden files
+            .ignore(false) // Only Git decides what else is ignored
             .git_ignore(self.git_aware) // Respect .gitignore if git_aware is enabled
             .git_global(false) // Don't use global gitignore (for consistency)
             .git_exclude(self.git_aware) // Respect .git/info/exclude if git_aware is enabled
-            .overrides(overrides)
+            .filter_entry(move |entry| {
+                // This efficiently skips directories that are excluded
+                if entry.depth() == 0 || !entry.file_type().is_some_and(|t| t.is_dir()) {
+                    return true;
+                }
+                let is_git = git_aware && entry.file_name() == ".git";
+                !is_git && !directory_overrides.matched(entry.path(), true).is_ignore()
+            })
             .build();
 
         // Collect matching files
@@ -1113,7 +1123,7 @@ impl Config {
         for entry in walker {
             let entry = entry.map_err(ConfigError::Ignore)?;
             let path = entry.path();
-            if path.is_file() {
+            if path.is_file() && overrides.matched(path, false).is_whitelist() {
                 files.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From 91585e8a551d358aa52c40efb4719b5ff4ff49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 58/69] fix: find the files of --config files in the current
 directory

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 38a5a81..c4bcdd1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -411,6 +411,8 @@ fn load_config(args: &Args) -> (Config, PathBuf) {
             Ok(config) => {
                 let config_dir = config_path
                     .parent()
+                    // That of a file in the current directory is empty
+                    .filter(|p| !p.as_os_str().is_empty())
                     .map(|p| p.to_path_buf())
                     .unwrap_or_else(|| cwd.clone());
                 return (config, config_dir);
-- 
2.43.0


From c1ce1d0e1ea98fe7961d93b3faa0c1f76a35234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 59/69] fix: stop at invalid configurations

An error in a configuration file was only a warning, and files were then
formatted (and written) with the default settings. An invalid --line-width
ended in a panic.
---
 src/main.rs | 65 +++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c4bcdd1..57ab73b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -8,7 +8,7 @@ use std::process::ExitCode;
 use std::sync::atomic::{AtomicBool, Ordering};
 
 use clap::Parser;
-use hongdown::config::Config;
+use hongdown::config::{Config, ConfigError};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
@@ -52,14 +52,25 @@ fn main() -> ExitCode {
     let args = Args::parse();
 
     // Load configuration
-    let (config, config_dir) = load_config(&args);
+    let (config, config_dir) = match load_config(&args) {
+        Ok(loaded) => loaded,
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
+
+    let line_width = match args.line_width.map(LineWidth::new).transpose() {
+        Ok(line_width) => line_width.unwrap_or(config.line_width),
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
 
     // Build options, with CLI args overriding config file
     let options = Options {
-        line_width: args
-            .line_width
-            .map(|w| LineWidth::new(w).expect("Invalid line width"))
-            .unwrap_or(config.line_width),
+        line_width,
         setext_h1: config.heading.setext_h1,
         setext_h2: config.heading.setext_h2,
         heading_sentence_case: config.heading.sentence_case,
@@ -402,39 +413,25 @@ fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
 ///    - User XDG config: `$XDG_CONFIG_HOME/hongdown/config.toml`
 ///    - Project config: `.hongdown.toml` in current or parent directories
 /// 3. Default configuration
-fn load_config(args: &Args) -> (Config, PathBuf) {
+fn load_config(args: &Args) -> Result<(Config, PathBuf), ConfigError> {
     let cwd = std::env::current_dir().unwrap_or_else(|_| PathBuf::from("."));
 
     // If explicit config path is provided, use it without cascading
     if let Some(config_path) = &args.config {
-        match Config::from_file(config_path) {
-            Ok(config) => {
-                let config_dir = config_path
-                    .parent()
-                    // That of a file in the current directory is empty
-                    .filter(|p| !p.as_os_str().is_empty())
-                    .map(|p| p.to_path_buf())
-                    .unwrap_or_else(|| cwd.clone());
-                return (config, config_dir);
-            }
-            Err(e) => {
-                eprintln!("Warning: {}", e);
-                return (Config::default(), cwd);
-            }
-        }
+        let config = Config::from_file(config_path)?;
+        let config_dir = config_path
+            .parent()
+            // That of a file in the current directory is empty
+            .filter(|p| !p.as_os_str().is_empty())
+            .map(|p| p.to_path_buf())
+            .unwrap_or_else(|| cwd.clone());
+        return Ok((config, config_dir));
     }
 
     // Use cascading config loading from all sources
-    match Config::load_cascading(&cwd) {
-        Ok((config, maybe_project_path)) => {
-            let config_dir = maybe_project_path
-                .and_then(|p| p.parent().map(|p| p.to_path_buf()))
-                .unwrap_or_else(|| cwd.clone());
-            (config, config_dir)
-        }
-        Err(e) => {
-            eprintln!("Warning: {}", e);
-            (Config::default(), cwd)
-        }
-    }
+    let (config, maybe_project_path) = Config::load_cascading(&cwd)?;
+    let config_dir = maybe_project_path
+        .and_then(|p| p.parent().map(|p| p.to_path_buf()))
+        .unwrap_or_else(|| cwd.clone());
+    Ok((config, config_dir))
 }
-- 
2.43.0


From b90590989a25c55a6f56dbfcebaa52239bca09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 60/69] fix: reject thematic breaks with a few markers of
 another type

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index bea6d46..7aa1c4d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,7 +731,7 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        if marker_counts.iter().filter(|(count, _)| *count > 0).count() > 1 {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
-- 
2.43.0


From 9c87653c2651c77e2fb846d6077be37ccb9f967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 61/69] fix: inherit settings one by one

A section in a higher-priority configuration file made all settings of that
section in the others ineffective, also those that it did not have. And files
that no_inherit excludes had to be valid.
---
 src/config.rs | 93 +++++++++++++++++++++++----------------------------
 1 file changed, 42 insertions(+), 51 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 7aa1c4d..aab32ed 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -979,66 +979,44 @@ impl Config {
     /// If the project config has `no_inherit = true`, all parent configs are
     /// ignored.
     pub fn load_cascading(start_dir: &Path) -> Result<(Self, Option<PathBuf>), ConfigError> {
-        let mut layers = Vec::new();
-        let mut project_config_path = None;
+        let project = Self::discover_project_config(start_dir)?;
+        let no_inherit = project.as_ref().is_some_and(|(_, layer)| layer.no_inherit);
+        let project_config_path = project.map(|(path, _)| path);
 
-        // 1. Try system-wide config: /etc/hongdown/config.toml
-        if let Some(layer) = Self::load_system_config()? {
-            layers.push(layer);
-        }
+        let mut layers = Vec::new();
+        // If no_inherit is true, skip all parent layers
+        if !no_inherit {
+            // 1. System-wide config: /etc/hongdown/config.toml
+            layers.push(PathBuf::from("/etc/hongdown/config.toml"));
 
-        // 2. Try user legacy config: ~/.hongdown.toml
-        if let Some(layer) = Self::load_user_legacy_config()? {
-            layers.push(layer);
-        }
+            // 2. User legacy config: ~/.hongdown.toml
+            layers.extend(dirs::home_dir().map(|home| home.join(".hongdown.toml")));
 
-        // 3. Try XDG user config: $XDG_CONFIG_HOME/hongdown/config.toml
-        if let Some(layer) = Self::load_user_xdg_config()? {
-            layers.push(layer);
+            // 3. XDG user config: $XDG_CONFIG_HOME/hongdown/config.toml
+            layers.extend(dirs::config_dir().map(|dir| dir.join("hongdown/config.toml")));
         }
 
-        // 4. Try project config: search upward from start_dir
-        if let Some((path, layer)) = Self::discover_project_config(start_dir)? {
-            project_config_path = Some(path);
+        // 4. Project config: found by searching upward from start_dir
+        layers.extend(project_config_path.clone());
 
-            // If no_inherit is true, skip all parent layers
-            if layer.no_inherit {
-                layers.clear();
+        // Merge all layers, setting by setting
+        let mut merged = toml::Table::new();
+        for path in &layers {
+            // Each must be valid by itself
+            if Self::try_load_layer(path)?.is_none() {
+                continue;
             }
-
-            layers.push(layer);
-        }
-
-        // Merge all layers, starting from Config::default()
-        let mut config = Self::default();
-        for layer in layers {
-            config = layer.merge_over(config);
-        }
-
-        Ok((config, project_config_path))
-    }
-
-    /// Load system-wide config from /etc/hongdown/config.toml.
-    fn load_system_config() -> Result<Option<ConfigLayer>, ConfigError> {
-        Self::try_load_layer(Path::new("/etc/hongdown/config.toml"))
-    }
-
-    /// Load user legacy config from ~/.hongdown.toml.
-    fn load_user_legacy_config() -> Result<Option<ConfigLayer>, ConfigError> {
-        if let Some(home) = dirs::home_dir() {
-            Self::try_load_layer(&home.join(".hongdown.toml"))
-        } else {
-            Ok(None)
+            let content =
+                std::fs::read_to_string(path).map_err(|e| ConfigError::Io(path.clone(), e))?;
+            let table =
+                toml::from_str(&content).map_err(|e| ConfigError::Parse(path.clone(), e))?;
+            merge_tables(&mut merged, table);
         }
-    }
+        let layer: ConfigLayer = merged
+            .try_into()
+            .map_err(|e| ConfigError::Parse(layers.pop().unwrap_or_default(), e))?;
 
-    /// Load user XDG config from $XDG_CONFIG_HOME/hongdown/config.toml.
-    fn load_user_xdg_config() -> Result<Option<ConfigLayer>, ConfigError> {
-        if let Some(config_dir) = dirs::config_dir() {
-            Self::try_load_layer(&config_dir.join("hongdown/config.toml"))
-        } else {
-            Ok(None)
-        }
+        Ok((layer.merge_over(Self::default()), project_config_path))
     }
 
     /// Discover project config by searching upward from start_dir.
@@ -1135,6 +1113,19 @@ impl Config {
     }
 }
 
+/// Merge the settings of a table over those of another one, down to the settings of
+/// sections (and of sections in them).
+fn merge_tables(base: &mut toml::Table, over: toml::Table) {
+    for (key, value) in over {
+        match (base.get_mut(&key), value) {
+            (Some(toml::Value::Table(base)), toml::Value::Table(over)) => merge_tables(base, over),
+            (_, value) => {
+                base.insert(key, value);
+            }
+        }
+    }
+}
+
 /// Errors that can occur when loading configuration.
 #[derive(Debug)]
 pub enum ConfigError {
-- 
2.43.0


From 2a2a2300fc738ab89ad46e95a15a01ca3668e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 62/69] verif: expose the conversion of JavaScript options
 behind a feature

---
 Cargo.toml  | 2 ++
 src/lib.rs  | 4 ++++
 src/wasm.rs | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/Cargo.toml b/Cargo.toml
index 354eebd..d75e87b 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -12,6 +12,8 @@ crate-type = ["cdylib", "rlib"]
 [features]
 default = []
 wasm = ["wasm-bindgen", "serde-wasm-bindgen", "js-sys", "getrandom"]
+# Entry points for verification harnesses, not for use
+verif-hooks = ["wasm"]
 
 [dependencies]
 clap = { version = "4.5.54", features = ["derive"] }
diff --git a/src/lib.rs b/src/lib.rs
index 0db8847..2659069 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,10 @@ mod serializer;
 #[cfg(feature = "wasm")]
 mod wasm;
 
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub use wasm::verif_js_options;
+
 pub use config::{
     DashPattern, DashSetting, FenceChar, IndentWidth, LeadingSpaces, LineWidth, MinFenceLength,
     OrderedListPad, OrderedMarker, ThematicBreakStyle, TrailingSpaces, UnorderedMarker,
diff --git a/src/wasm.rs b/src/wasm.rs
index 7a3e759..a76ac91 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -242,6 +242,15 @@ impl JsOptions {
     }
 }
 
+/// Converts JavaScript options, for verification harnesses.
+#[cfg(feature = "verif-hooks")]
+pub fn verif_js_options<'de, D>(options: D) -> Result<Options, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    Ok(JsOptions::deserialize(options)?.to_options())
+}
+
 /// Format result with warnings.
 #[derive(Debug, Serialize)]
 #[serde(rename_all = "camelCase")]
-- 
2.43.0


From a8e701a267767ac83499bd4c284c7a36a0c4847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 63/69] fix: keep HTML entities of two characters and with long
 names

---
 src/serializer/inline.rs | 71 +++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 44 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 968a693..f9c2995 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -1,5 +1,6 @@
 //! Inline node collection and text extraction logic.
 
+use comrak::Arena;
 use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
@@ -7,6 +8,9 @@ use super::escape;
 use super::punctuation;
 use crate::DashSetting;
 
+/// Length of the longest HTML entity, `&CounterClockwiseContourIntegral;`.
+const MAX_ENTITY_LEN: usize = 33;
+
 impl<'a> Serializer<'a> {
     pub(super) fn collect_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
         let mut text = String::new();
@@ -401,13 +405,14 @@ impl<'a> Serializer<'a> {
                 }
             } else if source_char == '&' {
                 // Check for HTML entity
-                if let Some((entity, decoded_char)) =
+                if let Some((entity, decoded)) =
                     Self::try_parse_html_entity(&source_chars, source_idx)
                 {
-                    if decoded_char == text_char {
-                        // The entity decodes to this character - preserve the entity
+                    let decoded: Vec<char> = decoded.chars().collect();
+                    if text_chars[text_idx..].starts_with(&decoded) {
+                        // The entity decodes to these characters - preserve the entity
                         result.push_str(&entity);
-                        text_idx += 1;
+                        text_idx += decoded.len();
                         source_idx += entity.len();
                     } else {
                         // Entity doesn't match the text character - use normal escaping
@@ -463,7 +468,7 @@ impl<'a> Serializer<'a> {
                 end += 1;
             } else {
                 let (entity, decoded) = Self::try_parse_html_entity(source, end)?;
-                if decoded != expected {
+                if decoded != expected.to_string() {
                     return None;
                 }
                 end += entity.len();
@@ -480,16 +485,15 @@ impl<'a> Serializer<'a> {
     }
 
     /// Try to parse an HTML entity starting at the given position.
-    /// Returns the entity string and the decoded character if successful.
-    fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
+    /// Returns the entity string and the decoded text if successful.
+    fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, String)> {
         if start >= chars.len() || chars[start] != '&' {
             return None;
         }
 
         // Find the end of the entity (semicolon)
         let mut end = start + 1;
-        while end < chars.len() && end - start < 12 {
-            // Max entity length ~10 chars
+        while end < chars.len() && end - start < MAX_ENTITY_LEN {
             if chars[end] == ';' {
                 let entity: String = chars[start..=end].iter().collect();
                 if let Some(decoded) = Self::decode_html_entity(&entity) {
@@ -506,42 +510,21 @@ impl<'a> Serializer<'a> {
         None
     }
 
-    /// Decode a single HTML entity to its character.
-    fn decode_html_entity(entity: &str) -> Option<char> {
-        // Handle numeric entities
-        if entity.starts_with("&#") {
-            let inner = entity.trim_start_matches("&#").trim_end_matches(';');
-            if let Some(hex) = inner.strip_prefix('x').or_else(|| inner.strip_prefix('X')) {
-                // Hexadecimal: &#xNN;
-                u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
-            } else {
-                // Decimal: &#NN;
-                inner.parse::<u32>().ok().and_then(char::from_u32)
-            }
-        } else {
-            // Named entities - use html_escape's complete table
-            let name = entity
-                .trim_start_matches('&')
-                .trim_end_matches(';')
-                .as_bytes();
+    /// Decode a single HTML entity to its text, of one or two characters, as the parser does.
+    fn decode_html_entity(entity: &str) -> Option<String> {
+        if !entity.starts_with("&#") {
+            // Most names are none
+            let name = entity.trim_start_matches('&').trim_end_matches(';');
             html_escape::NAMED_ENTITIES
-                .binary_search_by_key(&name, |(n, _)| n)
-                .ok()
-                .and_then(|idx| {
-                    let (_, value) = &html_escape::NAMED_ENTITIES[idx];
-                    // Most entities decode to a single character
-                    let mut chars = value.chars();
-                    let first = chars.next()?;
-                    // TODO: Some entities decode to multiple characters (e.g., &fj; -> "fj").
-                    // Currently we only handle single-character entities. To support
-                    // multi-character entities, the return type would need to change from
-                    // Option<char> to Option<&str> or similar, and callers would need updating.
-                    if chars.next().is_none() {
-                        Some(first)
-                    } else {
-                        None
-                    }
-                })
+                .binary_search_by_key(&name.as_bytes(), |(n, _)| n)
+                .ok()?;
+        }
+        let arena = Arena::new();
+        let root = comrak::parse_document(&arena, entity, &comrak::Options::default());
+        let text = root.first_child()?.first_child()?.data.borrow();
+        match &text.value {
+            NodeValue::Text(decoded) if decoded != entity => Some(decoded.to_string()),
+            _ => None,
         }
     }
 }
-- 
2.43.0


From 340ee978a1d56f80b8ac2515c47f5c0ab6505d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:12 +0000
Subject: [PATCH 64/69] fix: keep consecutive spaces in inline HTML

---
 src/serializer/inline.rs |  6 ++++--
 src/serializer/wrap.rs   | 46 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index f9c2995..e95062f 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -314,8 +314,10 @@ impl<'a> Serializer<'a> {
                 }
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is; its line breaks are soft ones
-                content.push_str(&html.replace('\n', "\x00"));
+                // Preserve inline HTML as-is; its line breaks are soft ones, unless there are
+                // consecutive spaces to keep
+                let line_break = if html.contains("  ") { " " } else { "\x00" };
+                content.push_str(&html.replace('\n', line_break));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index c290d0a..b015d57 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -410,12 +410,14 @@ fn add_token_to_line_with_prefix(
 
 /// The end (exclusive) of the unbreakable unit that starts at `pos`.
 ///
-/// Code spans, bracketed text (with the destination and title that follow it), and
-/// backslash escapes are units; any other character is a unit of its own.
+/// Code spans, bracketed text (with the destination and title that follow it), inline HTML
+/// with consecutive spaces, and backslash escapes are units; any other character is a unit
+/// of its own.
 fn unit_end(chars: &[char], pos: usize) -> usize {
     match chars[pos] {
         '\\' if chars.get(pos + 1).is_some_and(|&c| c != ' ') => pos + 2,
         '`' => code_span_end(chars, pos),
+        '<' => html_end(chars, pos),
         // The end of a link text that began on an earlier line
         ']' => link_target_end(chars, pos + 1),
         '[' => {
@@ -461,6 +463,46 @@ pub(super) fn code_span_end(chars: &[char], pos: usize) -> usize {
     pos + opening
 }
 
+/// The end of the inline HTML that starts at `pos` if it has consecutive spaces, which may
+/// be a part of an attribute; otherwise the next position.
+fn html_end(chars: &[char], pos: usize) -> usize {
+    let starts_with = |start: &str| {
+        chars[pos..]
+            .iter()
+            .copied()
+            .take(start.len())
+            .eq(start.chars())
+    };
+    let close = match chars.get(pos + 1) {
+        Some('!') if starts_with("<!--") => "-->",
+        Some('!') if starts_with("<![CDATA[") => "]]>",
+        Some('?') => "?>",
+        Some(c) if c.is_ascii_alphabetic() || matches!(c, '!' | '/') => ">",
+        _ => return pos + 1,
+    };
+    let mut quote = None;
+    let mut spaces = false;
+    for i in pos + 1..chars.len() {
+        let c = chars[i];
+        spaces |= c == ' ' && chars[i - 1] == ' ';
+        if quote == Some(c) {
+            quote = None;
+        } else if quote.is_none() && close == ">" && matches!(c, '"' | '\'') {
+            quote = Some(c);
+        } else if quote.is_none()
+            && chars[..=i]
+                .iter()
+                .rev()
+                .copied()
+                .take(close.len())
+                .eq(close.chars().rev())
+        {
+            return if spaces { i + 1 } else { pos + 1 };
+        }
+    }
+    pos + 1
+}
+
 /// The end of the link target `(destination "title")` that starts at `pos`, or `pos`
 /// if there is none.
 pub(super) fn link_target_end(chars: &[char], pos: usize) -> usize {
-- 
2.43.0


From 4795914a68a16c80a3bc633215acb4e16ed25572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 65/69] verif: expose formatting with a JavaScript code
 formatter behind the feature

---
 src/lib.rs  |  2 +-
 src/wasm.rs | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2659069..012d606 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,7 +21,7 @@ mod wasm;
 
 #[cfg(feature = "verif-hooks")]
 #[doc(hidden)]
-pub use wasm::verif_js_options;
+pub use wasm::{verif_js_format, verif_js_options};
 
 pub use config::{
     DashPattern, DashSetting, FenceChar, IndentWidth, LeadingSpaces, LineWidth, MinFenceLength,
diff --git a/src/wasm.rs b/src/wasm.rs
index a76ac91..746d64f 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -251,6 +251,20 @@ where
     Ok(JsOptions::deserialize(options)?.to_options())
 }
 
+/// Formats like `formatWithCodeFormatter` without a code formatter, for verification
+/// harnesses.
+#[cfg(feature = "verif-hooks")]
+pub fn verif_js_format(input: &str, options: &Options) -> crate::FormatResult {
+    let input = &*crate::normalize_line_endings(input);
+    let arena = comrak::Arena::new();
+    let root = comrak::parse_document(&arena, input, &crate::comrak_options());
+    let result = crate::serializer::serialize_with_code_formatter(root, options, Some(input), None);
+    crate::FormatResult {
+        output: result.output,
+        warnings: result.warnings,
+    }
+}
+
 /// Format result with warnings.
 #[derive(Debug, Serialize)]
 #[serde(rename_all = "camelCase")]
-- 
2.43.0


From b827604693760f341de6e05f394de47ff79ec404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:16 +0000
Subject: [PATCH 66/69] fix: keep apostrophes of possessives after punctuation

---
 src/serializer/heading.rs     | 23 ++++++++++++++++-------
 src/serializer/punctuation.rs | 19 +++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 28ae8d9..417dcde 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -2,6 +2,8 @@
 // SPDX-License-Identifier: GPL-3.0-or-later
 //! Heading sentence case conversion.
 
+use super::punctuation::ends_word;
+
 // Include generated proper nouns constants
 include!(concat!(env!("OUT_DIR"), "/proper_nouns_generated.rs"));
 
@@ -109,16 +111,23 @@ fn normalize_quotes(text: &str) -> String {
                 }
             }
 
+            // Check for 's specifically (possessive: end of a word + 's + word boundary)
+            let next_is_s_boundary = i + 1 < len
+                && chars[i + 1] == 's'
+                && (i + 2 == len || !chars[i + 2].is_alphanumeric());
+            if next_is_s_boundary
+                && (i == 0 || chars[i - 1].is_alphanumeric() || ends_word(chars[i - 1]))
+            {
+                // Keep as straight quote (apostrophe)
+                result.push('\'');
+                i += 1;
+                continue;
+            }
+
             // Check for contractions: letter + ' + letter (let's, don't, it's)
             if i > 0 && chars[i - 1].is_alphabetic() {
                 let next_is_letter = i + 1 < len && chars[i + 1].is_alphabetic();
-
-                // Check for 's specifically (possessive: letter + 's + word boundary)
-                let next_is_s_boundary = i + 1 < len
-                    && chars[i + 1] == 's'
-                    && (i + 2 == len || !chars[i + 2].is_alphanumeric());
-
-                if next_is_letter || next_is_s_boundary {
+                if next_is_letter {
                     // Keep as straight quote (apostrophe)
                     result.push('\'');
                     i += 1;
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 9b22b9a..8b94b76 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -203,11 +203,10 @@ fn transform_single_quotes(text: &str) -> String {
                 continue;
             }
 
-            // Possessive after closing brackets like [name]'s, (term)'s, {item}'s
+            // Possessive after closing brackets like [name]'s, (term)'s, {item}'s, and after
+            // other punctuation like C++'s
             // These are apostrophes, not quotation marks - leave for apostrophe transform
-            if prev_char.is_some_and(|c| c == ']' || c == ')' || c == '}')
-                && next_char.is_some_and(|c| c == 's' || c == 'S')
-            {
+            if prev_char.is_some_and(ends_word) && next_char.is_some_and(|c| c == 's' || c == 'S') {
                 // Check if it's actually possessive (s followed by non-letter)
                 let after_s = chars.get(i + 2);
                 if after_s.is_none() || after_s.is_some_and(|c| !c.is_alphabetic()) {
@@ -340,10 +339,9 @@ fn transform_apostrophes(text: &str) -> String {
                 }
             }
 
-            // Possessive after closing brackets like [name]'s, (term)'s, {item}'s
-            if prev_char.is_some_and(|c| c == ']' || c == ')' || c == '}')
-                && next_char.is_some_and(|c| c == 's' || c == 'S')
-            {
+            // Possessive after closing brackets like [name]'s, (term)'s, {item}'s, and after
+            // other punctuation like C++'s
+            if prev_char.is_some_and(ends_word) && next_char.is_some_and(|c| c == 's' || c == 'S') {
                 let after_s = chars.get(i + 2);
                 if after_s.is_none() || after_s.is_some_and(|c| !c.is_alphabetic()) {
                     result.push(RIGHT_SINGLE_QUOTE);
@@ -437,6 +435,11 @@ fn transform_dashes(text: &str, pattern: &str, replacement: char) -> String {
     result
 }
 
+/// Whether a punctuation character can end a word that has a possessive.
+pub(super) fn ends_word(c: char) -> bool {
+    "])}+#!?.™®".contains(c) || c == RIGHT_DOUBLE_QUOTE
+}
+
 /// Determine if a quote at position `i` should be an opening quote.
 fn should_be_opening_quote(chars: &[char], i: usize, expecting_open: bool) -> bool {
     let prev_char = if i > 0 { Some(chars[i - 1]) } else { None };
-- 
2.43.0


From 95a6057d42db361d7438544a3de2477209d3ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:16 +0000
Subject: [PATCH 67/69] fix: find listed proper nouns with punctuation in
 headings

---
 src/serializer/heading.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 417dcde..37e093a 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -404,7 +404,19 @@ fn process_quoted_text(
     format!("{}{}{}", opening, processed, closing)
 }
 
+/// Whether a proper noun can be compared with a word without the punctuation around it, a
+/// possessive ending and delimiters.
+fn is_single_word(noun: &str) -> bool {
+    let core = noun.strip_prefix('@').unwrap_or(noun);
+    let has_punctuation = !core.starts_with(char::is_alphanumeric)
+        || !core.ends_with(char::is_alphanumeric)
+        || core.contains(['\'', '\u{2019}', ':', ';', '—', '–']);
+    !has_punctuation || !core.contains(char::is_alphabetic)
+}
+
 /// Collect all multi-word proper nouns (2+ words) from built-in and user lists.
+/// User-defined ones with punctuation that single words are compared without, such as
+/// "C++", are among them.
 /// Returns Vec of (canonical_form, lowercase_search_key).
 /// Excludes any that appear in common_nouns.
 fn collect_multiword_proper_nouns(
@@ -426,7 +438,7 @@ fn collect_multiword_proper_nouns(
 
     // Collect from user proper nouns
     for noun in user_proper_nouns {
-        if noun.contains(' ') {
+        if noun.contains(' ') || !is_single_word(noun) {
             let lowercase_key = noun.to_lowercase();
             if !common_nouns_lower.contains(&lowercase_key) {
                 multiword_nouns.push((noun.clone(), lowercase_key));
-- 
2.43.0


From 004045262514e4f6fa4b3174ef679de2ab65930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 68/69] fix: keep spaces other than ASCII ones at the edges of
 text

Paragraphs in lists, definitions and footnotes lost no-break and
ideographic spaces at their beginning and end, and with nothing else in
them they became empty.
---
 src/serializer/code.rs     |  6 +++---
 src/serializer/document.rs | 12 ++++++------
 src/serializer/mod.rs      | 22 ++++++++++++----------
 src/serializer/verbatim.rs |  4 ++--
 4 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 1af5406..794a269 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -17,18 +17,18 @@ const NO_FORMAT_KEYWORD: &str = "hongdown-no-format";
 /// - `full_info_for_output`: The full info string to output (preserves hongdown-no-format)
 /// - `skip_format`: Whether to skip formatting
 fn parse_code_info(info: &str) -> (&str, &str, bool) {
-    let trimmed = info.trim();
+    let trimmed = info.trim_ascii();
     if trimmed.is_empty() {
         return ("", "", false);
     }
 
     // Check if hongdown-no-format is present
     let has_no_format = trimmed
-        .split_whitespace()
+        .split_ascii_whitespace()
         .any(|word| word == NO_FORMAT_KEYWORD);
 
     // Extract just the language (first word)
-    let language = trimmed.split_whitespace().next().unwrap_or("");
+    let language = trimmed.split_ascii_whitespace().next().unwrap_or("");
 
     // Return the full info for output (to preserve hongdown-no-format)
     (language, trimmed, has_no_format)
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b0008a3..6f8d13a 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -274,7 +274,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
-                        self.push_wrapped(content.trim(), &continuation);
+                        self.push_wrapped(content.trim_ascii(), &continuation);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
@@ -327,7 +327,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
-                        self.push_wrapped(content.trim(), &continuation);
+                        self.push_wrapped(content.trim_ascii(), &continuation);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
@@ -448,7 +448,7 @@ impl<'a> Serializer<'a> {
         // Check if this is a PHP Markdown Extra abbreviation definition (*[abbr]: ...)
         // These are not parsed by comrak, so we preserve them as-is
         if let Some(source) = self.extract_source(node) {
-            let trimmed = source.trim();
+            let trimmed = source.trim_ascii();
             if trimmed.starts_with("*[") && trimmed.contains("]:") {
                 self.output.push_str(trimmed);
                 self.output.push('\n');
@@ -465,11 +465,11 @@ impl<'a> Serializer<'a> {
             // indented like the other blocks of the item
             let continuation = format!("{}{}", self.blockquote_prefix, self.list_item_indent);
             let first_line = inline_content.split(['\n', '\x00']).next();
-            if first_line.is_some_and(|line| wrap::is_underline(line.trim())) {
+            if first_line.is_some_and(|line| wrap::is_underline(line.trim_ascii())) {
                 // Together with the list marker it would be a thematic break
-                inline_content = format!("\\{}", inline_content.trim_start());
+                inline_content = format!("\\{}", inline_content.trim_ascii_start());
             }
-            self.push_wrapped(inline_content.trim(), &continuation);
+            self.push_wrapped(inline_content.trim_ascii(), &continuation);
         } else {
             // Not in a list - wrap the paragraph at line_width
             let prefix = if self.in_block_quote {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index bd4d4ca..1e5dafb 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -147,12 +147,12 @@ impl<'a> Serializer<'a> {
             .split('\n')
             .enumerate()
             .map(|(i, line)| match i {
-                0 => line.trim_end(),
-                _ => line.trim_start_matches([' ', '\t', '>']).trim_end(),
+                0 => line.trim_ascii_end(),
+                _ => line.trim_start_matches([' ', '\t', '>']).trim_ascii_end(),
             })
             .collect::<Vec<_>>()
             .join(" ");
-        let text = text.trim().to_string();
+        let text = text.trim_ascii().to_string();
 
         // If followed by "(", it's inline style
         if after_close.starts_with('(') {
@@ -493,7 +493,7 @@ impl<'a> Serializer<'a> {
             Some(child) if matches!(child.data.borrow().value, NodeValue::Paragraph) => {
                 let mut content = String::new();
                 self.collect_inline_content(child, &mut content);
-                let content = content.trim().to_string();
+                let content = content.trim_ascii().to_string();
                 let starts_with_tag = content.starts_with('<');
                 first_paragraph = Some(content);
                 starts_with_tag
@@ -511,14 +511,16 @@ impl<'a> Serializer<'a> {
                     let first_prefix = " ".repeat(prefix_len.saturating_sub(indent));
                     let width = self.wrap_width();
                     wrap::wrap_text_first_line(&content, &first_prefix, "", width)
-                        .trim()
+                        .trim_ascii()
                         .to_string()
                 }
                 None => self.serialize_single_block(child),
             };
             if let NodeValue::HtmlBlock(_) = &child.data.borrow().value {
                 // Without the indentation beyond that of the footnote, which would grow
-                let lines = block_content.lines().filter(|line| !line.trim().is_empty());
+                let lines = block_content
+                    .lines()
+                    .filter(|line| !line.trim_ascii().is_empty());
                 let indent = lines
                     .map(|line| line.len() - line.trim_start_matches(' ').len())
                     .min()
@@ -532,7 +534,7 @@ impl<'a> Serializer<'a> {
 
             if let NodeValue::ThematicBreak = &child.data.borrow().value {
                 // Its own indentation could make it a code block
-                block_content = block_content.trim_start().to_string();
+                block_content = block_content.trim_ascii_start().to_string();
             }
 
             if !first_block && !block_content.is_empty() {
@@ -544,7 +546,7 @@ impl<'a> Serializer<'a> {
         }
         self.outer_indent = 0;
 
-        result.trim_end().to_string()
+        result.trim_ascii_end().to_string()
     }
 
     /// Serialize a single block element for footnote content.
@@ -553,7 +555,7 @@ impl<'a> Serializer<'a> {
         let old_output = std::mem::take(&mut self.output);
         self.serialize_node(node);
         let block_output = std::mem::replace(&mut self.output, old_output);
-        block_output.trim_end().to_string()
+        block_output.trim_ascii_end().to_string()
     }
 
     pub fn serialize_node<'b>(&mut self, node: &'b AstNode<'b>) {
@@ -711,7 +713,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, &mut content);
                     }
-                    content.trim().to_string()
+                    content.trim_ascii().to_string()
                 };
 
                 self.footnotes.stop_collecting();
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
index ad0ad41..b6f1821 100644
--- a/src/serializer/verbatim.rs
+++ b/src/serializer/verbatim.rs
@@ -182,7 +182,7 @@ impl<'a> Serializer<'a> {
         );
         let is_last = !self.source_lines[region.end.min(self.source_lines.len())..]
             .iter()
-            .any(|line| !line.trim().is_empty());
+            .any(|line| !line.trim_ascii().is_empty());
         if !is_last {
             region.end = self.last_text_line(region.end);
         } else if self.is_open(&region) {
@@ -223,7 +223,7 @@ impl<'a> Serializer<'a> {
     fn last_text_line(&self, line: usize) -> usize {
         self.source_lines[..line.min(self.source_lines.len())]
             .iter()
-            .rposition(|line| !line.trim().is_empty())
+            .rposition(|line| !line.trim_ascii().is_empty())
             .map_or(0, |index| index + 1)
     }
 
-- 
2.43.0


From b4f4c97806c315163aac8f06a917a6dc30d97eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 69/69] fix: keep footnotes that begin with code or a list as
 they are

The label does not count as indentation for what follows on later lines:
code gained spaces, and items were nested in the one before them.
---
 src/serializer/mod.rs | 72 +++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1e5dafb..0e91d0d 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -21,7 +21,7 @@ mod wrap;
 pub use state::CodeFormatterCallback;
 pub use state::{ReferenceLink, Serializer, Warning};
 
-use comrak::nodes::{AstNode, NodeValue};
+use comrak::nodes::{AstNode, ListType, NodeValue};
 
 use crate::Options;
 
@@ -431,26 +431,13 @@ impl<'a> Serializer<'a> {
     fn write_footnote(&mut self, footnote: &state::FootnoteDefinition) {
         let prefix = format!("[^{}]: ", footnote.name);
 
-        // If footnote has block elements, output pre-serialized content with indentation
+        // If footnote has block elements, output pre-serialized and indented content
         if footnote.has_blocks {
-            let starts_with_tag = footnote.content.starts_with('<');
-            let continuation_indent =
-                " ".repeat(self.footnote_block_indent(prefix.len(), starts_with_tag));
-            let lines: Vec<&str> = footnote.content.lines().collect();
-            for (i, line) in lines.iter().enumerate() {
-                if i == 0 {
-                    self.output.push_str(&prefix);
-                    self.output.push_str(line);
-                } else if line.is_empty() {
-                    // Empty line - just add newline
-                    self.output.push_str("");
-                } else {
-                    // Add continuation indent
-                    self.output.push_str(&continuation_indent);
-                    self.output.push_str(line);
-                }
-                self.output.push('\n');
-            }
+            let own_line = footnote.content.starts_with('\n');
+            self.output
+                .push_str(if own_line { prefix.trim_end() } else { &prefix });
+            self.output.push_str(&footnote.content);
+            self.output.push('\n');
             return;
         }
 
@@ -473,9 +460,10 @@ impl<'a> Serializer<'a> {
 
     /// The indentation of the blocks of a footnote: that of its text, unless blocks would
     /// become code blocks (from 8 columns on; list items have leading spaces of their own), or
-    /// the footnote begins with an HTML block, whose lines keep any further indentation.
-    fn footnote_block_indent(&self, prefix_len: usize, starts_with_tag: bool) -> usize {
-        if prefix_len + self.options.leading_spaces.get() < 8 && !starts_with_tag {
+    /// the footnote begins with HTML, code or a list, for whose lines the label does not count
+    /// as indentation.
+    fn footnote_block_indent(&self, prefix_len: usize, starts_flush: bool) -> usize {
+        if prefix_len + self.options.leading_spaces.get() < 8 && !starts_flush {
             prefix_len
         } else {
             4
@@ -483,25 +471,29 @@ impl<'a> Serializer<'a> {
     }
 
     /// Serialize footnote content that contains block elements.
-    /// Returns the serialized content without the footnote prefix.
+    /// Returns the serialized content, indented but for its first line, without the footnote
+    /// prefix.
     fn serialize_footnote_blocks<'b>(&mut self, node: &'b AstNode<'b>, name: &str) -> String {
         let mut result = String::new();
         let mut first_block = true;
         let prefix_len = name.len() + "[^]: ".len();
         let mut first_paragraph = None;
-        let starts_with_tag = match node.first_child() {
+        let starts_flush = match node.first_child() {
             Some(child) if matches!(child.data.borrow().value, NodeValue::Paragraph) => {
                 let mut content = String::new();
                 self.collect_inline_content(child, &mut content);
                 let content = content.trim_ascii().to_string();
-                let starts_with_tag = content.starts_with('<');
+                let starts_flush = content.starts_with('<');
                 first_paragraph = Some(content);
-                starts_with_tag
+                starts_flush
             }
-            Some(child) => matches!(child.data.borrow().value, NodeValue::HtmlBlock(_)),
+            Some(child) => matches!(
+                child.data.borrow().value,
+                NodeValue::HtmlBlock(_) | NodeValue::CodeBlock(_) | NodeValue::List(_)
+            ),
             None => false,
         };
-        let indent = self.footnote_block_indent(prefix_len, starts_with_tag);
+        let indent = self.footnote_block_indent(prefix_len, starts_flush);
         self.outer_indent = indent;
 
         for child in node.children() {
@@ -546,7 +538,27 @@ impl<'a> Serializer<'a> {
         }
         self.outer_indent = 0;
 
-        result.trim_ascii_end().to_string()
+        // The leading spaces of an item on the line of the label would not count, and the rest
+        // of the list be indented too much
+        let starts_with_bullet = node.first_child().is_some_and(|child| {
+            matches!(&child.data.borrow().value,
+                NodeValue::List(list) if list.list_type == ListType::Bullet)
+        });
+        if starts_with_bullet && self.options.leading_spaces.get() > 0 {
+            result.insert(0, '\n');
+        }
+        let indent = " ".repeat(indent);
+        let mut indented = String::new();
+        for (i, line) in result.trim_ascii_end().lines().enumerate() {
+            if i > 0 {
+                indented.push('\n');
+                if !line.is_empty() {
+                    indented.push_str(&indent);
+                }
+            }
+            indented.push_str(line);
+        }
+        indented
     }
 
     /// Serialize a single block element for footnote content.
-- 
2.43.0

