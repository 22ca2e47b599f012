From a4372a22567413bef7944d633fa402a83f84dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 01/14] fix: exchange UTF-16 positions with the client and use
 byte offsets internally

chumsky reports character indices for `&str` inputs, but the spans were used as
byte offsets everywhere. Positions for documents with non-ASCII characters were
wrong, and indexing a debug annotation could slice inside of a character.
---
 src/hir_parser.rs     | 10 +++++++---
 src/lsp_utils.rs      | 18 +++++++++++++++---
 src/semantic_token.rs | 15 ++++++++++-----
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..2c31a5f 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -433,12 +433,16 @@ pub struct ParserResult {
 }
 
 pub fn parse_from_str(src: &str) -> ParserResult {
-    // Tokenize
-    let (tokens, tok_errs) = tokenizer().parse_recovery(src);
+    // Tokenize. All spans are byte offsets. By default, chumsky would use character indices
+    // for strings, so we need to provide the byte offsets explicitly.
+    let strlen = src.len();
+    let (tokens, tok_errs) = tokenizer().parse_recovery(Stream::from_iter(
+        strlen..strlen,
+        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),
+    ));
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
-        let strlen = src.len();
         parser().parse_recovery(Stream::from_iter(
             strlen..strlen + 1,
             // TODO: can we somehow avoid this copy?
diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..946884e 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -4,14 +4,26 @@ use tower_lsp::lsp_types::{Position, Range};
 use crate::hir_tokenizer::Span;
 
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
-    let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    // The `character` is given in UTF-16 code units. Positions past the end of the line
+    // refer to the end of the line.
+    let line = rope.get_line(pos.line as usize)?;
+    let line_len: usize = line
+        .chars()
+        .take_while(|c| !matches!(c, '\n' | '\r'))
+        .map(char::len_utf16)
+        .sum();
+    let character = line_len.min(pos.character as usize);
+    let char = line.try_utf16_cu_to_char(character).ok()?;
+    let first = rope.try_line_to_byte(pos.line as usize).ok()?;
+    Some(first + line.try_char_to_byte(char).ok()?)
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
     let line = rope.try_byte_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let char = rope.try_byte_to_char(pos).ok()?;
+    let character =
+        rope.try_char_to_utf16_cu(char).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..7e7d69e 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -1,7 +1,10 @@
 use ropey::Rope;
 use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
 
-use crate::hir_tokenizer::{Span, Token};
+use crate::{
+    hir_tokenizer::{Span, Token},
+    lsp_utils::offset_to_lsp_pos,
+};
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -60,9 +63,11 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let pos = offset_to_lsp_pos(rope, token.start)?;
+            let line = pos.line;
+            let start = pos.character;
+            let slice = rope.get_byte_slice(token.start..)?;
+            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu();
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +77,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: length as u32,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From 43551a857ee3a7a4b903603117c0b5fcf9155e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 02/14] fix: report syntax errors at the end of the document

The end-of-input span reached past the end of the document, could not be mapped
to a LSP range, and hence the diagnostic was silently dropped.
---
 src/hir_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 2c31a5f..84e672b 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -444,7 +444,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
         parser().parse_recovery(Stream::from_iter(
-            strlen..strlen + 1,
+            strlen..strlen,
             // TODO: can we somehow avoid this copy?
             tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
         ))
-- 
2.43.0


From 4f4e9d632901e5ff52164d1162f5e3a93906cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 03/14] fix: do not hold the document lock while waiting for
 the client

---
 src/main.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 50c5aea..d685317 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -661,16 +661,13 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("document `{}` not found", doc_uri).into(),
-                        data: None,
-                    })?
-                    .index;
-                let func_body = index
+                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
+                    code: ErrorCode::InvalidParams,
+                    message: format!("document `{}` not found", doc_uri).into(),
+                    data: None,
+                })?;
+                let func_body = doc
+                    .index
                     .function_bodies
                     .iter()
                     .find(|b| b.name.0 == *func_name)
@@ -682,6 +679,9 @@ impl LanguageServer for Backend {
 
                 let title = format!("CFG for {}", func_name);
                 let dot_graph = create_cfg_dot_visualization(func_body);
+                // Unlock the document. Otherwise, a `didChange` received while we are
+                // waiting for the client would deadlock.
+                drop(doc);
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From 554b09bfb79b4917362c187dcad876692273a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 04/14] fix: use the last content change and do not crash on
 empty change lists

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d685317..51dfefa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,9 +170,13 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
+        // We use full document sync. In case of multiple changes, the last one wins.
+        let Some(change) = params.content_changes.pop() else {
+            return;
+        };
         self.on_change(TextDocumentItem {
             uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
+            text: change.text,
             version: params.text_document.version,
         })
         .await
-- 
2.43.0


From 8f73f3f11b2c672a4ab0a1f432826956ba20bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 05/14] fix: reject empty names when renaming instead of
 crashing

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 51dfefa..4c8cfb1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -380,7 +380,10 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
+            if new_name.starts_with(char::is_numeric)
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
-- 
2.43.0


From d489b22913ac302cdb8a7a131ff7f64bd3b3b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 06/14] fix: reject new names which would not be recognized as
 the same kind of symbol

---
 src/main.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 4c8cfb1..93bf96f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,6 +12,7 @@ use hyper_ir_lsp::diagnostics::{
 };
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
+use hyper_ir_lsp::hir_tokenizer::Token;
 use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
 use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
 use hyper_ir_lsp::semantic_token::{
@@ -389,6 +390,17 @@ impl LanguageServer for Backend {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
             new_name = format!("{}{}", prefix, new_name);
+            // Make sure that the new name is still recognized as the same kind of identifier
+            // (e.g., it must not be a keyword and it must not end in a `:`)
+            use hyper_ir_lsp::hir_index::SymbolKind as HIRSymbolKind;
+            match (symbol.symbol_kind, &parse_from_str(&new_name).tokens[..]) {
+                (HIRSymbolKind::GlobalVar, [(Token::GlobalName(_), _)])
+                | (HIRSymbolKind::Function, [(Token::GlobalName(_), _)])
+                | (HIRSymbolKind::DbgAnnotation, [(Token::DebugRef(_), _)])
+                | (HIRSymbolKind::Label, [(Token::Ident(_), _)])
+                | (HIRSymbolKind::LocalVar, [(Token::LocalName(_), _)]) => {}
+                _ => return Result::Err(Error::invalid_params("Name is not a valid identifier")),
+            }
 
             // Rename all occurrences
             let usedefs = doc
-- 
2.43.0


From 5119c254a53e5f798b3ad2bf7d2fd1ac7bc11d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 07/14] fix: do not crash when resolving a code action for an
 unknown function body

The function id is sent by the client and might be outdated by now.
---
 src/hir_index.rs | 12 ++++++------
 src/main.rs      |  6 +++---
 src/rename.rs    |  5 +++--
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..110ccaf 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -89,13 +89,13 @@ impl HIRIndex {
         &'a self,
         k: SymbolKind,
         fb: Option<&'a FunctionBody>,
-    ) -> &'a HashMap<String, UseDefList> {
+    ) -> Option<&'a HashMap<String, UseDefList>> {
         match k {
-            SymbolKind::GlobalVar => &self.global_vars,
-            SymbolKind::Function => &self.functions,
-            SymbolKind::DbgAnnotation => &self.dgb_annotations,
-            SymbolKind::Label => &fb.unwrap().labels,
-            SymbolKind::LocalVar => &fb.unwrap().local_vars,
+            SymbolKind::GlobalVar => Some(&self.global_vars),
+            SymbolKind::Function => Some(&self.functions),
+            SymbolKind::DbgAnnotation => Some(&self.dgb_annotations),
+            SymbolKind::Label => fb.map(|fb| &fb.labels),
+            SymbolKind::LocalVar => fb.map(|fb| &fb.local_vars),
         }
     }
 
diff --git a/src/main.rs b/src/main.rs
index 93bf96f..6b620a5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -409,8 +409,8 @@ impl LanguageServer for Backend {
                     symbol.symbol_kind,
                     symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                 )
-                .get(&symbol.name)
-                .unwrap();
+                .and_then(|m| m.get(&symbol.name))
+                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
             get_rename_edits(&doc.rope, usedefs, &new_name)
         };
         let edit = WorkspaceEdit {
@@ -801,7 +801,7 @@ impl Backend {
             .get_by_symbol_kind(
                 symbol.symbol_kind,
                 symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
-            )
+            )?
             .get(&symbol.name)?;
         let mut ranges = usedefs
             .get_use_def_kind(ud)
diff --git a/src/rename.rs b/src/rename.rs
index 558d253..ad07415 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -41,9 +41,10 @@ pub fn get_shift_edits(
     index
         .get_by_symbol_kind(
             symbol_kind,
-            func_body_id.map(|id| &index.function_bodies[id]),
+            func_body_id.and_then(|id| index.function_bodies.get(id)),
         )
-        .iter()
+        .into_iter()
+        .flatten()
         .filter_map(|(name, usedefs)| {
             let (prefix, nr) = extract_number_from_identifier(name)?;
             if nr < renamed_nr {
-- 
2.43.0


From f9f4e9ecfea523e038ea5c323d1b2fe431e320a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 08/14] fix: do not crash on overflowing relative renames

---
 src/main.rs   | 2 +-
 src/rename.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6b620a5..814da04 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -348,7 +348,7 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = rename_nr.wrapping_mul(sign);
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
diff --git a/src/rename.rs b/src/rename.rs
index ad07415..a10e215 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -50,7 +50,7 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
         .flatten()
-- 
2.43.0


From e1c1f9c1a6744124686e9f8ae3a402f01c6a969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 09/14] fix: do not crash on numbered identifiers with
 non-ASCII characters

---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index a10e215..37f6009 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(char::is_numeric).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From ca6257a0887332cc2ad60d2ce7ea818f454447e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 10/14] fix: do not crash on external definitions in line 0

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 814da04..831d952 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -823,8 +823,8 @@ impl Backend {
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: Position::new(d.line.saturating_sub(1), 0),
+                        end: Position::new(d.line.saturating_sub(1), 0),
                     },
                 })
             }));
-- 
2.43.0


From 4dac93e0ccb15a38e87c4b16121199ee89e15927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 11/14] fix: do not crash on workspace folders which do not use
 hierarchical URIs

---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..8bfb051 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,7 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From 76184343a1665a476a91b63cac7eb81c9677135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 12/14] fix: do not crash when shortening non-ASCII symbol
 names

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 8bfb051..7a3651d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From fdfd5cd1792a3009325b54fbc471580d94a73319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 13/14] fix: do not let backtraces inject Markdown into
 tooltips

The file names were embedded without sanitizing, and line breaks could end the
code span around the symbol name.
---
 src/backtrace.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 7a3651d..668cc89 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -109,10 +109,13 @@ pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
 fn sanitize_markdown_code(txt: &str) -> String {
     let mut sanitized = String::with_capacity(txt.bytes().len());
     for c in txt.chars() {
-        if c.is_alphanumeric() || c.is_whitespace() {
+        if c.is_alphanumeric() {
             // We allow all alphanumeric chars.
             // Hopefully, none of them has a special meaning in Markdown.
             sanitized.push(c);
+        } else if c.is_whitespace() {
+            // A line break could end the code block
+            sanitized.push(' ');
         } else {
             match c {
                 // Forward characters which are safe in Markdown code blocks.
@@ -143,18 +146,18 @@ fn format_frame_as_md(frame: &Frame) -> String {
             // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
             // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
             format!(
-                "`{}` @ [{}:{}]({}#{})",
+                "`{}` @ [`{}:{}`]({}#{})",
                 sanitize_markdown_code(&frame.symbol),
-                shortened_path,
+                sanitize_markdown_code(shortened_path),
                 frame.line,
                 resolved_fp,
                 frame.line
             )
         } else {
             format!(
-                "`{}` @ {}:{}",
+                "`{}` @ `{}:{}`",
                 sanitize_markdown_code(&frame.symbol),
-                shortened_path,
+                sanitize_markdown_code(shortened_path),
                 frame.line
             )
         }
-- 
2.43.0


From 982c7f15b947f84317368dad78860c4d8e19db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 14/14] fix: do not let file names with parentheses end
 Markdown links in tooltips

---
 src/backtrace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 668cc89..f5e7e5c 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -145,12 +145,15 @@ fn format_frame_as_md(frame: &Frame) -> String {
         if let Some(resolved_fp) = &frame.resolved_filepath {
             // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
             // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
+            // In contrast to most other special characters, URLs can contain unescaped parentheses.
+            // A closing parenthesis would end the Markdown link.
+            let link = resolved_fp.as_str().replace('(', "%28").replace(')', "%29");
             format!(
                 "`{}` @ [`{}:{}`]({}#{})",
                 sanitize_markdown_code(&frame.symbol),
                 sanitize_markdown_code(shortened_path),
                 frame.line,
-                resolved_fp,
+                link,
                 frame.line
             )
         } else {
-- 
2.43.0

