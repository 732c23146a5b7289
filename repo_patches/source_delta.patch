From 1b52f8d99eb0eef1264dea5b9afd5815319a5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:58 +0000
Subject: [PATCH 01/17] fix: do not hold the document lock while waiting for
 the showDot reply

---
 src/main.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 50c5aea..7845d7f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -661,27 +661,28 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
+                // The document must not stay locked while we wait for the client's reply.
+                // Otherwise, a `didChange` received in the meantime would block the server.
+                let (title, dot_graph) = {
+                    let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                         code: ErrorCode::InvalidParams,
                         message: format!("document `{}` not found", doc_uri).into(),
                         data: None,
-                    })?
-                    .index;
-                let func_body = index
-                    .function_bodies
-                    .iter()
-                    .find(|b| b.name.0 == *func_name)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("function `{}` not found", func_name).into(),
-                        data: None,
                     })?;
+                    let func_body = doc
+                        .index
+                        .function_bodies
+                        .iter()
+                        .find(|b| b.name.0 == *func_name)
+                        .ok_or_else(|| Error {
+                            code: ErrorCode::InvalidParams,
+                            message: format!("function `{}` not found", func_name).into(),
+                            data: None,
+                        })?;
 
-                let title = format!("CFG for {}", func_name);
-                let dot_graph = create_cfg_dot_visualization(func_body);
+                    let title = format!("CFG for {}", func_name);
+                    (title, create_cfg_dot_visualization(func_body))
+                };
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From 97ec96a8aa10c2b1b39f90fb7571874ae4744d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:35 +0000
Subject: [PATCH 02/17] fix: survive the late showDot reply of a cancelled
 visualize-cfg command

---
 src/main.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7845d7f..f108f8e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -686,14 +686,25 @@ impl LanguageServer for Backend {
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-                self.client
-                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
-                    .await
-                    .map_err(|e| Error {
-                        code: ErrorCode::InternalError,
-                        message: format!("Failed displaying the dot graph: `{}`", e).into(),
-                        data: None,
-                    })?;
+                // The request gets its own task, such that it can still receive the client's
+                // reply if the command itself gets cancelled.
+                let client = self.client.clone();
+                tokio::spawn(async move {
+                    client
+                        .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
+                        .await
+                })
+                .await
+                .map_err(|e| Error {
+                    code: ErrorCode::InternalError,
+                    message: format!("Failed displaying the dot graph: `{}`", e).into(),
+                    data: None,
+                })?
+                .map_err(|e| Error {
+                    code: ErrorCode::InternalError,
+                    message: format!("Failed displaying the dot graph: `{}`", e).into(),
+                    data: None,
+                })?;
                 Ok(None)
             }
             _ => Err(Error {
-- 
2.43.0


From 82230bd05a763e747df910285799e6e19dabdde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:35 +0000
Subject: [PATCH 03/17] fix: apply all content changes of a didChange
 notification, also if there are none

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f108f8e..ceed0d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,9 +170,14 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
+        // The changes are to be applied in order. As each of them replaces the
+        // complete text, only the last one is relevant.
+        let Some(change) = params.content_changes.pop() else {
+            return;
+        };
         self.on_change(TextDocumentItem {
             uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
+            text: change.text,
             version: params.text_document.version,
         })
         .await
-- 
2.43.0


From 34ff812598a0cbbc3cf4f18f0eb8ade1951229b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 04/17] fix: extract numbers from identifiers containing
 non-ASCII characters

---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 558d253..d6a65d8 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(|c: char| c.is_numeric()).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From 0d01410bac8bec126ffe17244ec88386d72d934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 05/17] fix: shorten non-ASCII symbol names in backtraces at
 character boundaries

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..dd5ba9f 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From d1e6addc574747c686fd3f5caf4f8dfd71b7e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 06/17] fix: resolve source files also with non-hierarchical or
 slash-terminated roots

---
 src/backtrace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index dd5ba9f..8f78018 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,11 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        // Workspace folders such as `untitled:x` have no path which we could extend
+        uri.path_segments_mut()
+            .ok()?
+            .pop_if_empty()
+            .extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From 508de9c8964e6a2448323e78cacc3ba04f7ea377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 07/17] fix: accept line number 0 in the debug annotation of a
 function

---
 src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ceed0d1..11bd7a4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -818,12 +818,10 @@ impl Backend {
                 let root_paths = self.root_paths.lock().unwrap();
                 let uri = resolve_relative_path(&root_paths, &d.filepath)?;
 
+                let pos = Position::new(d.line.saturating_sub(1), 0);
                 Some(Location {
                     uri,
-                    range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
-                    },
+                    range: Range::new(pos, pos),
                 })
             }));
         }
-- 
2.43.0


From 721bf98e24634723982619ddd6f0693c08e5aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 08/17] fix: do not overflow when shifting large numbers

---
 src/main.rs   | 4 +++-
 src/rename.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 11bd7a4..5ea54cc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -348,7 +348,9 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = rename_nr.checked_mul(sign).ok_or_else(|| {
+                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
+            })?;
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
diff --git a/src/rename.rs b/src/rename.rs
index d6a65d8..e847b3d 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -46,7 +46,8 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            let new_nr = (i128::from(nr) + i128::from(shift)).abs();
+            let new_name = format!("{}{}", prefix, new_nr);
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
         .flatten()
-- 
2.43.0


From c61d0898746b61627f60fb51f769e67ac48e77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 09/17] fix: reject code actions which refer to a function that
 no longer exists

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 5ea54cc..9d0bde1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -852,6 +852,15 @@ impl Backend {
                     .document_map
                     .get(&uri.to_string())
                     .ok_or_else(|| Error::invalid_params("Document not found"))?;
+                // The document might have changed since the code action was offered
+                let function_exists = match (symbol_kind, func_body_id) {
+                    (hyper_ir_lsp::hir_index::SymbolKind::Label, None) => false,
+                    (hyper_ir_lsp::hir_index::SymbolKind::LocalVar, None) => false,
+                    (_, id) => id.map_or(true, |id| id < doc.index.function_bodies.len()),
+                };
+                if !function_exists {
+                    return Err(Error::invalid_params("Function not found"));
+                }
                 let edits = get_shift_edits(
                     &doc.rope,
                     &doc.index,
-- 
2.43.0


From 1b535741932e740cc92998f27392b2e4eb4e7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 10/17] fix: reject empty names and names which are no
 identifiers in renames

---
 src/main.rs   | 12 ++++++++++--
 src/rename.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9d0bde1..18cebaa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,7 +13,9 @@ use hyper_ir_lsp::diagnostics::{
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
 use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
-use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
+use hyper_ir_lsp::rename::{
+    extract_number_from_identifier, get_rename_edits, get_shift_edits, is_valid_name,
+};
 use hyper_ir_lsp::semantic_token::{
     convert_to_lsp_tokens, semantic_tokens_from_tokens, HIRSemanticToken, LEGEND_TYPE,
 };
@@ -383,12 +385,18 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            if new_name.chars().next().map_or(false, |c| c.is_numeric())
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
             new_name = format!("{}{}", prefix, new_name);
+            if !is_valid_name(symbol.symbol_kind, &new_name) {
+                return Result::Err(Error::invalid_params("Name is not a valid identifier"));
+            }
 
             // Rename all occurrences
             let usedefs = doc
diff --git a/src/rename.rs b/src/rename.rs
index e847b3d..6224549 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -1,8 +1,10 @@
+use chumsky::Parser;
 use ropey::Rope;
 use tower_lsp::lsp_types::TextEdit;
 
 use crate::{
     hir_index::{HIRIndex, SymbolKind, UseDefList},
+    hir_tokenizer::{tokenizer, Token},
     lsp_utils::range_to_lsp,
 };
 
@@ -12,6 +14,19 @@ pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
     Some((name, nr.parse::<i64>().ok()?))
 }
 
+/// Will the given name still be recognized as a single identifier of the given kind?
+pub fn is_valid_name(symbol_kind: SymbolKind, name: &str) -> bool {
+    match (symbol_kind, tokenizer().parse(name).as_deref()) {
+        (SymbolKind::GlobalVar | SymbolKind::Function, Ok([(Token::GlobalName(n), _)])) => {
+            n == name
+        }
+        (SymbolKind::DbgAnnotation, Ok([(Token::DebugRef(n), _)])) => n == name,
+        (SymbolKind::Label, Ok([(Token::Ident(n), _)])) => n == name,
+        (SymbolKind::LocalVar, Ok([(Token::LocalName(n), _)])) => n == name,
+        _ => false,
+    }
+}
+
 pub fn get_rename_edits(rope: &Rope, usedefs: &UseDefList, new_name: &str) -> Vec<TextEdit> {
     usedefs
         .decls
-- 
2.43.0


From da1396045347d66a42fa4f83c627c4cb4937edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:09 +0000
Subject: [PATCH 11/17] fix: use consistent offsets and UTF-16 columns in
 documents with non-ASCII text

---
 src/hir_parser.rs     |  6 +++++-
 src/lsp_utils.rs      | 12 ++++++++++--
 src/semantic_token.rs | 13 ++++++++-----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..7844ce1 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -434,7 +434,11 @@ pub struct ParserResult {
 
 pub fn parse_from_str(src: &str) -> ParserResult {
     // Tokenize
-    let (tokens, tok_errs) = tokenizer().parse_recovery(src);
+    // All spans are byte offsets, not character offsets
+    let (tokens, tok_errs) = tokenizer().parse_recovery(Stream::from_iter(
+        src.len()..src.len() + 1,
+        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),
+    ));
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..c10ce92 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -3,15 +3,23 @@ use tower_lsp::lsp_types::{Position, Range};
 
 use crate::hir_tokenizer::Span;
 
+/// Converts a LSP position (with the column being counted in UTF-16 code units) to a byte offset
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
     let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let first = rope.try_char_to_utf16_cu(char).ok()?;
+    let char = rope
+        .try_utf16_cu_to_char(first + pos.character as usize)
+        .ok()?;
+    rope.try_char_to_byte(char).ok()
 }
 
+/// Converts a byte offset to a LSP position
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
     let line = rope.try_byte_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let char = rope.try_byte_to_char(pos).ok()?;
+    let character =
+        rope.try_char_to_utf16_cu(char).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..f77f05b 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -1,7 +1,8 @@
 use ropey::Rope;
-use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
+use tower_lsp::lsp_types::{Position, SemanticToken, SemanticTokenType};
 
 use crate::hir_tokenizer::{Span, Token};
+use crate::lsp_utils::offset_to_lsp_pos;
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -60,9 +61,11 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let Position {
+                line,
+                character: start,
+            } = offset_to_lsp_pos(rope, token.start)?;
+            let text = rope.get_byte_slice(token.start..token.start + token.length)?;
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +75,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: text.len_utf16_cu() as u32,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From 798759b1bf59ddd50844871e426fec3686698351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:09 +0000
Subject: [PATCH 12/17] fix: a position past the end of a line refers to the
 end of this line

---
 src/lsp_utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index c10ce92..3d2fcd8 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -6,9 +6,16 @@ use crate::hir_tokenizer::Span;
 /// Converts a LSP position (with the column being counted in UTF-16 code units) to a byte offset
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
     let char = rope.try_line_to_char(pos.line as usize).ok()?;
+    // Columns past the end of the line refer to the end of the line
+    let line = rope.get_line(pos.line as usize)?;
+    let line_len = line
+        .chars()
+        .take_while(|c| *c != '\n' && *c != '\r')
+        .map(char::len_utf16)
+        .sum::<usize>();
     let first = rope.try_char_to_utf16_cu(char).ok()?;
     let char = rope
-        .try_utf16_cu_to_char(first + pos.character as usize)
+        .try_utf16_cu_to_char(first + line_len.min(pos.character as usize))
         .ok()?;
     rope.try_char_to_byte(char).ok()
 }
-- 
2.43.0


From 827bc1973cb53129d18dca0c647e98601b832bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:51 +0000
Subject: [PATCH 13/17] fix: report syntax errors located at the end of the
 document

---
 src/hir_parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 7844ce1..86b68a6 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -415,14 +415,18 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .then_ignore(eol.clone())
         .map(|(n, def)| Statement::DbgAnnotation { name: n, def });
 
-    global_var
+    let statement = global_var
         .or(func_decl)
         .or(func_def)
         .or(func_dependencies)
         .or(dbg_annotation)
-        .padded_by(just(Token::Newline).repeated())
-        .recover_with(skip_then_retry_until([]))
+        .then_ignore(just(Token::Newline).repeated())
+        .recover_with(skip_then_retry_until([]));
+
+    // Empty lines alone must not be mistaken for the begin of a statement
+    just(Token::Newline)
         .repeated()
+        .ignore_then(statement.repeated())
         .then_ignore(end())
 }
 
@@ -436,7 +440,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
     // Tokenize
     // All spans are byte offsets, not character offsets
     let (tokens, tok_errs) = tokenizer().parse_recovery(Stream::from_iter(
-        src.len()..src.len() + 1,
+        src.len()..src.len(),
         src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),
     ));
 
@@ -444,7 +448,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
         let strlen = src.len();
         parser().parse_recovery(Stream::from_iter(
-            strlen..strlen + 1,
+            strlen..strlen,
             // TODO: can we somehow avoid this copy?
             tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
         ))
-- 
2.43.0


From 78705b72dced44e2bfddd78b862e0bb8d471d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 14/17] fix: keep the intact part of a document with a damaged
 end

---
 src/hir_parser.rs    | 7 +++++--
 src/hir_tokenizer.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 86b68a6..f2f251a 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -421,12 +421,15 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .or(func_dependencies)
         .or(dbg_annotation)
         .then_ignore(just(Token::Newline).repeated())
-        .recover_with(skip_then_retry_until([]));
+        .map(Some)
+        .recover_with(skip_then_retry_until([]))
+        // There might be no further statement. Still keep all previous statements
+        .recover_with(skip_until([], |_| None));
 
     // Empty lines alone must not be mistaken for the begin of a statement
     just(Token::Newline)
         .repeated()
-        .ignore_then(statement.repeated())
+        .ignore_then(statement.repeated().flatten())
         .then_ignore(end())
 }
 
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..31ec276 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -138,12 +138,15 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
-    .recover_with(skip_then_retry_until([]));
+    .map_with_span(|tok, span| Some((tok, span)))
+    .recover_with(skip_then_retry_until([]))
+    // There might be no further token. Still keep all previous tokens
+    .recover_with(skip_until([], |_| None));
 
     token
-        .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
         .repeated()
+        .flatten()
         .then_ignore(end())
 }
 
-- 
2.43.0


From f114efa30910b81045e63c68f6c6ef76c60ca916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 15/17] fix: a comment does not include the carriage return of
 its line end

---
 src/hir_tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 31ec276..f4287aa 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -53,7 +53,9 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
 
     // A comment parser
     let comment = just('#')
-        .chain(take_until(just('\n').or(end().to('\n')).rewind()))
+        .chain(take_until(
+            newline.clone().ignored().or(end()).to('\n').rewind(),
+        ))
         .to(Token::Comment);
 
     // A parser for hex numbers
-- 
2.43.0


From ded2e45a8f7b6aec91bbce0caf87fb8479977979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:57 +0000
Subject: [PATCH 16/17] fix: accept documents which consist of whitespace only

---
 src/hir_tokenizer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index f4287aa..36cd1ec 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -145,10 +145,12 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
     // There might be no further token. Still keep all previous tokens
     .recover_with(skip_until([], |_| None));
 
-    token
-        .padded_by(one_of(" \t").repeated())
-        .repeated()
-        .flatten()
+    // Not part of `token`, such that it is also accepted if no token follows it
+    let whitespace = one_of(" \t").repeated().ignored();
+
+    whitespace
+        .clone()
+        .ignore_then(token.then_ignore(whitespace).repeated().flatten())
         .then_ignore(end())
 }
 
-- 
2.43.0


From bcf60748811f7ee0117b8b659297905d5936b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:13 +0000
Subject: [PATCH 17/17] fix: semantic tokens do not span several lines

A string (or a comment containing a carriage return) which spans several
lines was sent as one token reaching beyond the end of its first line.
---
 src/semantic_token.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f77f05b..b6086af 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -54,12 +54,34 @@ pub fn semantic_tokens_from_tokens(tokens: &[(Token, Span)]) -> Vec<HIRSemanticT
         .collect::<Vec<_>>()
 }
 
+/// Splits a token into one token per line, as LSP tokens must not span multiple lines
+fn split_into_lines(rope: &Rope, token: &HIRSemanticToken) -> Vec<HIRSemanticToken> {
+    let Some(text) = rope.get_byte_slice(token.start..token.start + token.length) else {
+        return vec![];
+    };
+    let mut next_start = token.start;
+    text.lines()
+        .map(|line| {
+            let start = next_start;
+            next_start += line.len_bytes();
+            let line_break = line.chars().filter(|c| matches!(c, '\n' | '\r')).count();
+            HIRSemanticToken {
+                start,
+                length: line.len_bytes() - line_break,
+                token_type: token.token_type,
+            }
+        })
+        .filter(|line_token| line_token.length != 0)
+        .collect()
+}
+
 // Converts our internal semantic tokens to the LSP representation of tokens
 pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<SemanticToken> {
     let mut pre_line = 0;
     let mut pre_start = 0;
     let lsp_tokens = semtoks
         .iter()
+        .flat_map(|token| split_into_lines(rope, token))
         .filter_map(|token| {
             let Position {
                 line,
-- 
2.43.0

