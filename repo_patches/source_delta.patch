From 64987d386e5d555a89c9bf3cfe65eda8c1399092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 01/35] fix: keep syntax error ranges ordered (end never before
 start)

---
 crates/parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/error.rs b/crates/parser/src/error.rs
index 646c727..a00b116 100644
--- a/crates/parser/src/error.rs
+++ b/crates/parser/src/error.rs
@@ -29,7 +29,7 @@ impl FromRecoverableError<Input<'_>, SyntaxError> for SyntaxError {
         input: &Input,
         mut e: SyntaxError,
     ) -> Self {
-        e.end = input.location();
+        e.end = input.location().max(e.start);
         e
     }
 }
-- 
2.43.0


From 2d6a4f548ea533c640e21eb9edb221ae277fe540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 02/35] fix: do not panic on unclosed nested block comments

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..50c8398 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From 57460e0febe30483048b984b62e3d1c9061f2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 03/35] fix: keep the text after a malformed string literal in
 the tree

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 50c8398..d259c9d 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -293,7 +293,7 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
         _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
     }
-- 
2.43.0


From 47e87026e9947cec68b365b14a2a2fc7f6d313e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 04/35] fix: rename only the identifiers that denote the
 renamed symbol

---
 crates/service/src/features/rename.rs | 31 +++++++++++----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..871a1e9 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -71,6 +71,14 @@ impl LanguageService {
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let is_label = matches!(
+            symbol.kind,
+            SymbolItemKind::BlockDef | SymbolItemKind::BlockRef
+        );
+        let block_def = match symbol.kind {
+            SymbolItemKind::BlockDef => Some(symbol),
+            _ => symbol_table.find_block_def(&symbol_key),
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -88,27 +96,14 @@ impl LanguageService {
                 | SymbolItemKind::MemoryRef
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                    !is_label
+                        && symbol.region == sym.region
+                        && sym.idx.name.is_some_and(|name| name == old_name)
                 }
+                SymbolItemKind::BlockDef => block_def == Some(*sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
-                        })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
+                        || block_def.is_some() && symbol_table.find_block_def(&sym.key) == block_def
                 }
                 SymbolItemKind::Module => false,
             })
-- 
2.43.0


From 8af7703951444ba774a25f926479b48740b0aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:20 +0000
Subject: [PATCH 05/35] fix: rename the labels repeated after else and end

---
 crates/service/src/features/rename.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 871a1e9..c296764 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -9,10 +9,9 @@ use crate::{
 use lsp_types::{
     PrepareRenameResponse, RenameParams, TextDocumentPositionParams, TextEdit, WorkspaceEdit,
 };
-use rowan::ast::support;
 use std::collections::HashMap;
 use wat_parser::is_id_char;
-use wat_syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken};
 
 const ERR_INVALID_IDENTIFIER: &str = "not a valid identifier";
 const ERR_CANT_BE_RENAMED: &str = "This can't be renamed.";
@@ -107,7 +106,8 @@ impl LanguageService {
                 }
                 SymbolItemKind::Module => false,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| ident_tokens(sym.key.ptr.to_node(&root)))
+            .filter(|token| token.text() == ident_token.text())
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
@@ -122,3 +122,18 @@ impl LanguageService {
         })
     }
 }
+
+/// Label of a block may be repeated after the `else` and `end` keywords.
+fn ident_tokens(node: SyntaxNode) -> impl Iterator<Item = SyntaxToken> {
+    let else_branch = node
+        .children()
+        .find(|child| child.kind() == SyntaxKind::BLOCK_IF_ELSE);
+    node.children_with_tokens()
+        .chain(
+            else_branch
+                .into_iter()
+                .flat_map(|else_branch| else_branch.children_with_tokens()),
+        )
+        .filter_map(SyntaxElement::into_token)
+        .filter(|token| token.kind() == SyntaxKind::IDENT)
+}
-- 
2.43.0


From 1eb88110e01dfe703174cf66bb97df1422e458be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 06/35] fix: resolve labels of all enclosing blocks through
 folded instructions and if branches

---
 crates/service/src/binder.rs | 40 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..bf05815 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -267,9 +267,9 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let Some(region) = node
+                        let enclosing_blocks = node
                             .ancestors()
-                            .find(|node| {
+                            .filter(|node| {
                                 matches!(
                                     node.kind(),
                                     SyntaxKind::BLOCK_BLOCK
@@ -277,7 +277,9 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                         | SyntaxKind::BLOCK_IF
                                 )
                             })
-                            .map(SymbolItemKey::from)
+                            .collect::<Vec<_>>();
+                        let Some(region) =
+                            enclosing_blocks.first().cloned().map(SymbolItemKey::from)
                         else {
                             continue;
                         };
@@ -291,25 +293,21 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 )
                             })
                             .for_each(|symbol| {
-                                symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
+                                blocks.extend((0..).zip(&enclosing_blocks).map(
+                                    |(level, block)| {
+                                        (
+                                            symbol.key.clone(),
+                                            block.clone().into(),
+                                            Idx {
+                                                num: Some(level),
+                                                name: token(block, SyntaxKind::IDENT).map(
+                                                    |token| db.ident(token.text().to_string()),
+                                                ),
+                                            },
+                                        )
                                     },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
-                                }
+                                ));
+                                symbols.push(symbol);
                             });
                     }
                     Some(
-- 
2.43.0


From 7dc19acfe7b7573bd75d856321ebc015a430032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:48 +0000
Subject: [PATCH 07/35] fix: only report branches that target the block as its
 references

---
 crates/service/src/features/references.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..b3e42a0 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -372,7 +372,10 @@ fn get_block_refs(
         symbol_table
             .blocks
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
+            .filter(|(ref_key, def_key, _)| {
+                def_key == &def_symbol.key
+                    && symbol_table.find_block_def(ref_key) == Some(def_symbol)
+            })
             .filter_map(|(ref_key, _, _)| {
                 symbol_table
                     .symbols
-- 
2.43.0


From 9b48d6af1d021d1abac9564f2d0957fbe254a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:10 +0000
Subject: [PATCH 08/35] fix: report duplicated names of tables

---
 crates/service/src/checker/dup_names.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..2ad1a1c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,6 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
-- 
2.43.0


From bf3b0150f014e1721dbe65f4adf30b0034e63a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 09/35] fix: labels do not clash with locals or with labels of
 sibling blocks

---
 crates/service/src/checker/dup_names.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index 2ad1a1c..f591c5a 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -33,7 +33,6 @@ pub fn check(
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
                         | SymbolItemKind::TableDef
-                        | SymbolItemKind::BlockDef
                 )
             })
             .fold(FxHashMap::default(), |mut map, symbol| {
-- 
2.43.0


From e1e6dec3c76efd072b622151b1cc41ec64515707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:46 +0000
Subject: [PATCH 10/35] fix: LSP positions are in UTF-16 code units and may be
 beyond the line

---
 crates/service/src/files.rs   | 26 ++++++++-----------
 crates/service/src/helpers.rs | 47 ++++++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..4463153 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,6 +1,6 @@
-use crate::InternUri;
+use crate::{helpers, InternUri};
 use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
+use lsp_types::{Diagnostic, DiagnosticSeverity, Range, Uri};
 use rowan::GreenNode;
 use std::rc::Rc;
 use wat_parser::Parser;
@@ -37,19 +37,15 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
     let syntax_errors = parser
         .errors()
         .iter()
-        .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
-            Diagnostic {
-                range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
-                ),
-                severity: Some(DiagnosticSeverity::ERROR),
-                source: Some("wat".into()),
-                message: format!("syntax error: {}", error.message),
-                ..Default::default()
-            }
+        .map(|error| Diagnostic {
+            range: Range::new(
+                helpers::rowan_pos_to_lsp_pos(&line_index, TextSize::new(error.start as u32)),
+                helpers::rowan_pos_to_lsp_pos(&line_index, TextSize::new(error.end as u32)),
+            ),
+            severity: Some(DiagnosticSeverity::ERROR),
+            source: Some("wat".into()),
+            message: format!("syntax error: {}", error.message),
+            ..Default::default()
         })
         .collect();
     (green, syntax_errors)
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..0d68577 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,14 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    // columns in LSP are counted in UTF-16 code units
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |wide| wide.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -15,23 +19,36 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
 }
 
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
+    let line_start = line_index.offset(LineCol {
         line: pos.line,
-        col: pos.character,
-    })
+        col: 0,
+    })?;
+    let line_end = line_index
+        .offset(LineCol {
+            line: pos.line + 1,
+            col: 0,
+        })
+        .map_or(line_index.len(), |next_line| next_line - TextSize::new(1));
+    let LineCol { col, .. } = line_index.to_utf8(
+        WideEncoding::Utf16,
+        WideLineCol {
+            line: pos.line,
+            col: pos.character,
+        },
+    )?;
+    // the position is at the end of line if the column is beyond that line
+    Some(
+        line_start
+            .checked_add(TextSize::new(col))
+            .map_or(line_end, |offset| offset.min(line_end)),
+    )
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From 9a58f3b5448dbd2007054d17a56a18845acfe1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:08 +0000
Subject: [PATCH 11/35] fix: keep semantic token deltas right after skipped
 multi-line tokens and non-ASCII text

---
 .../service/src/features/semantic_tokens.rs   | 37 ++++++-------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..eda6102 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -50,10 +49,10 @@ impl LanguageService {
             .take_while(|token| token.text_range().start() < end)
             .peekable();
         if let Some(token) = tokens.peek() {
-            LineCol {
+            Position {
                 line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
+                character: prev_start,
+            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
         }
         let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
@@ -72,34 +71,20 @@ impl LanguageService {
         let line_index = self.line_index(uri);
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let Some(token_type) = self.token_type(uri, &token) else {
                     if lines > 0 {
                         *delta_line += lines;
                         *prev_start = 0;
                     }
                     return None;
-                }
-                let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
                 };
-                let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                let col = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start())
+                    .character;
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
-                    length: range.len().into(),
+                    delta_line: mem::replace(delta_line, lines),
+                    delta_start: col - mem::replace(prev_start, if lines > 0 { 0 } else { col }),
+                    length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
                 })
-- 
2.43.0


From 6bb45b72d15dc8349ff24decb53e278b29478a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 12/35] fix: use the latest content of a document change
 notification

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..5c85913 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -400,7 +400,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From aa1330702fe552a4e8a319ee7a7817c4a85eeaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 13/35] fix: answer requests with unsupported methods or
 malformed params

---
 crates/server/src/server.rs | 131 +++++++++++++++++++++++++++++-------
 1 file changed, 108 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 5c85913..d44988b 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,6 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response,
+    ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +49,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +62,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +79,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +96,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +113,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +130,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +147,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +164,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +181,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +198,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +215,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +232,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +249,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +264,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +281,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +298,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +315,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +341,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +358,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +375,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +392,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +408,18 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(req)) => {
+                            conn.sender.send(Message::Response(Response::new_err(
+                                id,
+                                ErrorCode::MethodNotFound as i32,
+                                format!("unsupported method `{}`", req.method),
+                            )))?;
+                            continue;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_invalid_params(&conn, id, error)?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +507,19 @@ impl Server {
     }
 }
 
+fn reply_invalid_params(
+    conn: &Connection,
+    id: RequestId,
+    error: serde_json::Error,
+) -> anyhow::Result<()> {
+    conn.sender.send(Message::Response(Response::new_err(
+        id,
+        ErrorCode::InvalidParams as i32,
+        error.to_string(),
+    )))?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 9d6bace56e6a22deaf913a905fd687f465a33c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:27 +0000
Subject: [PATCH 14/35] fix: tell the label of a block from the label repeated
 after its end

---
 crates/syntax/src/ast/instr.rs | 60 ++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/crates/syntax/src/ast/instr.rs b/crates/syntax/src/ast/instr.rs
index 51d62d0..6e649aa 100644
--- a/crates/syntax/src/ast/instr.rs
+++ b/crates/syntax/src/ast/instr.rs
@@ -1,10 +1,7 @@
 use super::{module::TypeUse, ty::Result, SyntaxKind, SyntaxNode, SyntaxToken, WatLanguage};
-use rowan::{
-    ast::{
-        support::{child, children, token},
-        AstChildren, AstNode,
-    },
-    NodeOrToken,
+use rowan::ast::{
+    support::{child, children, token},
+    AstChildren, AstNode,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -22,7 +19,11 @@ impl BlockBlock {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        self.syntax
+            .children_with_tokens()
+            .filter_map(|it| it.into_token())
+            .take_while(|it| !is_block_end(it))
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -47,11 +48,9 @@ impl BlockBlock {
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
         self.syntax
             .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+            .filter_map(|it| it.into_token())
+            .skip_while(|it| !is_block_end(it))
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
 }
 impl AstNode for BlockBlock {
@@ -95,7 +94,11 @@ impl BlockIf {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        self.syntax
+            .children_with_tokens()
+            .filter_map(|it| it.into_token())
+            .take_while(|it| !is_block_end(it))
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -128,11 +131,9 @@ impl BlockIf {
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
         self.syntax
             .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+            .filter_map(|it| it.into_token())
+            .skip_while(|it| !is_block_end(it))
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
 }
 impl AstNode for BlockIf {
@@ -320,7 +321,11 @@ impl BlockLoop {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        self.syntax
+            .children_with_tokens()
+            .filter_map(|it| it.into_token())
+            .take_while(|it| !is_block_end(it))
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -345,11 +350,9 @@ impl BlockLoop {
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
         self.syntax
             .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+            .filter_map(|it| it.into_token())
+            .skip_while(|it| !is_block_end(it))
+            .find(|it| it.kind() == SyntaxKind::IDENT)
     }
 }
 impl AstNode for BlockLoop {
@@ -571,3 +574,12 @@ impl AstNode for PlainInstr {
         &self.syntax
     }
 }
+
+/// Whether the token is the `end` keyword or the right paren which terminates a block instruction.
+fn is_block_end(token: &SyntaxToken) -> bool {
+    match token.kind() {
+        SyntaxKind::R_PAREN => true,
+        SyntaxKind::KEYWORD => token.text() == "end",
+        _ => false,
+    }
+}
-- 
2.43.0


From 22530040e5a074091f9d3f732d60b4db96fc945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:35 +0000
Subject: [PATCH 15/35] fix: keep the sharedness of limits when formatting

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..33e02da 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..e411e27 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From 78779ded167fc9451a5bd267ec8cc28c81527e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 16/35] fix: keep comments between params and results of type
 uses without type index

---
 crates/formatter/src/printer/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..946692b 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1220,7 +1220,7 @@ impl DocGen for TypeUse {
         if let Some(param) = params.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::soft_line().nest(ctx.indent_width));
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(param.doc(ctx));
@@ -1239,7 +1239,7 @@ impl DocGen for TypeUse {
         if let Some(result) = results.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(result.doc(ctx));
-- 
2.43.0


From 2ab0271e7fe1c035a943b223e7f3a32be6a74cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 17/35] fix: keep comments at the start of the then branch of
 an unfolded if

---
 crates/formatter/src/printer/instr.rs |  3 ++-
 crates/formatter/src/printer/mod.rs   | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..d5c6337 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -207,7 +207,8 @@ impl DocGen for BlockIfElse {
 impl DocGen for BlockIfThen {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        // the `then` branch of an unfolded `if` starts with its trivias if there are any
+        let mut trivias = format_leading_trivias(self.syntax().children_with_tokens(), ctx);
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..931c291 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,13 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_leading_trivias(token.siblings_with_tokens(Direction::Next).skip(1), ctx)
+}
+fn format_leading_trivias(
+    elements: impl Iterator<Item = SyntaxElement>,
+    ctx: &Ctx,
+) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
-- 
2.43.0


From 71391eea47c9c7350341ff6e4d6e2bfb9e8a332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:46 +0000
Subject: [PATCH 18/35] fix: do not add blank lines after comments before
 offsets and element expressions

---
 crates/formatter/src/printer/module.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 946692b..c1c3374 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -54,7 +54,7 @@ impl DocGen for Elem {
         });
         self.elem_exprs().for_each(|elem_expr| {
             let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -76,7 +76,9 @@ impl DocGen for ElemExpr {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
         let mut trivias = vec![];
+        let mut has_paren = false;
         if let Some(l_paren) = self.l_paren_token() {
+            has_paren = true;
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
         }
@@ -88,7 +90,9 @@ impl DocGen for ElemExpr {
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
                 if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
+                    if has_paren || !docs.is_empty() {
+                        docs.push(Doc::hard_line());
+                    }
                 } else {
                     docs.append(&mut trivias);
                 }
@@ -131,7 +135,7 @@ impl DocGen for ElemList {
         }
         self.elem_exprs().for_each(|elem_expr| {
             let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -574,7 +578,7 @@ impl DocGen for ModuleFieldData {
         }
         if let Some(offset) = self.offset() {
             let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -643,7 +647,7 @@ impl DocGen for ModuleFieldElem {
         }
         if let Some(offset) = self.offset() {
             let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -1130,7 +1134,9 @@ impl DocGen for Offset {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
         let mut trivias = vec![];
+        let mut has_paren = false;
         if let Some(l_paren) = self.l_paren_token() {
+            has_paren = true;
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
         }
@@ -1142,7 +1148,9 @@ impl DocGen for Offset {
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
                 if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
+                    if has_paren || !docs.is_empty() {
+                        docs.push(Doc::hard_line());
+                    }
                 } else {
                     docs.append(&mut trivias);
                 }
-- 
2.43.0


From 2d7edd6ba8ca12ab97b0108678b40be51db81415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:44 +0000
Subject: [PATCH 19/35] fix: keep form feeds in the tree

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index d259c9d..f91454d 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -295,7 +295,7 @@ pub(super) fn error_token<'s>(
         '(' | ')' => fail,
         '"' => alt((string_impl, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        _ => take_till(1.., ['(', ')', ' ', '\t', '\r', '\n']),
     }
     .map(|text| tok(ERROR, text))
 }
-- 
2.43.0


From 53a39f08ca299f1f895a3a819c63b316016740d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:23 +0000
Subject: [PATCH 20/35] fix: check operands of calls to functions whose params
 are not declared inline

---
 crates/service/src/checker/typeck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..93b0551 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -15,6 +15,7 @@ use rowan::{
     },
     TextRange,
 };
+use std::iter;
 use wat_syntax::{
     ast::{Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
@@ -304,7 +305,7 @@ fn resolve_expected_types(
             sig.params
                 .iter()
                 .map(|ty| OperandType::Val(ty.0.clone()))
-                .zip(related)
+                .zip(related.chain(iter::repeat(None)))
                 .collect()
         })
     } else {
-- 
2.43.0


From e93c314104510303e5b46425664c66bf8482eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:55 +0000
Subject: [PATCH 21/35] fix: do not join the operand after a complete memory
 argument

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..383ea48 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,25 +31,26 @@ pub fn act(
                         }
                         _ => None,
                     });
-                    if let Some(range) = children
+                    if let Some((eq, range)) = children
                         .next()
-                        .filter(|element| {
-                            if let SyntaxElement::Token(token) = element {
-                                token.kind() == SyntaxKind::ERROR
-                                    && token.text().strip_prefix('=').is_some_and(|rest| {
-                                        rest.chars().all(|c| c.is_ascii_digit())
-                                    })
-                            } else {
-                                false
-                            }
+                        .and_then(SyntaxElement::into_token)
+                        .filter(|token| {
+                            token.kind() == SyntaxKind::ERROR
+                                && token
+                                    .text()
+                                    .strip_prefix('=')
+                                    .is_some_and(|rest| rest.chars().all(|c| c.is_ascii_digit()))
                         })
-                        .and(range)
+                        .zip(range)
                     {
                         text_edits.push(TextEdit {
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
+                        // the number may be already there, then the next one isn't part of it
+                        if let Some(range) =
+                            check_after_eq(&mut children).filter(|_| eq.text() == "=")
+                        {
                             text_edits.push(TextEdit {
                                 range: helpers::rowan_range_to_lsp_range(line_index, range),
                                 new_text: String::new(),
-- 
2.43.0


From 0ff75b4c345f410edcab0fd4496c136c0a8b1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:17 +0000
Subject: [PATCH 22/35] fix: the condition of folded if is out of the scope of
 its label

---
 crates/service/src/binder.rs              | 23 ++++++++++++-----------
 crates/service/src/features/completion.rs | 13 +++++++------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index bf05815..4a6b6cc 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -267,17 +267,8 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let enclosing_blocks = node
-                            .ancestors()
-                            .filter(|node| {
-                                matches!(
-                                    node.kind(),
-                                    SyntaxKind::BLOCK_BLOCK
-                                        | SyntaxKind::BLOCK_LOOP
-                                        | SyntaxKind::BLOCK_IF
-                                )
-                            })
-                            .collect::<Vec<_>>();
+                        let enclosing_blocks =
+                            node.ancestors().filter_map(label_scope).collect::<Vec<_>>();
                         let Some(region) =
                             enclosing_blocks.first().cloned().map(SymbolItemKey::from)
                         else {
@@ -580,6 +571,16 @@ impl SymbolTable {
     }
 }
 
+/// Get the block whose label can be used in the given node.
+/// Note that the condition of folded `if` is out of the scope of its label.
+pub fn label_scope(node: SyntaxNode) -> Option<SyntaxNode> {
+    match node.kind() {
+        SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => Some(node),
+        SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE => node.parent(),
+        _ => None,
+    }
+}
+
 #[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct SymbolItemKey {
     pub ptr: SyntaxNodePtr<WatLanguage>,
diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 3d58b9d..e0f2e51 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -1,5 +1,5 @@
 use crate::{
-    binder::{SymbolItemKind, SymbolTable, SymbolTablesCtx},
+    binder::{label_scope, SymbolItemKey, SymbolItemKind, SymbolTable, SymbolTablesCtx},
     data_set,
     files::FilesCtx,
     helpers,
@@ -585,17 +585,18 @@ fn get_cmp_list(
                 }
                 CmpCtx::Block => {
                     let has_dollar = token.text().starts_with('$');
+                    let enclosing_blocks = token
+                        .parent_ancestors()
+                        .filter_map(label_scope)
+                        .map(SymbolItemKey::from)
+                        .collect::<SmallVec<[_; 4]>>();
                     items.extend(
                         symbol_table
                             .symbols
                             .iter()
                             .filter(|symbol| {
                                 symbol.kind == SymbolItemKind::BlockDef
-                                    && symbol
-                                        .key
-                                        .ptr
-                                        .text_range()
-                                        .contains_range(token.text_range())
+                                    && enclosing_blocks.contains(&symbol.key)
                             })
                             .rev()
                             .enumerate()
-- 
2.43.0


From bfeef640f585a63f1d86679aa0a60bbeb977f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:05 +0000
Subject: [PATCH 23/35] fix: labels after else can be renamed, too

---
 crates/service/src/features/rename.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index c296764..57457e1 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -65,7 +65,11 @@ impl LanguageService {
         let symbol_table = self.symbol_table(uri);
 
         let old_name = self.ident(ident_token.text().to_string());
-        let symbol_key = ident_token.parent()?.into();
+        let mut parent = ident_token.parent()?;
+        if parent.kind() == SyntaxKind::BLOCK_IF_ELSE {
+            parent = parent.parent()?;
+        }
+        let symbol_key = parent.into();
         let symbol = symbol_table
             .symbols
             .iter()
-- 
2.43.0


From 1654224f36b2599369238f49a19c5f5790f69b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 24/35] fix: immediates of memory and table instructions and
 select can be omitted

---
 crates/service/src/checker/typeck.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 93b0551..284b4e2 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -44,7 +44,20 @@ pub fn check_folded(
     let skipped_count = if is_call {
         1
     } else {
-        meta.map(|meta| meta.operands_count).unwrap_or_default()
+        let count = meta.map(|meta| meta.operands_count).unwrap_or_default();
+        let immediates_count = instr
+            .operands()
+            .take_while(|operand| operand.instr().is_none())
+            .count();
+        match instr_name.text() {
+            // "offset" and "align" are independent, and both can be omitted
+            name if name.contains(".load") || name.contains(".store") => {
+                immediates_count.min(count + 1)
+            }
+            // type of "select" and table indices can be omitted
+            name if name == "select" || name.starts_with("table.") => immediates_count.min(count),
+            _ => count,
+        }
     };
     let received_types =
         instr
-- 
2.43.0


From baa853de25cc75c24301d2b9e4848de11d92ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 25/35] fix: i8x16.shuffle has 16 lane indices

---
 crates/service/src/data_set/instr_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 5af71df..3046858 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -2118,7 +2118,7 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
         "i8x16.shuffle",
         InstrMeta {
             bin_op: "0xFD 0x0D",
-            operands_count: 1,
+            operands_count: 16,
             params: vec![
                 OperandType::Val(ValType::V128),
                 OperandType::Val(ValType::V128),
-- 
2.43.0


From 321c268f89c0532f4cd588851908477f321f008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 26/35] fix: omitted table indices and memory arguments aren't
 invalid operands

---
 .../service/src/checker/literal_operands.rs   | 38 +++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..8c6153f 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -11,7 +11,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
     let Some(instr_name) = token(node, SyntaxKind::INSTR_NAME) else {
         return;
     };
-    let mut operands = children::<Operand>(node);
+    let mut operands = children::<Operand>(node).peekable();
 
     macro_rules! check_operand {
         ($kind:pat, $msg:literal) => {
@@ -32,6 +32,17 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         };
     }
 
+    // table index and memory argument can be omitted, so the first operand may be an instruction
+    if (instr_name.text().starts_with("table.")
+        || instr_name.text().contains(".load")
+        || instr_name.text().contains(".store"))
+        && operands
+            .peek()
+            .is_some_and(|operand| operand.instr().is_some())
+    {
+        return;
+    }
+
     match instr_name.text() {
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
         | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
@@ -55,10 +66,15 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
-            check_operand!(
-                SyntaxKind::IDENT | SyntaxKind::INT,
-                "expected identifier or unsigned integer"
-            );
+            if operands
+                .peek()
+                .is_some_and(|operand| operand.instr().is_none())
+            {
+                check_operand!(
+                    SyntaxKind::IDENT | SyntaxKind::INT,
+                    "expected identifier or unsigned integer"
+                );
+            }
         }
         "i32.load" | "i64.load" | "f32.load" | "f64.load" | "i32.load8_s" | "i32.load8_u"
         | "i32.load16_s" | "i32.load16_u" | "i64.load8_s" | "i64.load8_u" | "i64.load16_s"
@@ -67,7 +83,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "i64.store16" | "i64.store32" | "v128.load" | "v128.load8x8_s" | "v128.load8x8_u"
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
-        | "v128.store" => {
+        | "v128.store" | "v128.load32_zero" | "v128.load64_zero" => {
             check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
         }
         "i8x16.shuffle"
@@ -92,7 +108,15 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            let immediates = children::<Operand>(node)
+                .take_while(|operand| operand.instr().is_none())
+                .count();
+            if immediates > 1 {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            }
+            if immediates > 2 {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            }
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
-- 
2.43.0


From 2e495ff519d644183fd390e3d88782bee1001692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:55 +0000
Subject: [PATCH 27/35] fix: do not panic when formatting with indent width of
 zero

---
 crates/formatter/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/formatter/src/lib.rs b/crates/formatter/src/lib.rs
index ff9fd3f..66c4cbb 100644
--- a/crates/formatter/src/lib.rs
+++ b/crates/formatter/src/lib.rs
@@ -49,6 +49,7 @@ fn build_options(options: &FormatOptions) -> PrintOptions {
         },
         line_break: options.layout.line_break.clone().into(),
         width: options.layout.print_width,
-        tab_size: options.layout.indent_width,
+        // tiny_pretty doesn't accept zero
+        tab_size: options.layout.indent_width.max(1),
     }
 }
-- 
2.43.0


From ca5b09bf2ecc378c62ba3666da997fbe12d9508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:56 +0000
Subject: [PATCH 28/35] fix: complete memories and tables in memory uses and
 table uses

---
 crates/service/src/features/completion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index e0f2e51..38546a4 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -175,8 +175,8 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
                 }
                 SyntaxKind::TYPE_USE => ctx.push(CmpCtx::FuncType),
                 SyntaxKind::EXPORT_DESC_GLOBAL => ctx.push(CmpCtx::Global),
-                SyntaxKind::EXPORT_DESC_MEMORY => ctx.push(CmpCtx::Memory),
-                SyntaxKind::EXPORT_DESC_TABLE => ctx.push(CmpCtx::Table),
+                SyntaxKind::EXPORT_DESC_MEMORY | SyntaxKind::MEM_USE => ctx.push(CmpCtx::Memory),
+                SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => ctx.push(CmpCtx::Table),
                 _ => {}
             }
         }
-- 
2.43.0


From a97dc535786b1e15b91aedce44564396260d5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:44 +0000
Subject: [PATCH 29/35] fix: clamp columns beyond lines with non-ASCII
 characters

---
 crates/service/src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 0d68577..54f0121 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -33,7 +33,7 @@ pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<Tex
         WideEncoding::Utf16,
         WideLineCol {
             line: pos.line,
-            col: pos.character,
+            col: pos.character.min((line_end - line_start).into()),
         },
     )?;
     // the position is at the end of line if the column is beyond that line
-- 
2.43.0


From 6ebe65c436d7c13b84287fb132f7ceab0657eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 30/35] fix: parse block types with several results

---
 crates/parser/src/parser/instr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..bd3d5d0 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,7 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, fail, not, opt, peek, preceded, repeat, repeat_till, terminated},
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -33,7 +33,9 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        // two or more results are a type use
+        terminated(result, not((trivias, '(', trivias, "result")))
+            .map(|child| node(BLOCK_TYPE, [child])),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
-- 
2.43.0


From 7edb3f23b64ae3598633d2e822d809c2f8294117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:10 +0000
Subject: [PATCH 31/35] fix: accept apostrophes in identifiers

---
 crates/parser/src/parser/token.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index f91454d..c8f3de7 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -166,10 +166,7 @@ fn ident_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 pub fn is_id_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || c.is_ascii_punctuation()
-            && !matches!(
-                c,
-                '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}'
-            )
+            && !matches!(c, '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}')
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-- 
2.43.0


From 13972a5516854e3b155f739aec50c6c5e20a8e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 32/35] fix: accept underscores in signed hexadecimal floats
 and in nan payloads

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c8f3de7..47806f0 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -263,7 +263,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            let is_hex = text.contains("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 17185a87995ffb7e41a1a33212b374b5141d254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:39 +0000
Subject: [PATCH 33/35] fix: resolve indices in hexadecimal or with underscores

---
 crates/service/src/binder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 4a6b6cc..1a6a0bc 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
@@ -571,6 +571,15 @@ impl SymbolTable {
     }
 }
 
+/// Indices may be written in hexadecimal and with underscores.
+fn parse_index(text: &str) -> Option<u32> {
+    let digits = text.replace('_', "");
+    match digits.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16).ok(),
+        None => digits.parse().ok(),
+    }
+}
+
 /// Get the block whose label can be used in the given node.
 /// Note that the condition of folded `if` is out of the scope of its label.
 pub fn label_scope(node: SyntaxNode) -> Option<SyntaxNode> {
-- 
2.43.0


From a57350484fe9759bed9e7ab162f40f3973297be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 34/35] fix: keep every inline import of a function when
 formatting

---
 crates/formatter/src/printer/module.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index c1c3374..6000729 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1,5 +1,5 @@
 use super::*;
-use rowan::ast::AstNode;
+use rowan::ast::{support::children, AstNode};
 use tiny_pretty::Doc;
 
 impl DocGen for Data {
@@ -733,7 +733,7 @@ impl DocGen for ModuleFieldFunc {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
+        children::<Import>(self.syntax()).for_each(|import| {
             if trivias.is_empty() {
                 docs.push(Doc::space());
             } else {
@@ -741,7 +741,7 @@ impl DocGen for ModuleFieldFunc {
             }
             docs.push(import.doc(ctx));
             trivias = format_trivias_after_node(import, ctx);
-        }
+        });
         self.exports().for_each(|export| {
             if trivias.is_empty() {
                 docs.push(Doc::space());
-- 
2.43.0


From 4a0d506e4f081270e6d7d4adaa87afc3fe750f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:59 +0000
Subject: [PATCH 35/35] fix: the only index of table.init is that of the
 element segment

---
 crates/service/src/binder.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 1a6a0bc..d6b8916 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -324,11 +324,17 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
-                        let mut children = node.children();
-                        if let Some(symbol) = children.next().and_then(|node| {
-                            create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
-                        }) {
-                            symbols.push(symbol);
+                        // If there is only one index, it's the index of the element segment.
+                        let mut indexes = instr
+                            .operands()
+                            .take_while(|operand| operand.instr().is_none());
+                        if let (Some(table), Some(_)) = (indexes.next(), indexes.next()) {
+                            symbols.extend(create_ref_symbol(
+                                db,
+                                table.syntax().clone(),
+                                region,
+                                SymbolItemKind::TableRef,
+                            ));
                         }
                     }
                     _ => {}
-- 
2.43.0

