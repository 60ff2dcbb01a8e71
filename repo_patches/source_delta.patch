From b0b5f25cb66922e57461449591bc509ecc857de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 01/20] fix: report malformed character escapes as syntax
 errors instead of crashing

A malformed \x, \u or \U escape, or a backslash before a newline, was still
emitted as an escape token, which cannot be decoded (internal compiler error);
slicing for the digits could also split a multi-byte character.
---
 src/parser/tokenizer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..86dbcd8 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -135,18 +135,17 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
             match chars.next() {
                 Some('\n') => {
                     on_error(errors::SyntaxError::TokenInvalidEscape);
-                    (1, TokenKind::Escape)
+                    (1, TokenKind::RawText)
                 },
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
-                        end
+                    if matches!(src.get(2..end), Some(s) if s.chars().all(|c| c.is_ascii_hexdigit())) {
+                        (end, TokenKind::Escape)
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-                        2
-                    };
-                    (len, TokenKind::Escape)
+                        (2, TokenKind::RawText)
+                    }
                 } else {
                     (1 + c.len_utf8(), TokenKind::Escape)
                 },
-- 
2.43.0


From 077b40cdfd250fffc2d7a1d3192c28a03cd39b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 02/20] fix: map byte indices to line and column in non-ASCII
 sources

The table was built with one entry per character but indexed by byte, so
diagnostics after a non-ASCII character had wrong positions or panicked.
---
 src/utils/sourcefile.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..0e3f441 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -121,6 +121,8 @@ impl SourceFile {
             let mut line = 1;
             let mut col = 1;
             for c in self.src.chars() {
+                // indices are in bytes, so a multi-byte character has several
+                coords.extend(std::iter::repeat((line, col)).take(c.len_utf8() - 1));
                 if c == '\n' {
                     line += 1; col = 1;
                 } else {
-- 
2.43.0


From a2128535a186a9f86cff9b5aa168c6211bc06ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 03/20] fix: use byte offsets when stripping non-ASCII
 indentation

A character count was used as a byte index, which panicked or cut the wrong
amount when the indentation contained e.g. a non-breaking space.
---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From 5ac3c5ddd6bb09a0c235e24837aefef3885f89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 04/20] fix: derive colliding unique IDs from the identifier,
 not the raw base

When an ID was already taken, the numbered alternative was built from the
original string: not an identifier, not lowercase, and sliced at a byte offset
which panicked on non-ASCII text.
---
 src/utils/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..6b3a83e 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,7 +169,8 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        let base = id;
+        let mut id_base = base.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From 65fb790676f49c9f03b1095326e8b1ddbd018c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 05/20] fix: report integer overflow as an error instead of
 panicking or wrapping

@int::add, @int::negate and @list::enumerate overflowed (a panic in debug
builds, a wrong value in release builds), as did code block line numbers.
---
 src/compiler/highlight.rs   |  2 +-
 src/compiler/native.rs      | 15 +++++++++++----
 src/errors/runtime_error.rs |  2 ++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..e1e8dbd 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -185,7 +185,7 @@ pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
     for (i, line) in lines.into_iter().enumerate() {
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &(i as i128 + start as i128).to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..bcc09c0 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            ARGS.into_iter()
+                .try_fold(0, Int::checked_add)
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +229,12 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| {
+                    let i = FROM.checked_add(i as Int)
+                        .ok_or(errors::RuntimeError::IntOverflow)?;
+                    Ok([Value::Int(i), v].into())
+                })
+                .collect::<errors::PapyriResult<Vec<Value>>>()?
         }
         
         @bind_content
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..70d7a54 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -32,6 +32,7 @@ pub enum RuntimeError {
     Raised(std::rc::Rc<str>),
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
+    IntOverflow,
     ParseIntError(std::num::ParseIntError),
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
@@ -67,6 +68,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::Raised(msg) => f.write_str(msg),
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
+            RuntimeError::IntOverflow => f.write_str("integer overflow"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
-- 
2.43.0


From 05880a8c9b9a23902f9a5d3e838fcd11c5d45943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 06/20] fix: the least upper bound of any and another type is
 any

`@typeof [1, foo, 2]` was "int list", because `any` was dropped when joined
with a narrower type.
---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From 93d889eeb6c96640989757fdd00bc87780181fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 07/20] fix: a link with block-level content is not inline

`is_inline` disagreed with `is_block` about `<a>`, so a link containing a block
was wrapped in a paragraph when coerced to the `block` type.
---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From 9fd6e832ebe978839a7f980edfd9d0adc133e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 08/20] fix: wrap the items of mixed HTML sequences separately

A sequence mixing block and inline items (e.g. from @list::join) was accepted
as block content as a whole, leaving bare inline content where only blocks are
allowed, or was wrapped as a whole although some of its items were allowed.
---
 src/compiler/sequence.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/sequence.rs b/src/compiler/sequence.rs
index 7e0bf0b..f89d807 100644
--- a/src/compiler/sequence.rs
+++ b/src/compiler/sequence.rs
@@ -139,6 +139,14 @@ impl SequenceBuilder {
         // do nothing
         if child.is_empty() { return Ok(()); }
         
+        // the items of a sequence may need to be wrapped separately
+        if let HTML::Sequence(children) = child {
+            for grandchild in children.iter().cloned() {
+                self.push(compiler, grandchild)?;
+            }
+            return Ok(());
+        }
+        
         if self.require_inline && child.is_block() {
             let child_name = child.block_kind().map(|tag| compiler.get_name(tag));
             let parent_name = self.parent_tag.map(|tag| compiler.get_name(tag));
-- 
2.43.0


From e91fca73d9ae620684823846d7ab536c046daf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 09/20] fix: resolve output paths against the normalised output
 directory

---
 src/utils/relpath.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..19ab56e 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -11,9 +11,11 @@ use crate::errors;
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
     base.join(rel)
         .normalize()
-        .strip_prefix(base)
+        .strip_prefix(base.normalize())
         .map(Path::to_path_buf)
         .ok()
+        // an absolute path is not a descendant of an empty `base`
+        .filter(|p| p.is_relative())
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From ffc6c842722146cf505aa513be34939f8dfb56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 10/20] fix: do not reuse modules loaded by an earlier compile
 job

---
 src/compiler/context.rs       | 1 +
 src/compiler/module_loader.rs | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2b95148..ed95a66 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -82,6 +82,7 @@ impl Context {
     pub fn reset(&mut self) {
         self.diagnostics.clear();
         self.unique_ids.clear();
+        self.module_cache.clear();
         if matches!(&self.out_files, Some(o) if !o.is_empty()) {
             errors::ice("Output files were not consumed");
         }
diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index d2be480..449fe6b 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -50,6 +50,13 @@ impl ModuleCache {
         }
     }
     
+    /// Forgets the modules loaded so far, so that the next compile job reports
+    /// their diagnostics and generates their unique IDs anew. The standard
+    /// library is kept.
+    pub(super) fn clear(&mut self) {
+        self.cache.clear();
+    }
+    
     fn get(&mut self, path: &path::Path) -> ModuleState {
         self.cache.get(path)
             .map_or(ModuleState::NotLoaded, ModuleState::clone)
-- 
2.43.0


From 20bf5a8065b43909c3f453a79d1ccb912e0b36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:36 +0000
Subject: [PATCH 11/20] fix: coerce implicit arguments to the types of their
 parameters

---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From 9b035477944bc55cffb21f063f1baefc22c055eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 12/20] fix: a dictionary containing a function does not equal
 itself

---
 src/compiler/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/value.rs b/src/compiler/value.rs
index 77e7527..6e95cc0 100644
--- a/src/compiler/value.rs
+++ b/src/compiler/value.rs
@@ -92,7 +92,8 @@ impl PartialEq for Value {
             (Value::HTML(h1), Value::HTML(h2)) => h1 == h2,
             (Value::Regex(r1), Value::Regex(r2)) => r1.as_str() == r2.as_str(),
             (Value::List(v1), Value::List(v2)) => v1 == v2,
-            (Value::Dict(v1), Value::Dict(v2)) => v1 == v2,
+            // compare by content; `Rc` would compare identical references as equal
+            (Value::Dict(v1), Value::Dict(v2)) => v1.as_ref() == v2.as_ref(),
             
             _ => false,
         }
-- 
2.43.0


From b282d235c34d930834bde887ea713047b18910c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 13/20] fix: comments do not change the direction of the quotes
 after them

---
 src/parser/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 86dbcd8..94b9e14 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -45,6 +45,9 @@ pub fn tokenize(src: Rc<SourceFile>, strip_comments: bool, diagnostics: &mut err
         
         quote_dir = match kind {
             TokenKind::Equals | TokenKind::LBrace | TokenKind::LPar | TokenKind::LSqb | TokenKind::RAngle | TokenKind::Newline | TokenKind::Whitespace => QuoteDir::Left,
+            // a comment is not part of the text, but may end with whitespace
+            TokenKind::Comment if !src_str[cur..end].ends_with(|c: char| c.is_ascii_whitespace()) => quote_dir,
+            TokenKind::Comment => QuoteDir::Left,
             _ => QuoteDir::Right,
         };
         cur = end;
-- 
2.43.0


From 793bc19ede1023f4df71f569b3f3a55dc87ecc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 14/20] fix: an output path leading out of the output directory
 is refused

---
 src/utils/relpath.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 19ab56e..5e98eff 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -1,7 +1,6 @@
 //! This module contains helper functions for dealing with relative paths.
 
-use std::path::{Path, PathBuf};
-use normalize_path::NormalizePath;
+use std::path::{Component, Path, PathBuf};
 
 use crate::errors;
 
@@ -9,13 +8,28 @@ use crate::errors;
 /// given `base` path. Returns `None` if the resulting path would not be a
 /// descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
-    base.join(rel)
-        .normalize()
-        .strip_prefix(base.normalize())
+    normalize(&base.join(rel))
+        .strip_prefix(normalize(base))
         .map(Path::to_path_buf)
         .ok()
-        // an absolute path is not a descendant of an empty `base`
-        .filter(|p| p.is_relative())
+        // a path leading out of `base`, or an absolute path, is not a
+        // descendant of an empty `base`
+        .filter(|p| p.components().all(|c| matches!(c, Component::Normal(_))))
+}
+
+/// Resolves `.` and `..` components in the given path without performing I/O.
+/// A relative path which leads out of its starting point begins with `..`.
+fn normalize(path: &Path) -> PathBuf {
+    let mut out = PathBuf::new();
+    for component in path.components() {
+        match (component, out.components().next_back()) {
+            (Component::CurDir, _) |
+            (Component::ParentDir, Some(Component::RootDir)) => {},
+            (Component::ParentDir, Some(Component::Normal(_))) => { out.pop(); },
+            _ => out.push(component),
+        }
+    }
+    out
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From 5802e7d08bd95bfd7295b32dd8402632b3d29ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 15/20] fix: source files with an upper-case extension can be
 listed and imported

---
 src/compiler/native.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index bcc09c0..fdcecca 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -400,11 +400,11 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                .map(|p| {
+                    // the extension may be in upper case, then it is needed
+                    let p = format!("{base_path}/{}", p.to_string_lossy());
+                    p.strip_suffix(".papyri").unwrap_or(&p).into()
+                })
                 .collect::<Vec<Value>>()
         }
         
@@ -563,7 +563,7 @@ impl <'a> Compiler<'a> {
             .to_path_buf();
         
         path.pop();
-        if add_papyri_suffix && !relative_path.ends_with(".papyri") {
+        if add_papyri_suffix && !relative_path.to_ascii_lowercase().ends_with(".papyri") {
             path.push(format!("{relative_path}.papyri"));
         } else {
             path.push(relative_path);
-- 
2.43.0


From 8a20da564ba60824192f68d63a55c37881c1fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 16/20] fix: a directory with the extension of a source file is
 not one

---
 src/utils/relpath.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 5e98eff..4292909 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -52,6 +52,8 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
                     .canonicalize()
                     .map_err(|e| on_error(entry.path(), e))
                     .ok()?;
+                // a directory may have the extension of a source file
+                if entry_path.is_dir() { return None; }
                 make_relative(&canonical_path, &entry_path)
             },
             Err(e) => {
-- 
2.43.0


From 6d38eb8b31f16a47fc1d4621192f105ffe77936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 17/20] fix: a source file that is also linked to is listed
 once

---
 src/utils/relpath.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 4292909..7e71f1a 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -75,5 +75,7 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
         .collect();
     
     paths.sort();
+    // there may be links to files also found by themselves
+    paths.dedup();
     Ok(paths)
 }
-- 
2.43.0


From d0cc9a80ce95aadaffe0c852c0238a29f3a6ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 18/20] fix: remove carriage returns from the lines of code
 that is not indented

---
 src/utils/text.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 6b3a83e..d43a489 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -94,9 +94,6 @@ pub fn fix_indentation(s: &str) -> String {
             },
             None => {
                 if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
-                    // shortcut if there is no indentation
-                    if index == 0 { return s.trim().to_string(); }
-                    
                     indentation_to_remove = Some(&line[..index]);
                     out += &line[index..];
                     out += "\n";
@@ -104,6 +101,7 @@ pub fn fix_indentation(s: &str) -> String {
             },
         }
     }
+    out.pop();
     out
 }
 
-- 
2.43.0


From 7c5dcb9df1b4b8fd89441f9c64a6f280ed1db533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 19/20] fix: blank lines at the start or end of an ellipsis
 group are not paragraphs

---
 src/parser/base.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/base.rs b/src/parser/base.rs
index 0323798..7e01033 100644
--- a/src/parser/base.rs
+++ b/src/parser/base.rs
@@ -263,12 +263,18 @@ impl <'a> Parser<'a> {
     }
     
     pub(super) fn parse_ellipsis_group(&mut self, open: Token) -> Expr {
+        self.skip_whitespace();
+        
         let mut children = Vec::new();
         while let Some(tok) = self.poll_if(|_self, tok| !matches!(tok.kind, TokenKind::CloseTag | TokenKind::RBrace)) {
             if let Ok(child) = self.parse_node(tok) {
                 children.push(child);
             }
         }
+        
+        while matches!(children.last(), Some(node) if node.is_whitespace()) {
+            children.pop();
+        }
         self.group_of(open, children, None)
     }
     
-- 
2.43.0


From d2ba6d7fc3ff5800b6e3b8a171f6691f297d9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 20/20] fix: a content parameter may not share its name with
 another parameter

---
 src/parser/func.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/func.rs b/src/parser/func.rs
index b231da5..6c75cc6 100644
--- a/src/parser/func.rs
+++ b/src/parser/func.rs
@@ -66,6 +66,7 @@ impl <'a> Parser<'a> {
         let mut positional_spread = false;
         let mut named_count = 0;
         let mut named_spread = false;
+        let mut names_used = NameIDSet::default();
         
         self.skip_whitespace();
         let lpar = self.poll_if_kind(TokenKind::LPar);
@@ -78,7 +79,6 @@ impl <'a> Parser<'a> {
             )?;
             
             let mut any_named_params = false;
-            let mut names_used = NameIDSet::default();
             let mut any_optional_params = false;
             let mut any_optional_named_params = false;
             
@@ -143,6 +143,10 @@ impl <'a> Parser<'a> {
             } else if let Some(value) = c.default_value.as_ref() {
                 self.report(SyntaxError::ParamContentDefault, value.range());
             }
+            if names_used.contains(&c.name_id) {
+                let name = self.string_pool.get(c.name_id);
+                self.report(SyntaxError::ParamDuplicateName(name), c.range);
+            }
             let range = c.range;
             params.push(c);
             (true, range)
-- 
2.43.0

