From 6873bcce1c51d229d55adccdc65783477ff04bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 1/5] fix: do not set bits beyond the alphabet in ANY_BYTE and
 mk_byte_set_not

For alphabets whose size is not a multiple of 32 the unused bits of the last
word were set. Emptiness checks then found derivatives for symbols that do
not exist, so e.g. Not(Concat(any, a, Not(a), any)) had live states from which
nothing matches, and mk_byte_set could hit unreachable!().
---
 src/ast.rs      | 11 +++++++----
 src/simplify.rs | 10 +---------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6706098..e79d449 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -284,15 +284,18 @@ impl ExprSet {
             unicode_cache: std::collections::HashMap::new(),
         };
 
+        // only the bits of actual symbols may be set
+        let mut any_byte = vec![0u32; alphabet_words];
+        for b in 0..alphabet_size {
+            byteset_set(&mut any_byte, b);
+        }
+
         let id = r.exprs.insert(&[]);
         assert!(id == 0);
         let inserts = vec![
             (r.mk(Expr::EmptyString), ExprRef::EMPTY_STRING),
             (r.mk(Expr::NoMatch), ExprRef::NO_MATCH),
-            (
-                r.mk(Expr::ByteSet(&vec![0xffffffff; alphabet_words])),
-                ExprRef::ANY_BYTE,
-            ),
+            (r.mk_byte_set(&any_byte), ExprRef::ANY_BYTE),
             (
                 r.mk_repeat(ExprRef::ANY_BYTE, 0, u32::MAX),
                 ExprRef::ANY_BYTE_STRING,
diff --git a/src/simplify.rs b/src/simplify.rs
index c09d1c4..7c5e8f4 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -294,15 +294,7 @@ impl ExprSet {
     }
 
     pub fn mk_byte_set_not(&mut self, x: ExprRef) -> ExprRef {
-        match self.get(x) {
-            Expr::Byte(b) => {
-                let mut r = vec![!0u32; self.alphabet_words];
-                byteset_clear(&mut r, b as usize);
-                self.mk_byte_set(&r)
-            }
-            Expr::ByteSet(bs) => self.mk_byte_set(&bs.iter().map(|v| !*v).collect::<Vec<_>>()),
-            _ => panic!(),
-        }
+        self.mk_byte_set_neg_or(&[x])
     }
 
     pub fn mk_byte_set_or(&mut self, args: &[ExprRef]) -> ExprRef {
-- 
2.43.0


From 5e0ed333d9c07b89804592e42b9c96e1ef5d6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 2/5] fix: compress alphabets in which all 256 bytes are
 distinguished

0xff was used to mark bytes without a symbol yet, but it is also the last
symbol; the 256th distinguished byte was then mapped again, which made the
symbol counter overflow and building the regex panic.
---
 src/bytecompress.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bytecompress.rs b/src/bytecompress.rs
index 6942b8b..e87ede3 100644
--- a/src/bytecompress.rs
+++ b/src/bytecompress.rs
@@ -8,17 +8,17 @@ use crate::{
 pub struct ByteCompressor {
     pub mapping: Vec<u8>,
     pub alphabet_size: usize,
+    mapped: Vec<bool>,
     bytesets: Vec<Vec<u32>>,
     map_cache: HashMap<ExprRef, ExprRef>,
 }
 
-const INVALID_MAPPING: u8 = 0xff;
-
 impl ByteCompressor {
     pub fn new() -> Self {
         ByteCompressor {
             mapping: Vec::new(),
             alphabet_size: 0,
+            mapped: Vec::new(),
             bytesets: Vec::new(),
             map_cache: HashMap::new(),
         }
@@ -80,7 +80,9 @@ impl ByteCompressor {
     }
 
     pub fn compress(&mut self, exprset: &ExprSet, rx_list: &[ExprRef]) -> (ExprSet, Vec<ExprRef>) {
-        self.mapping = vec![INVALID_MAPPING; exprset.alphabet_size()];
+        self.mapping = vec![0; exprset.alphabet_size()];
+        // all values of u8 can be valid symbols, so this has to be tracked separately
+        self.mapped = vec![false; exprset.alphabet_size()];
 
         let mut todo = rx_list.to_vec();
         let mut visited = vec![false; exprset.len()];
@@ -93,9 +95,10 @@ impl ByteCompressor {
             match exprset.get(e) {
                 Expr::Byte(b) => {
                     assert!(
-                        self.mapping[b as usize] == INVALID_MAPPING,
+                        !self.mapped[b as usize],
                         "visiting the same byte the second time"
                     );
+                    self.mapped[b as usize] = true;
                     self.mapping[b as usize] = self.alphabet_size as u8;
                     self.alphabet_size += 1;
                 }
@@ -132,7 +135,7 @@ impl ByteCompressor {
     ) {
         let mut byte_mapping = HashMap::new();
         for b in 0..self.mapping.len() {
-            if self.mapping[b] == INVALID_MAPPING {
+            if !self.mapped[b] {
                 let mut v = alloc(self.bytesets.len());
                 for (idx, bs) in self.bytesets.iter().enumerate() {
                     if byteset_contains(bs, b) {
-- 
2.43.0


From da229cd7a68b3e54a205bf414352ddb503134c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 3/5] fix: allow finishing an empty incremental insertion into
 a fresh VecHashCons

start_insert() followed by finish_insert() sliced past the end of the still
empty backing storage.
---
 src/hashcons.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashcons.rs b/src/hashcons.rs
index 8a9d9bb..63237cd 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -81,6 +81,8 @@ impl VecHashCons {
     pub fn start_insert(&mut self) {
         assert!(self.curr_elt.backing_end == 0);
         self.curr_elt.backing_end = self.curr_elt.backing_start;
+        // needed when nothing is pushed before finish_insert()
+        self.ensure_size();
     }
 
     #[inline(always)]
-- 
2.43.0


From 8fdc98bc636bf1205b00c6d90da457218ff73024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 4/5] fix: json_quote must not accept quoted quote or backslash
 outside of the set

For byte sets with all control characters (or all but newline), \" and \\
were accepted even when the set contains neither character.
---
 src/regexbuilder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 310d8e8..436bf63 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -244,10 +244,11 @@ impl RegexBuilder {
             }
         }
 
-        // byteset of all possible single-char quotes
+        // byteset of all possible single-char quotes of control characters;
+        // quote and backslash themselves are handled separately
         fn single_quote_byteset(include_nl: bool, options: &JsonQuoteOptions) -> Vec<u32> {
             let mut quoted_bs = byteset_256();
-            for c in b"\"\\bfrt" {
+            for c in b"bfrt" {
                 options.set_if_allowed(&mut quoted_bs, *c);
             }
             if include_nl {
-- 
2.43.0


From 6c511eee4a0d82c9f8f03c5a7e0404742a948282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 5/5] fix: printing a byte set no longer reads past a set
 shorter than 256 bits

---
 src/pp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pp.rs b/src/pp.rs
index f9fe918..1cb2c0a 100644
--- a/src/pp.rs
+++ b/src/pp.rs
@@ -277,7 +277,7 @@ pub fn byteset_to_string(s: &[u32]) -> String {
     let mut start = None;
     let mut first = true;
     for i in 0..=256 {
-        if i <= 0xff && byteset_contains(s, i) {
+        if i < 256.min(s.len() * 32) && byteset_contains(s, i) {
             if start.is_none() {
                 start = Some(i);
             }
-- 
2.43.0

