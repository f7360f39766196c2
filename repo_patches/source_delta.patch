From 54c0da6848a67079d752e82bc9693102db07547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 01/11] fix: compute the offset of a group from the start of
 the pattern

The offset recorded when entering a group was `ts.len() - self.ptr.len()`,
where `ts` is the unparsed suffix of `self.ptr`. It underflowed (a panic in
debug builds, a huge index in error messages otherwise) for every group that
does not start at index 0, e.g. "a(b)".
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From 03c8b0cd3790f96bdd5fbbf8abf594638d389a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 02/11] fix: reject a non-ASCII literal with an error instead
 of a panic

`compile` panicked on any pattern containing a non-ASCII character.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..cae9635 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Unsupported non-ASCII literal at index {}",
+                        self.ptr.len() - ts.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From 45cef1488ba358cda8e7ef0af55e0d8eed7956f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 03/11] fix: allow the expression index of an error to be set
 again

A conflict in SINGLEMATCH is reported by an error that already carries the
index of the expression. Setting the same index again in `compile_multi`
panicked in debug builds.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From 46635341ba291db72602d142b9d41c69d3d504b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 04/11] fix: report correctly which expression specified
 SINGLEMATCH

The error for a SINGLEMATCH conflict said that the previous expression did not
specify SINGLEMATCH when it did, and vice versa.
---
 src/util/report_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..a574c2d 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -109,7 +109,7 @@ impl<'a> ReportManager<'a> {
                         "did not sepcify "
                     },
                     eri.first_pattern_index,
-                    if eri.highlander {
+                    if ext.highlander {
                         " not."
                     } else {
                         "."
-- 
2.43.0


From 61f264d769d17031090c5e13ba41ea7f6eb21c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 05/11] fix: set the right bit in `fill_bitvector`

The bit within a byte was computed as `pos & 8` rather than `pos & 7`: most
characters ended up in bit 0, and the others overflowed the shift.
---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From 11648aec5f3fcc015727c9e8277e6e1c1d34af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 06/11] fix: compare case sensitivity in equality of
 `Ue2Literal`

Two literals that differ only in their case sensitivity were equal according
to `PartialEq`, but not according to `Ord`.
---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From 016cbcb85e58cdbb472cc8ac8b1b5493c843e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 07/11] fix: reject expressions, flags, and ids of different
 lengths

`compile_multi` silently ignored the expressions beyond the shortest of the
three slices, so that an invalid expression was not reported.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..f906983 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: expressions, flags, and ids differ in length",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From f9ec63d93dcb121382642bc940cc61a4755fa68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 08/11] fix: validate SINGLEMATCH constraints for every
 expression

Expressions that share a match ID must agree on SINGLEMATCH, but only those
that took the literal shortcut were checked.
---
 src/compiler.rs    |  6 ++----
 src/nfagraph/ng.rs | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..4127323 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,10 +92,8 @@ pub(crate) fn add_expression(
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
             .get_unchecked_mut()
-            .add_graph(&build_expr.expr, &build_expr.g);
-    };
-
-    Ok(())
+            .add_graph(&build_expr.expr, &build_expr.g)
+    }
 }
 
 fn generate_rose_engine(ng: &Ng) -> RoseEngine {
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..68343ec 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -58,10 +58,22 @@ impl<'a> Ng<'a> {
         boxed
     }
 
-    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
+    pub(crate) fn add_graph(
+        &mut self,
+        expr: &ExpressionInfo,
+        _g: &NgHolder,
+    ) -> Result<(), CompileError> {
+        // Register external report and validate highlander constraints.
+        self.rm.register_ext_report(
+            expr.report,
+            ExternalReportInfo::new(expr.highlander, expr.index.try_into().unwrap()),
+        )?;
+
         if expr.som != SomType::None {
             self.rose.has_som = true;
         }
+
+        Ok(())
     }
 
     pub(crate) fn add_literal(
-- 
2.43.0


From 841e040e0bae9cda93be720d2c84e05e9373727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 09/11] fix: keep the high bits in the alignment functions

The mask was computed as a `u8` and then widened, so that anything beyond the
low eight bits of the argument was lost, e.g. `round_up_16(300)` was 48.
---
 src/util/ue2common.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..215d289 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,11 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + From<u8> + Not<Output = T>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    ((a + 0xf_u8.into()).into() & !T::from(0xf_u8)).into()
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +24,21 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + From<u8> + Not<Output = T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    (a & (!0xf_u8).into()).into()
+    (a & !T::from(0xf_u8)).into()
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + From<u8> + Not<Output = T>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    ((a + (n - 1).into()).into() & !T::from(n - 1)).into()
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +46,10 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + From<u8> + Not<Output = T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    (a & (!(n - 1)).into()).into()
+    (a & !T::from(n - 1)).into()
 }
 
 /// Aligns to a cache line.
@@ -57,9 +57,9 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + From<u8> + Not<Output = T>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    ((a + 0x3f_u8.into()).into() & !T::from(0x3f_u8)).into()
 }
-- 
2.43.0


From e445883980e4b85c8f7c588b9604e8410cdc67d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 10/11] Add hooks for the verification harness

Compiled in only with `--cfg rescan_verif="<module>"`.
---
 src/compiler.rs                    | 3 +++
 src/lib.rs                         | 5 +++++
 src/nfagraph/ng.rs                 | 3 +++
 src/nfagraph/ng_builder.rs         | 3 +++
 src/parser.rs                      | 3 +++
 src/parser/shortcut_literal.rs     | 3 +++
 src/rose/rose_build_bytecode.rs    | 3 +++
 src/smallwrite/smallwrite_build.rs | 3 +++
 src/util/bitfield.rs               | 3 +++
 src/util/charreach.rs              | 3 +++
 src/util/depth.rs                  | 3 +++
 src/util/report_manager.rs         | 3 +++
 src/util/ue2common.rs              | 3 +++
 src/util/ue2string.rs              | 3 +++
 14 files changed, 44 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 4127323..e564a5a 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -120,3 +120,6 @@ pub(crate) fn build_graph(pe: &mut ParsedExpression) -> BuiltExpression {
 
     builder.get_graph()
 }
+
+#[cfg(rescan_verif = "compiler")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/compiler.rs"));
diff --git a/src/lib.rs b/src/lib.rs
index f906983..7f47d74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)]
+
 mod compiler;
 mod database;
 mod grey;
@@ -154,6 +156,9 @@ bitflags! {
     }
 }
 
+#[cfg(rescan_verif = "lib")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/lib.rs"));
+
 #[cfg(test)]
 mod tests {
     use super::{Grey, Mode};
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 68343ec..72f984f 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -141,3 +141,6 @@ impl<'a> Ng<'a> {
         Ok(true)
     }
 }
+
+#[cfg(rescan_verif = "ng")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/ng.rs"));
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 09ed15b..43a33e8 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -65,3 +65,6 @@ impl NfaBuilder {
 pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
+
+#[cfg(rescan_verif = "ng_builder")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/ng_builder.rs"));
diff --git a/src/parser.rs b/src/parser.rs
index cae9635..a8e7074 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -197,6 +197,9 @@ fn take_any(input: &str) -> IResult<&str, char> {
     })
 }
 
+#[cfg(rescan_verif = "parser")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/parser.rs"));
+
 #[cfg(test)]
 mod tests {
     use super::dump::dump_tree;
diff --git a/src/parser/shortcut_literal.rs b/src/parser/shortcut_literal.rs
index ed7bb9d..00366f6 100644
--- a/src/parser/shortcut_literal.rs
+++ b/src/parser/shortcut_literal.rs
@@ -84,3 +84,6 @@ pub(crate) fn shortcut_literal(
         )
     }
 }
+
+#[cfg(rescan_verif = "shortcut_literal")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/shortcut_literal.rs"));
diff --git a/src/rose/rose_build_bytecode.rs b/src/rose/rose_build_bytecode.rs
index f7c256b..05aa312 100644
--- a/src/rose/rose_build_bytecode.rs
+++ b/src/rose/rose_build_bytecode.rs
@@ -60,3 +60,6 @@ pub(super) fn pick_runtime_impl(build: &RoseBuild, resources: &RoseResources) ->
 }
 
 pub(super) struct DerivedBoundaryReports {}
+
+#[cfg(rescan_verif = "rose_build_bytecode")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/rose_build_bytecode.rs"));
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..89d8d0c 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -176,3 +176,6 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
 
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
+
+#[cfg(rescan_verif = "smallwrite_build")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/smallwrite_build.rs"));
diff --git a/src/util/bitfield.rs b/src/util/bitfield.rs
index c744d9a..e911cf4 100644
--- a/src/util/bitfield.rs
+++ b/src/util/bitfield.rs
@@ -283,6 +283,9 @@ impl Not for BitField256 {
     }
 }
 
+#[cfg(rescan_verif = "bitfield")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/bitfield.rs"));
+
 #[cfg(test)]
 mod tests {
     use super::BitField256;
diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index ccbf61d..0469eaa 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -364,6 +364,9 @@ pub(crate) fn make_and_cmp_mask(cr: &CharReach) -> (u8, u8) {
     (and_mask, cmp_mask)
 }
 
+#[cfg(rescan_verif = "charreach")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/charreach.rs"));
+
 #[cfg(test)]
 mod tests {
     use super::CharReach;
diff --git a/src/util/depth.rs b/src/util/depth.rs
index f581eae..434020a 100644
--- a/src/util/depth.rs
+++ b/src/util/depth.rs
@@ -63,3 +63,6 @@ impl PartialOrd for Depth {
         Some(self.cmp(other))
     }
 }
+
+#[cfg(rescan_verif = "depth")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/depth.rs"));
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index a574c2d..ee08fad 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -145,3 +145,6 @@ impl<'a> ReportManager<'a> {
         *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)
     }
 }
+
+#[cfg(rescan_verif = "report_manager")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/report_manager.rs"));
diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index 215d289..bb9de9a 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -63,3 +63,6 @@ where
 {
     ((a + 0x3f_u8.into()).into() & !T::from(0x3f_u8)).into()
 }
+
+#[cfg(rescan_verif = "ue2common")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/ue2common.rs"));
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index bdba568..16e12e0 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -117,6 +117,9 @@ where
     cs && nc
 }
 
+#[cfg(rescan_verif = "ue2string")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/ue2string.rs"));
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 8c21f0113aa85b4449590452a5655d8c6d5007f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:21 +0000
Subject: [PATCH 11/11] Add a verification hook to the NFA holder

---
 src/nfagraph/ng_holder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..0ef63c1 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -117,3 +117,6 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     let v = NfaGraphVertexProps::default();
     g.add_node(v)
 }
+
+#[cfg(rescan_verif = "ng_holder")]
+include!(concat!(env!("RESCAN_VERIF_DIR"), "/ng_holder.rs"));
-- 
2.43.0

