From a21b0ee45f365c68458fe39828ebe3d5dbe3ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 01/16] fix: compute the offset of an opening parenthesis
 without underflow

`ts` is the unparsed rest of `ptr`, so its offset is `ptr.len() - ts.len()`; the
reversed subtraction panicked (or wrapped in release builds) for every group
that does not start at offset 0.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From 70e0738bdbbae0f8563d1aad1b43b136ead1388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 02/16] fix: reject non-ASCII characters with an error instead
 of panicking

The characters of an expression are caller input, so an unsupported one is a
located parse error, not a failed assertion.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..e6844cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Unsupported non-ASCII character at index {}",
+                        self.ptr.len() - ts.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From 37175d60741b1ee80451217dd64c6a38dc1a8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 03/16] fix: say where an unmatched closing parenthesis is

The error is a located parse error like the others, but carried no index.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e6844cc..6aec96f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -107,7 +107,10 @@ impl<'p> Context<'p> {
         } else {
             return Err(CompileError::new(
                 ErrorKind::LocatedParse,
-                "Unmatched parentheses",
+                format!(
+                    "Unmatched parentheses at index {}",
+                    self.ptr.len() - self.p.len()
+                ),
             ));
         };
         mem::swap(&mut self.current_seq, &mut seq);
-- 
2.43.0


From a4ad8ed28376a88000d3949280a7ef807796bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 04/16] fix: allow setting the expression index an error
 already carries

Conflicting SINGLEMATCH settings are reported with the index of the offending
expression, and compile_multi sets the same index again; the debug assertion
turned that error into a panic.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From 5f249722d9fe052ee0a45e655031011a656356b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 05/16] fix: name the right expression as the SINGLEMATCH one
 in the conflict error

The message claimed the previous expression did specify SINGLEMATCH when it did
not and vice versa.
---
 src/util/report_manager.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..b049ec7 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -104,15 +104,15 @@ impl<'a> ReportManager<'a> {
                     ext.first_pattern_index,
                     id,
                     if ext.highlander {
-                        "specified "
+                        "specified"
                     } else {
-                        "did not sepcify "
+                        "did not specify"
                     },
                     eri.first_pattern_index,
                     if eri.highlander {
-                        " not."
-                    } else {
                         "."
+                    } else {
+                        " not."
                     },
                 );
                     return Err(CompileError::with_index(ext.first_pattern_index, out));
-- 
2.43.0


From 94474e3fc6dc4064ebf129e03c8da759a9a9e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 06/16] fix: use the low three bits of a character as its bit
 in fill_bitvector

`pos & 8` is 0 or 8: every character of a byte set the same bit, and `1 << 8`
overflows.
---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From 154a841a1c6eb31afc042a866dbffac2a66d15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 07/16] fix: compare the caseless marks in Ue2Literal equality

Eq disagreed with Ord: literals that differ only in case sensitivity compared
equal.
---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From 1e9991aa09a24d973c69e25e80a608879b3d135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 08/16] fix: drop the epsilons that are not caret flavoured
 from the start state

The filter kept exactly the epsilons without flags, the opposite of what its
comment (and Hyperscan, where it comes from) says.
---
 src/parser/build_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index ed4297f..a71a308 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -87,7 +87,9 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
     } else if from.pos == bs.start_state {
         // If we're connecting from start, we should remove any epsilons that
         // aren't caret flavored.
-        tolist.retain(|e| e.pos != GlushkovBuildState::pos_epsilon() || e.flags.is_empty());
+        tolist.retain(|e| {
+            e.pos != GlushkovBuildState::pos_epsilon() || e.flags.contains(PosFlags::NOFLOAT)
+        });
         tolist.retain(|e| !e.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));
     }
 
-- 
2.43.0


From 009076e2397cdfb8b0fb114419d2e86cc12dd8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 09/16] fix: reject flag and ID lists that do not match the
 expressions

`izip!` stops at the shortest list, so expressions without a flag or ID entry
were silently left out of the database.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..850f334 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: expressions, flags and ids differ in length",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From 91e655e67f25e2972208e795a4ee3fb390309de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 10/16] fix: build the alignment masks in the type that is
 aligned

The mask was complemented as u8 and then zero extended, which cleared every bit
above the low byte: round_up_n(300_usize, 64) was 64.
---
 src/util/ue2common.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..426e955 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,12 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    ((a + 0xf_u8.into()).into() & (!T::from(0xf)).into()).into()
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +25,23 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not + From<u8>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    (a & (!0xf_u8).into()).into()
+    (a & (!T::from(0xf)).into()).into()
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    ((a + (n - 1).into()).into() & (!T::from(n - 1)).into()).into()
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +49,11 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not + From<u8>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    (a & (!(n - 1)).into()).into()
+    (a & (!T::from(n - 1)).into()).into()
 }
 
 /// Aligns to a cache line.
@@ -57,9 +61,10 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    ((a + 0x3f_u8.into()).into() & (!T::from(0x3f)).into()).into()
 }
-- 
2.43.0


From 860852f638d6432be1e42feebbe5885c7f2c83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 11/16] fix: describe the last range of a character class

It was left out unless it ended at 0xff, so that e.g. [ac] was described as "a".
---
 src/util/dump_charclass.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index e0fa5f4..a0d81a0 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -175,10 +175,8 @@ fn describe_class_int<W: Write>(
             }
             c_last = c;
         }
-        if c_last == 0xff {
-            describe_range(f, c_start, c_last, out_type)?;
-            i += 1;
-        }
+        describe_range(f, c_start, c_last, out_type)?;
+        i += 1;
     }
     Ok(i)
 }
-- 
2.43.0


From a558d0e998c49b3d49c3d0793965fc08ea85d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 12/16] fix: pad escaped characters in class descriptions with
 zeros, not spaces

\x01 was written as "\x 1".
---
 src/util/dump_charclass.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index a0d81a0..03082e2 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -42,7 +42,7 @@ fn describe_char<W: Write>(f: &mut W, c: u8, out_type: CcOutput) -> Result<(), E
         f.write_str(backslash)?;
         f.write_char('r')
     } else {
-        f.write_str(&format!("{}x{:2x}", backslash, c))
+        f.write_str(&format!("{}x{:02x}", backslash, c))
     }
 }
 
-- 
2.43.0


From 16dd135bc45edfd4b7d19d3e79c4bf68dc1c3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 13/16] fix: do not step past 0xff when describing a short
 range

Describing e.g. [\xfe\xff] overflowed the loop counter.
---
 src/util/dump_charclass.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index 03082e2..c20ee3e 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -56,13 +56,8 @@ fn describe_range<W: Write>(f: &mut W, c1: u8, c2: u8, out_type: CcOutput) -> Re
         describe_char(f, c1, out_type)
     } else if c2 - c1 < 4 {
         // Render as individual chars.
-        let mut c1 = c1;
-        loop {
-            describe_char(f, c1, out_type)?;
-            c1 += 1;
-            if c1 > c2 {
-                break;
-            }
+        for c in c1..=c2 {
+            describe_char(f, c, out_type)?;
         }
         Ok(())
     } else {
-- 
2.43.0


From 688d95196c3a8cd7605ef5fb8b870fec47c25a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 14/16] hook: include verification harnesses under
 cfg(rescan_verif)

With the cfg off, nothing changes.
---
 src/compiler.rs                    | 6 ++++++
 src/lib.rs                         | 8 ++++++++
 src/nfagraph.rs                    | 6 ++++++
 src/nfagraph/ng.rs                 | 6 ++++++
 src/nfagraph/ng_holder.rs          | 6 ++++++
 src/parser.rs                      | 6 ++++++
 src/parser/build_state.rs          | 6 ++++++
 src/rose.rs                        | 6 ++++++
 src/smallwrite/smallwrite_build.rs | 6 ++++++
 src/util.rs                        | 6 ++++++
 src/util/report_manager.rs         | 6 ++++++
 src/util/ue2string.rs              | 6 ++++++
 12 files changed, 74 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..8495baa 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -122,3 +122,9 @@ pub(crate) fn build_graph(pe: &mut ParsedExpression) -> BuiltExpression {
 
     builder.get_graph()
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/compiler.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 850f334..a4655cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // rescan_verif: verification harnesses, off in every normal build
+
 mod compiler;
 mod database;
 mod grey;
@@ -154,6 +156,12 @@ bitflags! {
     }
 }
 
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/lib.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::{Grey, Mode};
diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index f8b94b7..fa77c2b 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -5,3 +5,9 @@ mod ng_holder;
 pub(crate) use ng::Ng;
 pub(crate) use ng_builder::{make_nfa_builder, NfaBuilder};
 pub(crate) use ng_holder::{NfaVertex, NgHolder};
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/nfagraph.rs"));
+}
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..c13810b 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -129,3 +129,9 @@ impl<'a> Ng<'a> {
         Ok(true)
     }
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/ng.rs"));
+}
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..fd5cd73 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -117,3 +117,9 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     let v = NfaGraphVertexProps::default();
     g.add_node(v)
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/ng_holder.rs"));
+}
diff --git a/src/parser.rs b/src/parser.rs
index 6aec96f..15dcc6c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -200,6 +200,12 @@ fn take_any(input: &str) -> IResult<&str, char> {
     })
 }
 
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/parser.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::dump::dump_tree;
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index a71a308..d2eb9c3 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -113,3 +113,9 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
 pub(crate) fn make_glushkov_build_state(b: &mut NfaBuilder) -> GlushkovBuildState {
     GlushkovBuildState::new(b)
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/build_state.rs"));
+}
diff --git a/src/rose.rs b/src/rose.rs
index 2c639b9..7addeb6 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -9,3 +9,9 @@ pub(crate) use rose_build::RoseBuild;
 use rose_build_bytecode::DerivedBoundaryReports;
 use rose_build_resources::RoseResources;
 pub(crate) use rose_internal::{RoseEngine, RoseRuntimeImpl};
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/rose.rs"));
+}
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..3c99b4f 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -176,3 +176,9 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
 
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/smallwrite_build.rs"));
+}
diff --git a/src/util.rs b/src/util.rs
index 23f5a3e..e05a955 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -23,3 +23,9 @@ pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
 pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/util.rs"));
+}
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index b049ec7..65970de 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -145,3 +145,9 @@ impl<'a> ReportManager<'a> {
         *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)
     }
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/report_manager.rs"));
+}
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index bdba568..49c5c6b 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -117,6 +117,12 @@ where
     cs && nc
 }
 
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/ue2string.rs"));
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From a3541250273bccdc0af397ac2fa93fbbfa5013f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 15/16] hook: compile the character class dump code under
 cfg(rescan_verif) too

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e05a955..a497242 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,7 +5,7 @@ mod compare;
 mod compile_context;
 pub(crate) mod compile_error;
 pub(crate) mod depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 mod dump_charclass;
 mod report;
 mod report_manager;
@@ -17,7 +17,7 @@ pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
-- 
2.43.0


From 0770dd9d1325a25013fafbc53ef50ec5ed29b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 16/16] Hook: verification harness include in ng_builder (cfg
 rescan_verif)

---
 src/nfagraph/ng_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 09ed15b..2e1c29e 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -65,3 +65,9 @@ impl NfaBuilder {
 pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
+
+#[cfg(rescan_verif)]
+mod verif {
+    use super::*;
+    include!(concat!(env!("RESCAN_VERIF"), "/ng_builder.rs"));
+}
-- 
2.43.0

