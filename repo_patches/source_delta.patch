From f045e60c107c0d50a6c4a04f4b128326322693a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 001/104] fix: grapheme search across several text chunks

A grapheme cluster spanning more than one whole leaf made prev_grapheme loop
forever and next_grapheme skip a leaf, and context for emoji sequences whose
joiner is the first character of a leaf was misjudged. Search a contiguous
run of leaves, extended as far as the segmentation asks for.
---
 rust/rope/src/rope.rs | 74 ++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index b678bb1..aea3336 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -673,59 +673,53 @@ impl<'a> Cursor<'a, RopeInfo> {
     }
 
     pub fn next_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (leaf, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
-        while offset < l.len() && !l.is_char_boundary(offset) {
+        while offset < leaf.len() && !leaf.is_char_boundary(offset) {
             pos -= 1;
             offset -= 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, self.total_len(), true);
-        let mut next_boundary = c.next_boundary(&l, leaf_offset);
-        while let Err(incomp) = next_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::NextChunk {
-                self.set(pos);
-                let (nl, noffset) = self.next_leaf()?;
-                l = nl;
-                leaf_offset = self.pos() - noffset;
-                pos = leaf_offset + nl.len();
-            } else {
-                return None;
-            }
-            next_boundary = c.next_boundary(&l, leaf_offset);
-        }
-        next_boundary.unwrap_or(None)
+        self.grapheme_boundary(pos, |c, chunk, start| c.next_boundary(chunk, start))
     }
 
     pub fn prev_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (leaf, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
-        while offset < l.len() && !l.is_char_boundary(offset) {
+        while offset < leaf.len() && !leaf.is_char_boundary(offset) {
             pos += 1;
             offset += 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, l.len() + leaf_offset, true);
-        let mut prev_boundary = c.prev_boundary(&l, leaf_offset);
-        while let Err(incomp) = prev_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::PrevChunk {
-                self.set(pos);
-                let (pl, poffset) = self.prev_leaf()?;
-                l = pl;
-                leaf_offset = self.pos() - poffset;
-                pos = leaf_offset + pl.len();
-            } else {
-                return None;
+        self.grapheme_boundary(pos, |c, chunk, start| c.prev_boundary(chunk, start))
+    }
+
+    /// Runs a grapheme boundary search from `pos`, which must be in the current
+    /// leaf, on that leaf. As long as the search needs to see more text, the
+    /// leaf before or after is added and the search is repeated.
+    fn grapheme_boundary<F>(&mut self, pos: usize, search: F) -> Option<usize>
+    where
+        F: Fn(&mut GraphemeCursor, &str, usize) -> Result<Option<usize>, GraphemeIncomplete>,
+    {
+        let (leaf, offset) = self.get_leaf()?;
+        let mut chunk = Cow::from(leaf.as_str());
+        let mut start = self.pos() - offset;
+        loop {
+            let mut c = GraphemeCursor::new(pos, self.total_len(), true);
+            match search(&mut c, &chunk, start) {
+                Ok(boundary) => return boundary,
+                Err(GraphemeIncomplete::PreContext(_)) | Err(GraphemeIncomplete::PrevChunk) => {
+                    self.set(start);
+                    let (prev, _) = self.prev_leaf()?;
+                    start = self.pos();
+                    chunk = Cow::from([prev.as_str(), &*chunk].concat());
+                }
+                Err(GraphemeIncomplete::NextChunk) => {
+                    self.set(start + chunk.len() - 1);
+                    let (next, _) = self.next_leaf()?;
+                    chunk = Cow::from([&*chunk, next.as_str()].concat());
+                }
+                Err(GraphemeIncomplete::InvalidOffset) => return None,
             }
-            prev_boundary = c.prev_boundary(&l, leaf_offset);
         }
-        prev_boundary.unwrap_or(None)
     }
 }
 
-- 
2.43.0


From 413baefd30477908cf630f1efa35d47c5bf9f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 002/104] fix: next codepoint boundary from inside a codepoint

at_or_next_codepoint_boundary took the length of the character from the byte
at the offset, which is a continuation byte when the offset is not a boundary,
and could return an offset past the boundary or past the end of the text.
---
 rust/rope/src/rope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index aea3336..4a0527c 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -422,7 +422,8 @@ impl Rope {
         if self.is_codepoint_boundary(offset) {
             Some(offset)
         } else {
-            self.next_codepoint_offset(offset)
+            let start = self.prev_codepoint_offset(offset)?;
+            self.next_codepoint_offset(start)
         }
     }
 
-- 
2.43.0


From 19e283b30a2ef85cc3ddd7bd9e697d508e97c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 003/104] fix: old offsets reported by the delta insert and
 delete iterators

Both iterators advanced their position in the old text past inserted text,
so a replacement's deletion was lost or misreported.
---
 rust/rope/src/delta.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rust/rope/src/delta.rs b/rust/rope/src/delta.rs
index a904217..21c67ff 100644
--- a/rust/rope/src/delta.rs
+++ b/rust/rope/src/delta.rs
@@ -654,7 +654,6 @@ impl<'a, N: NodeInfo> Iterator for InsertsIter<'a, N> {
                 DeltaElement::Insert(ref n) => {
                     result = Some(DeltaRegion::new(self.last_end, self.pos, n.len()));
                     self.pos += n.len();
-                    self.last_end += n.len();
                     break;
                 }
             }
@@ -689,7 +688,6 @@ impl<'a, N: NodeInfo> Iterator for DeletionsIter<'a, N> {
                 }
                 DeltaElement::Insert(ref n) => {
                     self.pos += n.len();
-                    self.last_end += n.len();
                 }
             }
         }
-- 
2.43.0


From 7aec2d21fd3ad9cb37531c4414b5f32a031ec011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 004/104] fix: garbage collection of an undo group that is
 newer than a retained one

Text of a collected group that stays in the document becomes part of the base,
but earlier retained revisions weren't rebased over it, so the next undo or
edit against them panicked on subsets of different lengths.
---
 rust/rope/src/engine.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 14ab7da..57479d3 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -606,6 +606,9 @@ impl Engine {
             self.tombstones = dels_from_tombstones.delete_from(&self.tombstones);
             self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);
         }
+        // Characters of dropped revisions that stay in the document. Earlier retained
+        // revisions have to be rebased over these, since they're now part of the base.
+        let mut retained_chars = Subset::new(self.deletes_from_union.len());
         let old_revs = std::mem::replace(&mut self.revs, Vec::new());
         for rev in old_revs.into_iter().rev() {
             match rev.edit {
@@ -615,17 +618,28 @@ impl Engine {
                     } else {
                         Some(gc_dels.transform_shrink(&inserts))
                     };
+                    let (inserts, deletes) = if gc_dels.is_empty() {
+                        (inserts, deletes)
+                    } else {
+                        (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
+                    };
                     if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
-                        let (inserts, deletes) = if gc_dels.is_empty() {
+                        let (inserts, deletes) = if retained_chars.is_empty() {
                             (inserts, deletes)
                         } else {
-                            (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
+                            (
+                                inserts.transform_expand(&retained_chars),
+                                deletes.transform_expand(&retained_chars),
+                            )
                         };
+                        retained_chars = retained_chars.transform_shrink(&inserts);
                         self.revs.push(Revision {
                             rev_id: rev.rev_id,
                             max_undo_so_far: rev.max_undo_so_far,
                             edit: Edit { priority, undo_group, inserts, deletes },
                         });
+                    } else if !inserts.is_empty() {
+                        retained_chars = inserts.transform_union(&retained_chars);
                     }
                     if let Some(new_gc_dels) = new_gc_dels {
                         gc_dels = new_gc_dels;
-- 
2.43.0


From 4f609567aed9f3607a0e0110fe867fb3e5a11155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 005/104] fix: merging replicas with three or more sessions
 diverged

compute_transforms combined consecutive revisions of equal priority even when
they came from different sessions, so ties against a third session were settled
by the wrong session id.
---
 rust/rope/src/engine.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 57479d3..51cdae4 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -869,26 +869,22 @@ fn compute_deltas(
 /// from the new revisions on the left.
 ///
 /// Applies an optimization where it combines sequential revisions with the
-/// same priority into one transform to decrease the number of transforms that
+/// same priority and session into one transform to decrease the number of transforms that
 /// have to be considered in `rebase` substantially for normal editing
 /// patterns. Any large runs of typing in the same place by the same user (e.g
 /// typing a paragraph) will be combined into a single segment in a transform
 /// as opposed to thousands of revisions.
 fn compute_transforms(revs: Vec<Revision>) -> Vec<(FullPriority, Subset)> {
-    let mut out = Vec::new();
-    let mut last_priority: Option<usize> = None;
+    let mut out: Vec<(FullPriority, Subset)> = Vec::new();
     for r in revs {
         if let Contents::Edit { priority, inserts, .. } = r.edit {
             if inserts.is_empty() {
                 continue;
             }
-            if Some(priority) == last_priority {
-                let last: &mut (FullPriority, Subset) = out.last_mut().unwrap();
-                last.1 = last.1.transform_union(&inserts);
-            } else {
-                last_priority = Some(priority);
-                let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
-                out.push((prio, inserts));
+            let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+            match out.last_mut() {
+                Some(last) if last.0 == prio => last.1 = last.1.transform_union(&inserts),
+                _ => out.push((prio, inserts)),
             }
         }
     }
-- 
2.43.0


From 8e83e60ed24a66df30b5e64c3014e905b97f874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 006/104] fix: difference that copied a region of the base text
 more than once

---
 rust/rope/src/diff.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rust/rope/src/diff.rs b/rust/rope/src/diff.rs
index cead72e..3856d8f 100644
--- a/rust/rope/src/diff.rs
+++ b/rust/rope/src/diff.rs
@@ -111,24 +111,29 @@ impl Diff<RopeInfo> for LineHashDiff {
             if needs_subseq { longest_increasing_region_set(&matches) } else { matches };
 
         // for each matching region, we extend it forwards and backwards.
-        // we keep track of how far forward we extend it each time, to avoid
-        // having a subsequent scan extend backwards over the same region.
+        // we keep track of how far forward we extend it each time, in both
+        // documents, to avoid having a subsequent scan extend backwards over
+        // the same region.
+        let base_end = base.len() - diff_end;
         let mut prev_end = start_offset;
+        let mut prev_base_end = start_offset;
 
         for (targ_off, base_off) in longest_subseq {
-            if targ_off <= prev_end {
+            if targ_off <= prev_end || base_off < prev_base_end || base_off >= base_end {
                 continue;
             }
+            let max_left = (targ_off - prev_end).min(base_off - prev_base_end);
             let (left_dist, mut right_dist) =
-                expand_match(base, target, base_off, targ_off, prev_end);
+                expand_match(base, target, base_off, targ_off, max_left);
 
-            // don't let last match expand past target_end
-            right_dist = right_dist.min(target_end - targ_off);
+            // don't let last match expand past target_end, or past base_end
+            right_dist = right_dist.min(target_end - targ_off).min(base_end - base_off);
 
             let targ_start = targ_off - left_dist;
             let base_start = base_off - left_dist;
             let len = left_dist + right_dist;
             prev_end = targ_start + len;
+            prev_base_end = base_start + len;
 
             builder.copy(base_start, targ_start, len);
         }
@@ -152,10 +157,9 @@ fn expand_match(
     target: &Rope,
     base_off: usize,
     targ_off: usize,
-    prev_match_targ_end: usize,
+    max_left: usize,
 ) -> (usize, usize) {
     let mut scanner = RopeScanner::new(base, target);
-    let max_left = targ_off - prev_match_targ_end;
     let start = scanner.find_ne_char_back(base_off, targ_off, max_left);
     debug_assert!(start <= max_left, "{} <= {}", start, max_left);
     let end = scanner.find_ne_char(base_off, targ_off, None);
-- 
2.43.0


From 81874a8f6d97795f488f0c691a72574e70fee576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 007/104] fix: common suffix ending inside a codepoint

---
 rust/rope/src/compare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index 36da4b9..fc38331 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -248,7 +248,7 @@ impl<'a> RopeScanner<'a> {
                 ne_idx_rev(self.base_chunk.as_bytes(), self.target_chunk.as_bytes())
             {
                 // find nearest codepoint boundary
-                while idx > 1 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
+                while idx > 0 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
                     idx -= 1;
                 }
                 return stop.min(self.scanned + idx);
-- 
2.43.0


From 7f993742ce15df7104df3693c64c6c12bc4a7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 008/104] fix: line breaks after several spaces, and after
 spaces following a special state

The state reached after a second space forgot what the spaces follow, so rules such as
'no break after an opening bracket, even after intervening spaces' only held for one
space; HL HY SP and HL BA SP never broke again; a pair of regional indicators lost its
special cases. The tables are regenerated with the corrected generator.
---
 rust/unicode/src/tables.rs      | 96 ++++++++++++++++-----------------
 rust/unicode/tools/mk_tables.py | 18 ++++---
 2 files changed, 60 insertions(+), 54 deletions(-)

diff --git a/rust/unicode/src/tables.rs b/rust/unicode/src/tables.rs
index fc3087d..269fe57 100644
--- a/rust/unicode/src/tables.rs
+++ b/rust/unicode/src/tables.rs
@@ -1149,7 +1149,7 @@ pub const LINEBREAK_4_LEAVES: [u8; 9408] = [
     9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9,
     9, 9, 9, 9, 9, 9, 9, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 ];
-// 51 unique states
+// 85 unique states
 pub const N_LINEBREAK_CATEGORIES: usize = 43;
 
 #[rustfmt::skip]
@@ -1328,187 +1328,187 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     38, 167, 40, 41, 2,
     // state 43: HL+HY
     0, 1, 2, 3, 4, 5, 6, 135, 8, 43, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-    21, 22, 23, 24, 25, 43, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
+    21, 22, 23, 24, 25, 59, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 43,
     // state 44: HL+BA
     0, 1, 2, 3, 4, 5, 6, 135, 8, 44, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-    21, 22, 23, 24, 25, 44, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
+    21, 22, 23, 24, 25, 50, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 44,
     // state 45: RI+RI
-    128, 129, 130, 131, 4, 133, 6, 135, 8, 45, 10, 11, 140, 13, 142, 143, 16,
-    17, 18, 147, 148, 149, 150, 23, 152, 153, 45, 27, 28, 29, 30, 159, 160, 161,
+    128, 129, 130, 131, 4, 133, 6, 135, 8, 45, 10, 11, 12, 13, 142, 143, 16, 17,
+    18, 147, 148, 149, 150, 23, 152, 153, 85, 27, 28, 29, 30, 159, 160, 161,
     162, 163, 36, 37, 166, 167, 168, 169, 45,
     // state 46: SP+ XX
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 46, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 47: SP+ AI
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 47, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 48: SP+ AL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 48, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 49: SP+ B2
     128, 129, 130, 3, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143, 16,
-    17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    17, 146, 147, 148, 149, 150, 151, 152, 153, 49, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 50: SP+ BA
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 50, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 51: SP+ BB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 51, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 52: SP+ BK
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 52, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 53: SP+ CB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 53, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 54: SP+ CL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 54, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 37, 166, 167, 168, 169, 170,
     // state 55: SP+ CM
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 55, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 56: SP+ CR
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 56, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 57: SP+ EX
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 57, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 58: SP+ GL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 58, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 59: SP+ HY
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 59, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 60: SP+ ID
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 60, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 61: SP+ IN
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 61, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 62: SP+ IS
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 62, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 63: SP+ LF
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 63, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 64: SP+ NS
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 64, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 65: SP+ NU
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 65, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 66: SP+ OP
     0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-    21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
+    21, 22, 23, 24, 25, 66, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 42,
     // state 67: SP+ PO
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 67, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 68: SP+ PR
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 68, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 69: SP+ QU
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 20, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    16, 17, 146, 147, 20, 149, 150, 151, 152, 153, 69, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 70: SP+ SA
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 70, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 71: SP+ SG
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 71, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 72: SP+ SP
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 72, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 73: SP+ SY
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 73, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 74: SP+ ZW
     128, 129, 130, 131, 132, 133, 6, 135, 136, 130, 10, 139, 140, 141, 142, 143,
-    144, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 155, 28, 29, 158, 159,
+    144, 17, 146, 147, 148, 149, 150, 151, 152, 153, 74, 155, 28, 29, 158, 159,
     160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 130,
     // state 75: SP+ NL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 75, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 76: SP+ WJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 76, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 77: SP+ H2
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 77, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 78: SP+ H3
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 78, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 79: SP+ JL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 79, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 80: SP+ JT
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 80, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 81: SP+ JV
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 81, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 82: SP+ CP
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 82, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 37, 166, 167, 168, 169, 170,
     // state 83: SP+ CJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 83, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 84: SP+ HL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 84, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 85: SP+ RI
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 85, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 86: SP+ EB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 86, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 87: SP+ EM
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 87, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 88: SP+ ZWJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 88, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
 ];
 
diff --git a/rust/unicode/tools/mk_tables.py b/rust/unicode/tools/mk_tables.py
index fe6b614..454fa0f 100644
--- a/rust/unicode/tools/mk_tables.py
+++ b/rust/unicode/tools/mk_tables.py
@@ -212,7 +212,7 @@ def mk_lb_rules():
     update(t, 'GL', Any, 'x')
 
     # LB12:
-    excl = set(linebreak_assignments) - set(('SP', 'BA', 'HY'))
+    excl = set(linebreak_assignments + ['RI+RI']) - set(('SP', 'BA', 'HY'))
     update(t, excl, 'GL', 'x')
 
     # LB13:
@@ -363,10 +363,12 @@ def mk_lb_rules():
                 bk = t[L + '|' + R]
             flags = bk_to_flags[bk]
             if flags == 0 and R == 'SP':
-                if left < n:
-                    state = left + n + nspecial
-                else:
-                    state = left
+                # the special states are about direct adjacency, so with spaces
+                # they are the same as the class of their last character
+                base = left
+                if left >= n:
+                    base = inv_lb_assigments[L.split('+')[1]]
+                state = base + n + nspecial
             elif flags == 0 and L == 'HL' and R == 'HY':
                 # special state for LB21a
                 state = n
@@ -388,7 +390,11 @@ def mk_lb_rules():
                 # SP+ states
                 bk = ts[L + '|' + R]
                 flags = bk_to_flags[bk]
-                sm[left + n + nspecial][right] = flags + r_with_cm
+                if flags == 0 and R == 'SP':
+                    # more spaces, the class before them still matters
+                    sm[left + n + nspecial][right] = left + n + nspecial
+                else:
+                    sm[left + n + nspecial][right] = flags + r_with_cm
     nunique = len(set(str(line) for line in sm))
     print '//', nunique, 'unique states'
     print 'pub const N_LINEBREAK_CATEGORIES: usize = %d;' % n
-- 
2.43.0


From 9646f11f541b20302d136a9fa5f2c7aff80e5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 009/104] fix: line breaks inside emoji joined by a zero width
 joiner

---
 rust/unicode/src/lib.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/rust/unicode/src/lib.rs b/rust/unicode/src/lib.rs
index 96eb7f5..d30fc4b 100644
--- a/rust/unicode/src/lib.rs
+++ b/rust/unicode/src/lib.rs
@@ -69,6 +69,17 @@ pub fn linebreak_property_str(s: &str, ix: usize) -> (u8, usize) {
     }
 }
 
+/// Whether the classes of two adjacent code points are joined by LB8a: ZWJ x (ID | EB | EM).
+///
+/// By LB9 a ZWJ takes the class of its base, so the state machine can't tell.
+fn is_zwj_join(prev: u8, lb: u8) -> bool {
+    const ID: u8 = 14;
+    const EB: u8 = 40;
+    const EM: u8 = 41;
+    const ZWJ: u8 = 42;
+    prev == ZWJ && (lb == ID || lb == EB || lb == EM)
+}
+
 /// An iterator which produces line breaks according to the UAX 14 line
 /// breaking algorithm. For each break, return a tuple consisting of the offset
 /// within the source string and a bool indicating whether it's a hard break.
@@ -82,6 +93,7 @@ pub struct LineBreakIterator<'a> {
     s: &'a str,
     ix: usize,
     state: u8,
+    prev: u8,
 }
 
 impl<'a> Iterator for LineBreakIterator<'a> {
@@ -108,10 +120,14 @@ impl<'a> Iterator for LineBreakIterator<'a> {
                     //println!("{:?}[{}], state {} + lb {} -> {}", &self.s[self.ix..], self.ix, self.state, lb, new);
                     let result = self.ix;
                     self.ix += len;
+                    let joined = is_zwj_join(self.prev, lb);
+                    self.prev = lb;
                     if (new as i8) < 0 {
-                        // break found
                         self.state = new & 0x3f;
-                        return Some((result, new >= 0xc0));
+                        if !joined {
+                            // break found
+                            return Some((result, new >= 0xc0));
+                        }
                     } else {
                         self.state = new;
                     }
@@ -129,10 +145,11 @@ impl<'a> LineBreakIterator<'a> {
                 s,
                 ix: 1, // LB2, don't break; sot takes priority for empty string
                 state: 0,
+                prev: 0,
             }
         } else {
             let (lb, len) = linebreak_property_str(s, 0);
-            LineBreakIterator { s, ix: len, state: lb }
+            LineBreakIterator { s, ix: len, state: lb, prev: lb }
         }
     }
 }
@@ -149,13 +166,14 @@ impl<'a> LineBreakIterator<'a> {
 pub struct LineBreakLeafIter {
     ix: usize,
     state: u8,
+    prev: u8,
 }
 
 impl Default for LineBreakLeafIter {
     // A default value. No guarantees on what happens when next() is called
     // on this. Intended to be useful for empty ropes.
     fn default() -> LineBreakLeafIter {
-        LineBreakLeafIter { ix: 0, state: 0 }
+        LineBreakLeafIter { ix: 0, state: 0, prev: 0 }
     }
 }
 
@@ -164,7 +182,7 @@ impl LineBreakLeafIter {
     /// Precondition: ix is at a code point boundary within s.
     pub fn new(s: &str, ix: usize) -> LineBreakLeafIter {
         let (lb, len) = if ix == s.len() { (0, 0) } else { linebreak_property_str(s, ix) };
-        LineBreakLeafIter { ix: ix + len, state: lb }
+        LineBreakLeafIter { ix: ix + len, state: lb, prev: lb }
     }
 
     /// Return break pos and whether it's a hard break. Note: hard break
@@ -189,10 +207,14 @@ impl LineBreakLeafIter {
             //println!("\"{}\"[{}], state {} + lb {} -> {}", &s[self.ix..], self.ix, self.state, lb, new);
             let result = self.ix;
             self.ix += len;
+            let joined = is_zwj_join(self.prev, lb);
+            self.prev = lb;
             if (new as i8) < 0 {
-                // break found
                 self.state = new & 0x3f;
-                return (result, new >= 0xc0);
+                if !joined {
+                    // break found
+                    return (result, new >= 0xc0);
+                }
             } else {
                 self.state = new;
             }
-- 
2.43.0


From 08b69db5fbd0074f1c24386194103b10429fb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 010/104] fix: case-insensitive search for patterns with
 uppercase non-ASCII letters

---
 rust/rope/src/find.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index b5862ac..dbe85a4 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -119,7 +119,9 @@ pub fn find_progress(
                     find_progress_iter(cursor, lines, pat, scanner, matcher, num_steps)
                 }
                 CaseMatching::CaseInsensitive => {
-                    let pat_lower = pat.to_lowercase();
+                    // codepoint by codepoint, as the text is compared; converting the
+                    // string as a whole would treat a final sigma specially
+                    let pat_lower: String = pat.chars().flat_map(char::to_lowercase).collect();
                     let b = pat_lower.as_bytes()[0];
                     let matcher = compare_cursor_str_casei;
                     if b == b'i' {
@@ -137,7 +139,7 @@ pub fn find_progress(
                         let scanner = |s: &str| memchr(b, s.as_bytes());
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     } else {
-                        let c = pat.chars().next().unwrap();
+                        let c = pat_lower.chars().next().unwrap();
                         let scanner = |s: &str| scan_lowercase(c, s);
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     }
-- 
2.43.0


From 00318388344701e7f5d207b4c26ee447b480e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 011/104] fix: comparison of byte strings read past their end

---
 rust/rope/src/compare.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index fc38331..249d28d 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -104,20 +104,18 @@ pub fn ne_idx_rev(one: &[u8], two: &[u8]) -> Option<usize> {
 pub unsafe fn ne_idx_avx(one: &[u8], two: &[u8]) -> Option<usize> {
     let min_len = one.len().min(two.len());
     let mut idx = 0;
-    while idx < min_len {
-        let stride_len = AVX_STRIDE.min(min_len - idx);
+    while min_len - idx >= AVX_STRIDE {
         let mask = avx_compare_mask(
-            &one.get_unchecked(idx..idx + stride_len),
-            &two.get_unchecked(idx..idx + stride_len),
+            &one.get_unchecked(idx..idx + AVX_STRIDE),
+            &two.get_unchecked(idx..idx + AVX_STRIDE),
         );
-        // at the end of the slice the mask might include garbage bytes, so
-        // we ignore matches that are OOB
-        if mask != 0 && idx + (mask.trailing_zeros() as usize) < min_len {
+        if mask != 0 {
             return Some(idx + mask.trailing_zeros() as usize);
         }
         idx += AVX_STRIDE;
     }
-    None
+    // a load from the remainder would read past the end of the slices
+    ne_idx_fallback(&one[idx..min_len], &two[idx..min_len]).map(|i| idx + i)
 }
 
 #[doc(hidden)]
@@ -126,18 +124,18 @@ pub unsafe fn ne_idx_avx(one: &[u8], two: &[u8]) -> Option<usize> {
 pub unsafe fn ne_idx_sse(one: &[u8], two: &[u8]) -> Option<usize> {
     let min_len = one.len().min(two.len());
     let mut idx = 0;
-    while idx < min_len {
-        let stride_len = SSE_STRIDE.min(min_len - idx);
+    while min_len - idx >= SSE_STRIDE {
         let mask = sse_compare_mask(
-            &one.get_unchecked(idx..idx + stride_len),
-            &two.get_unchecked(idx..idx + stride_len),
+            &one.get_unchecked(idx..idx + SSE_STRIDE),
+            &two.get_unchecked(idx..idx + SSE_STRIDE),
         );
-        if mask != 0 && idx + (mask.trailing_zeros() as usize) < min_len {
+        if mask != 0 {
             return Some(idx + mask.trailing_zeros() as usize);
         }
         idx += SSE_STRIDE;
     }
-    None
+    // a load from the remainder would read past the end of the slices
+    ne_idx_fallback(&one[idx..min_len], &two[idx..min_len]).map(|i| idx + i)
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 08589b319ce056fe1f27f3f1c2fc877155771d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 012/104] fix: message with an invalid id and no method killed
 the read thread

---
 rust/rpc/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/rpc/src/parse.rs b/rust/rpc/src/parse.rs
index 20f833a..fd020d6 100644
--- a/rust/rpc/src/parse.rs
+++ b/rust/rpc/src/parse.rs
@@ -99,10 +99,10 @@ impl RpcObject {
     }
 
     /// Returns `true` if this object looks like an RPC response;
-    /// that is, if it has an 'id' field and does _not_ have a 'method'
+    /// that is, if it has a valid 'id' field and does _not_ have a 'method'
     /// field.
     pub fn is_response(&self) -> bool {
-        self.0.get("id").is_some() && self.0.get("method").is_none()
+        self.get_id().is_some() && self.0.get("method").is_none()
     }
 
     /// Attempts to convert the underlying `Value` into an RPC response
-- 
2.43.0


From 87ffd26bb78611f032ea0149b9a92300a1138c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 013/104] fix: requests sent after the peer disconnected were
 never completed

---
 rust/rpc/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 14d79bd..79cd50f 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -274,8 +274,9 @@ impl<W: Write + Send> RpcLoop<W> {
                         Err(err) => {
                             if self.peer.0.is_blocked.load(Ordering::Acquire) {
                                 error!("failed to parse response json: {}", err);
-                                self.peer.disconnect();
                             }
+                            // no response can arrive from here on
+                            self.peer.disconnect();
                             self.peer.put_rx(Err(err));
                             break;
                         }
@@ -467,6 +468,13 @@ impl<W: Write> RawPeer<W> {
         let id = self.0.id.fetch_add(1, Ordering::Relaxed);
         {
             let mut pending = self.0.pending.lock().unwrap();
+            // checked with the lock held, so that `disconnect` either sees
+            // this request or has already set the flag.
+            if self.needs_exit() {
+                drop(pending);
+                rh.invoke(Err(Error::PeerDisconnect));
+                return;
+            }
             pending.insert(id, rh);
         }
         if let Err(e) = self.send(&json!({
@@ -542,12 +550,12 @@ impl<W: Write> RawPeer<W> {
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
         let mut pending = self.0.pending.lock().unwrap();
+        self.0.needs_exit.store(true, Ordering::Relaxed);
         let ids = pending.keys().cloned().collect::<Vec<_>>();
         for id in &ids {
             let callback = pending.remove(id).unwrap();
             callback.invoke(Err(Error::PeerDisconnect));
         }
-        self.0.needs_exit.store(true, Ordering::Relaxed);
     }
 
     /// Returns `true` if an error has occured in the main thread.
-- 
2.43.0


From ce951ae015cdaff4010a57ac6e63a4a643f3bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 014/104] fix: deadlock when the callback of a failed request
 sends another request

---
 rust/rpc/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 79cd50f..0455da8 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -482,8 +482,9 @@ impl<W: Write> RawPeer<W> {
             "method": method,
             "params": params,
         })) {
-            let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.remove(&id) {
+            // the lock must not be held while the handler runs
+            let handler = self.0.pending.lock().unwrap().remove(&id);
+            if let Some(rh) = handler {
                 rh.invoke(Err(Error::Io(e)));
             }
         }
@@ -549,12 +550,14 @@ impl<W: Write> RawPeer<W> {
 
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
-        let mut pending = self.0.pending.lock().unwrap();
-        self.0.needs_exit.store(true, Ordering::Relaxed);
-        let ids = pending.keys().cloned().collect::<Vec<_>>();
-        for id in &ids {
-            let callback = pending.remove(id).unwrap();
-            callback.invoke(Err(Error::PeerDisconnect));
+        let handlers = {
+            let mut pending = self.0.pending.lock().unwrap();
+            self.0.needs_exit.store(true, Ordering::Relaxed);
+            std::mem::take(&mut *pending)
+        };
+        // the lock must not be held while the handlers run
+        for (_, handler) in handlers {
+            handler.invoke(Err(Error::PeerDisconnect));
         }
     }
 
-- 
2.43.0


From f16580ce4d93a62970a1567407abb61c37cf9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 015/104] fix: lowering the limit of a trace buffer that is not
 full dropped too many samples

---
 rust/trace/src/fixed_lifo_deque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/trace/src/fixed_lifo_deque.rs b/rust/trace/src/fixed_lifo_deque.rs
index cc096e6..cb69d37 100644
--- a/rust/trace/src/fixed_lifo_deque.rs
+++ b/rust/trace/src/fixed_lifo_deque.rs
@@ -59,8 +59,8 @@ impl<T> FixedLifoDeque<T> {
     /// shrinks.
     pub fn reset_limit(&mut self, n: usize) {
         if n < self.limit {
-            let overflow = self.limit - n;
-            self.drop_excess_for_inserting(overflow);
+            let overflow = self.storage.len().saturating_sub(n);
+            self.storage.drain(..overflow);
         }
         self.limit = n;
         self.storage.reserve_exact(n);
-- 
2.43.0


From acc01da217ba1043d4cbaf7e7f5cbf3da94ec578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 016/104] fix: Trace::save wrote the samples of the global
 trace

---
 rust/trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index cea84e6..d9aa68e 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -817,7 +817,8 @@ impl Trace {
         path: P,
         sort: bool,
     ) -> Result<(), chrome_trace_dump::Error> {
-        let traces = if sort { samples_cloned_sorted() } else { samples_cloned_unsorted() };
+        let traces =
+            if sort { self.samples_cloned_sorted() } else { self.samples_cloned_unsorted() };
         let path: &Path = path.as_ref();
 
         if path.exists() {
-- 
2.43.0


From f41ed7e2b3acc575ed5c1f70013441a8c23ade72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 017/104] fix: sample without categories read back with one
 empty category

---
 rust/trace/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index d9aa68e..f9e01bc 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -141,6 +141,9 @@ impl<'de> serde::Deserialize<'de> for CategoriesT {
             where
                 E: serde::de::Error,
             {
+                if v.is_empty() {
+                    return Ok(CategoriesT::DynamicArray(Vec::new()));
+                }
                 let categories = v.split(',').map(ToString::to_string).collect();
                 Ok(CategoriesT::DynamicArray(categories))
             }
-- 
2.43.0


From b0ff863242dd73ba3ce02235148eb130d3c8ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 018/104] fix: reading a trace with an unknown event phase
 panicked

---
 rust/trace/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index f9e01bc..81fd312 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -276,8 +276,8 @@ impl SampleEventType {
     }
 
     #[inline]
-    fn from_chrome_id(symbol: char) -> Self {
-        match symbol {
+    fn from_chrome_id(symbol: char) -> Option<Self> {
+        let event_type = match symbol {
             'B' => SampleEventType::DurationBegin,
             'E' => SampleEventType::DurationEnd,
             'X' => SampleEventType::CompleteDuration,
@@ -292,8 +292,9 @@ impl SampleEventType {
             'O' => SampleEventType::ObjectSnapshot,
             'D' => SampleEventType::ObjectDestroyed,
             'M' => SampleEventType::Metadata,
-            _ => panic!("Unexpected chrome sample type '{}'", symbol),
-        }
+            _ => return None,
+        };
+        Some(event_type)
     }
 }
 
@@ -379,7 +380,10 @@ fn deserialize_event_type<'de, D>(d: D) -> Result<SampleEventType, D::Error>
 where
     D: serde::Deserializer<'de>,
 {
-    serde::Deserialize::deserialize(d).map(SampleEventType::from_chrome_id)
+    let symbol: char = serde::Deserialize::deserialize(d)?;
+    SampleEventType::from_chrome_id(symbol).ok_or_else(|| {
+        serde::de::Error::custom(format!("Unexpected chrome sample type '{}'", symbol))
+    })
 }
 
 /// Stores the relevant data about a sample for later serialization.
-- 
2.43.0


From 0e9cc8cc22ad43f985a01435961a80bc88ef5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 019/104] Verification hooks (cfg xi_verif): drive the core in
 process

---
 rust/core-lib/src/core.rs        |  8 ++++++++
 rust/core-lib/src/plugins/mod.rs |  8 ++++++++
 rust/core-lib/src/tabs.rs        | 10 ++++++++++
 rust/rpc/src/lib.rs              |  8 ++++++++
 4 files changed, 34 insertions(+)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index 9e659eb..fc5a4e3 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -120,6 +120,14 @@ impl Handler for XiCore {
     }
 }
 
+#[cfg(xi_verif)]
+impl XiCore {
+    /// Verification hook: the handle that plugin threads are given.
+    pub fn verif_weak(&self) -> Option<WeakXiCore> {
+        self.weak_self()
+    }
+}
+
 impl WeakXiCore {
     /// Attempts to upgrade the weak reference. Essentially a wrapper
     /// for `Arc::upgrade`.
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 07b2af2..7a87b12 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -161,6 +161,14 @@ impl Plugin {
     }
 }
 
+#[cfg(xi_verif)]
+impl Plugin {
+    /// Verification hook: a plugin reached through any peer.
+    pub fn verif_new(peer: RpcPeer, id: PluginId, name: String, process: Child) -> Self {
+        Plugin { peer, id, name, process }
+    }
+}
+
 pub(crate) fn start_plugin_process(
     plugin_desc: Arc<PluginDescription>,
     id: PluginId,
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85bed50..ac86459 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -992,6 +992,16 @@ impl CoreState {
     }
 }
 
+#[cfg(xi_verif)]
+impl CoreState {
+    /// Verification hook: the (anchor, caret) pairs of a view, in order.
+    pub fn verif_selection(&self, view_id: ViewId) -> Option<Vec<(usize, usize)>> {
+        self.views
+            .get(&view_id)
+            .map(|v| v.borrow().sel_regions().iter().map(|r| (r.start, r.end)).collect())
+    }
+}
+
 pub mod test_helpers {
     use super::{BufferId, ViewId};
 
diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 0455da8..37e81f3 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -402,6 +402,14 @@ impl RpcCtx {
     }
 }
 
+#[cfg(xi_verif)]
+impl RpcCtx {
+    /// Verification hook: a context for driving a `Handler` without a loop.
+    pub fn verif_new(peer: RpcPeer) -> Self {
+        RpcCtx { peer }
+    }
+}
+
 impl<W: Write + Send + 'static> Peer for RawPeer<W> {
     fn box_clone(&self) -> Box<dyn Peer> {
         Box::new((*self).clone())
-- 
2.43.0


From ddbb8f8a0a48050953d594eb2d8142821307549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 020/104] fix: removing, finding and adding selection regions
 at touching ends

---
 rust/core-lib/src/selection.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index acde566..9334254 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -130,7 +130,8 @@ impl Selection {
     pub fn regions_in_range(&self, start: usize, end: usize) -> &[SelRegion] {
         let first = self.search(start);
         let mut last = self.search(end);
-        if last < self.regions.len() && self.regions[last].min() <= end {
+        // two regions can touch at `end`
+        while last < self.regions.len() && self.regions[last].min() <= end {
             last += 1;
         }
         &self.regions[first..last]
@@ -146,13 +147,15 @@ impl Selection {
         if !delete_adjacent && self.regions[first].max() == start {
             first += 1;
         }
-        if last < self.regions.len()
+        while last < self.regions.len()
             && ((delete_adjacent && self.regions[last].min() <= end)
                 || (!delete_adjacent && self.regions[last].min() < end))
         {
             last += 1;
         }
-        remove_n_at(&mut self.regions, first, last - first);
+        if first < last {
+            remove_n_at(&mut self.regions, first, last - first);
+        }
     }
 
     /// Add a region to the selection. This method does not merge regions and does not allow
@@ -166,6 +169,9 @@ impl Selection {
         let mut ix = self.search(region.min());
 
         if ix < self.regions.len() && self.regions[ix].max() == region.min() {
+            if self.regions[ix].is_caret() && region.is_caret() {
+                return (region.min(), region.max());
+            }
             ix += 1;
         }
 
-- 
2.43.0


From 813ae53dcea89e3e79de19326f5e6b64b9d6b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 021/104] fix: iterating an index set from the end when ranges
 lie beyond it

---
 rust/core-lib/src/index_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/index_set.rs b/rust/core-lib/src/index_set.rs
index ddc3635..a02975a 100644
--- a/rust/core-lib/src/index_set.rs
+++ b/rust/core-lib/src/index_set.rs
@@ -118,6 +118,9 @@ impl IndexSet {
         while !ranges.is_empty() && start >= ranges[0].1 {
             ranges = &ranges[1..];
         }
+        while !ranges.is_empty() && end <= ranges[ranges.len() - 1].0 {
+            ranges = &ranges[..ranges.len() - 1];
+        }
         MinusIter { ranges, start, end }
     }
 
-- 
2.43.0


From cb287e4af01863e83e5921c1001852f8ba9d7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 022/104] fix: backspace left the front of a joiner sequence
 with a modified last emoji

---
 rust/core-lib/src/backspace.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/backspace.rs b/rust/core-lib/src/backspace.rs
index 79dc391..4fa64be 100644
--- a/rust/core-lib/src/backspace.rs
+++ b/rust/core-lib/src/backspace.rs
@@ -133,15 +133,19 @@ pub fn offset_for_delete_backwards(region: &SelRegion, text: &Rope, config: &Buf
                         } else {
                             if code_point.is_emoji_modifier_base() {
                                 delete_code_point_count += 1;
+                                state = State::BeforeEmoji;
+                            } else {
+                                state = State::Finished;
                             }
-                            state = State::Finished;
                         }
                     }
                     State::BeforeVSAndEmojiModifier => {
                         if code_point.is_emoji_modifier_base() {
                             delete_code_point_count += last_seen_vs_code_point_count + 1;
+                            state = State::BeforeEmoji;
+                        } else {
+                            state = State::Finished;
                         }
-                        state = State::Finished;
                     }
                     State::BeforeVS => {
                         if code_point.is_emoji() {
-- 
2.43.0


From 1cd25a00cf159541171c7ac03190393d026db947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 023/104] fix: line ending detection looked at one line ending
 per chunk

---
 rust/core-lib/src/line_ending.rs | 34 ++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/line_ending.rs b/rust/core-lib/src/line_ending.rs
index f83f924..1e7095e 100644
--- a/rust/core-lib/src/line_ending.rs
+++ b/rust/core-lib/src/line_ending.rs
@@ -31,19 +31,41 @@ pub enum LineEnding {
 pub struct MixedLineEndingError;
 
 impl LineEnding {
-    /// Breaks a rope down into chunks, and checks each chunk for line endings
+    /// Checks all the line endings of a rope. A pair may be split between two of its chunks.
     pub fn parse(rope: &Rope) -> Result<Option<Self>, MixedLineEndingError> {
         let mut crlf = false;
         let mut lf = false;
+        let mut after_cr = false;
 
         for chunk in rope.iter_chunks(..) {
-            match LineEnding::parse_chunk(&chunk) {
-                Ok(Some(LineEnding::CrLf)) => crlf = true,
-                Ok(Some(LineEnding::Lf)) => lf = true,
-                Ok(None) => (),
-                Err(e) => return Err(e),
+            let bytes = chunk.as_bytes();
+            let mut ix = 0;
+            while ix < bytes.len() {
+                if after_cr {
+                    if bytes[ix] != b'\n' {
+                        return Err(MixedLineEndingError);
+                    }
+                    crlf = true;
+                    after_cr = false;
+                    ix += 1;
+                    continue;
+                }
+                match memchr2(b'\n', b'\r', &bytes[ix..]) {
+                    Some(x) => {
+                        if bytes[ix + x] == b'\r' {
+                            after_cr = true;
+                        } else {
+                            lf = true;
+                        }
+                        ix += x + 1;
+                    }
+                    None => break,
+                }
             }
         }
+        if after_cr {
+            return Err(MixedLineEndingError);
+        }
 
         match (crlf, lf) {
             (true, false) => Ok(Some(LineEnding::CrLf)),
-- 
2.43.0


From 6b068e28229b6788c795fe764e6481915bfb66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 024/104] fix: a regex search that ends before the text does
 never returned

---
 rust/rope/src/find.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index dbe85a4..dafa71d 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -292,10 +292,19 @@ pub fn compare_cursor_regex(
     if is_multiline_regex(pat) {
         // consume all of the text if regex is multi line matching
         text = Cow::from(String::from_iter(lines));
+        if text.is_empty() {
+            // there is nothing left to search
+            cursor.set(cursor.total_len());
+            return None;
+        }
     } else {
         match lines.next() {
             Some(line) => text = line,
-            _ => return None,
+            None => {
+                // there is nothing left to search
+                cursor.set(cursor.total_len());
+                return None;
+            }
         }
     }
 
-- 
2.43.0


From b745af6fd479b987b8aa2a0788fdb20536197039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:56 +0000
Subject: [PATCH 025/104] fix: search left stale and misaligned matches after
 edits and crashed on empty or whole-word matches

---
 rust/core-lib/src/find.rs      | 131 +++++++++++++++------------------
 rust/core-lib/src/selection.rs |   5 ++
 2 files changed, 65 insertions(+), 71 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index ae9e712..1a70148 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -23,9 +23,8 @@ use crate::selection::{InsertDrift, SelRegion, Selection};
 use crate::view::View;
 use crate::word_boundaries::WordCursor;
 use regex::{Regex, RegexBuilder};
-use xi_rope::delta::DeltaRegion;
 use xi_rope::find::{find, is_multiline_regex, CaseMatching};
-use xi_rope::{Cursor, Interval, LinesMetric, Metric, Rope, RopeDelta};
+use xi_rope::{Cursor, Interval, LinesMetric, Rope, RopeDelta};
 
 const REGEX_SIZE_LIMIT: usize = 1000000;
 
@@ -138,56 +137,26 @@ impl Find {
     pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) {
         // update search highlights for changed regions
         if self.search_string.is_some() {
-            // invalidate occurrences around deletion positions
-            for DeltaRegion { old_offset, len, .. } in delta.iter_deletions() {
-                self.occurrences.delete_range(old_offset, old_offset + len, false);
-            }
-
             self.occurrences = self.occurrences.apply_delta(delta, false, InsertDrift::Default);
 
-            // invalidate occurrences around insert positions
-            for DeltaRegion { new_offset, len, .. } in delta.iter_inserts() {
-                // also invalidate previous occurrence since it might expand after insertion
-                // eg. for regex .* every insertion after match will be part of match
-                self.occurrences.delete_range(
-                    new_offset.saturating_sub(1),
-                    new_offset + len,
-                    false,
-                );
-            }
-
-            // update find for the whole delta and everything after
             let (iv, new_len) = delta.summary();
-
-            // get last valid occurrence that was unaffected by the delta
-            let start = match self.occurrences.regions_in_range(0, iv.start()).last() {
-                Some(reg) => reg.end,
-                None => 0,
-            };
-
-            // invalidate all search results from the point of the last valid search result until ...
-            let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
-
-            if is_multiline || self.is_multiline_regex() {
-                // ... the end of the file
-                self.occurrences.delete_range(iv.start(), text.len(), false);
-                self.update_find(text, start, text.len(), false);
+            if self.is_multiline() {
+                // the edit can affect matches anywhere
+                self.update_find(text, 0, text.len(), false);
             } else {
-                // ... the end of the line including line break
-                let mut cursor = Cursor::new(&text, iv.end() + new_len);
-
-                let end_of_line = match cursor.next::<LinesMetric>() {
-                    Some(end) => end,
-                    None if cursor.pos() == text.len() => cursor.pos(),
-                    _ => return,
-                };
-
-                self.occurrences.delete_range(iv.start(), end_of_line, false);
-                self.update_find(text, start, end_of_line, false);
+                // only the lines touched by the edit can be affected
+                let lines = interval_of_lines(text, iv.start(), iv.start() + new_len);
+                self.update_find(text, lines.start(), lines.end(), false);
             }
         }
     }
 
+    /// Returns `true` if matches of the search query can span more than one line.
+    fn is_multiline(&self) -> bool {
+        let has_newline = self.search_string.as_ref().map(|s| s.contains('\n')).unwrap_or(false);
+        has_newline || self.is_multiline_regex()
+    }
+
     /// Returns `true` if the search query is a multi-line regex.
     pub(crate) fn is_multiline_regex(&self) -> bool {
         self.regex.is_some() && is_multiline_regex(self.search_string.as_ref().unwrap())
@@ -261,8 +230,14 @@ impl Find {
         // expand region to be able to find occurrences around the region's edges
         let expanded_start = max(start, slop) - slop;
         let expanded_end = min(end + slop, text.len());
-        let from = text.at_or_prev_codepoint_boundary(expanded_start).unwrap_or(0);
-        let to = text.at_or_next_codepoint_boundary(expanded_end).unwrap_or(text.len());
+        let mut from = text.at_or_prev_codepoint_boundary(expanded_start).unwrap_or(0);
+        let mut to = text.at_or_next_codepoint_boundary(expanded_end).unwrap_or(text.len());
+        if include_slop && self.regex.is_some() && !self.is_multiline() {
+            // the length of a match is not known, but it does not span lines
+            let lines = interval_of_lines(text, from, to);
+            from = lines.start();
+            to = lines.end();
+        }
         let mut to_cursor = Cursor::new(&text, to);
         let _ = to_cursor.next_leaf();
 
@@ -271,6 +246,10 @@ impl Find {
 
         let mut raw_lines = text.lines_raw(from..to);
 
+        // what was found in the region before is found again, if it is still there
+        let whole_text = to == text.len();
+        self.occurrences.retain(|r| r.min() < from || (r.min() >= to && !whole_text));
+
         while let Some(start) = find(
             &mut find_cursor,
             &mut raw_lines,
@@ -278,42 +257,40 @@ impl Find {
             &search_string,
             self.regex.as_ref(),
         ) {
-            let end = find_cursor.pos();
-
-            if self.whole_words && !self.is_matching_whole_words(text, start, end) {
-                raw_lines = text.lines_raw(find_cursor.pos()..to);
-                continue;
+            if start >= to && !whole_text {
+                break;
             }
-
-            let region = SelRegion::new(start, end);
-            let (_, e) = self.occurrences.add_range_distinct(region);
-            // in case of ambiguous search results (e.g. search "aba" in "ababa"),
-            // the search result closer to the beginning of the file wins
-            if e != end {
-                // Skip the search result and keep the occurrence that is closer to
-                // the beginning of the file. Re-align the cursor to the kept
-                // occurrence
-                find_cursor.set(e);
-                raw_lines = text.lines_raw(find_cursor.pos()..to);
-                continue;
+            let end = find_cursor.pos();
+            let mut next = end;
+
+            if !self.whole_words || self.is_matching_whole_words(text, start, end) {
+                let region = SelRegion::new(start, end);
+                // in case of ambiguous search results (e.g. search "aba" in "ababa"),
+                // the search result closer to the beginning of the file wins: continue
+                // after the occurrence that was kept
+                let (_, e) = self.occurrences.add_range_distinct(region);
+                next = e;
             }
 
             // in case current cursor matches search result (for example query a* matches)
             // all cursor positions, then cursor needs to be increased so that search
             // continues at next position. Otherwise, search will result in overflow since
             // search will always repeat at current cursor position.
-            if start == end {
+            if next <= start {
                 // determine whether end of text is reached and stop search or increase
                 // cursor manually
-                if end + 1 >= text.len() {
-                    break;
-                } else {
-                    find_cursor.set(end + 1);
+                match text.next_codepoint_offset(start) {
+                    Some(offset) => next = offset,
+                    None => break,
                 }
             }
+            if next >= to {
+                break;
+            }
+            find_cursor.set(next);
 
             // update line iterator so that line starts at current cursor position
-            raw_lines = text.lines_raw(find_cursor.pos()..to);
+            raw_lines = text.lines_raw(next..to);
         }
 
         self.hls_dirty = true;
@@ -389,8 +366,13 @@ impl Find {
 
     /// Checks if the start and end of a match is matching whole words.
     fn is_matching_whole_words(&self, text: &Rope, start: usize, end: usize) -> bool {
-        let mut word_end_cursor = WordCursor::new(text, end - 1);
-        let mut word_start_cursor = WordCursor::new(text, start + 1);
+        if start == end {
+            return false;
+        }
+        let last = text.prev_codepoint_offset(end).unwrap_or(start);
+        let first = text.next_codepoint_offset(start).unwrap_or(end);
+        let mut word_end_cursor = WordCursor::new(text, last);
+        let mut word_start_cursor = WordCursor::new(text, first);
 
         if let Some(start_boundary) = word_start_cursor.prev_boundary() {
             if start_boundary != start {
@@ -408,6 +390,13 @@ impl Find {
     }
 }
 
+/// The interval of the lines that contain the given range.
+fn interval_of_lines(text: &Rope, start: usize, end: usize) -> Interval {
+    let start_of_line = text.offset_of_line(text.line_of_offset(start));
+    let end_of_line = Cursor::new(&text, end).next::<LinesMetric>().unwrap_or_else(|| text.len());
+    Interval::new(start_of_line, end_of_line)
+}
+
 /// Implementing the `ToAnnotation` trait allows to convert finds to annotations.
 impl ToAnnotation for Find {
     fn get_annotations(&self, interval: Interval, view: &View, text: &Rope) -> AnnotationSlice {
diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index 9334254..ae57379 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -158,6 +158,11 @@ impl Selection {
         }
     }
 
+    /// Keeps only the regions that satisfy the predicate.
+    pub(crate) fn retain<F: FnMut(&SelRegion) -> bool>(&mut self, f: F) {
+        self.regions.retain(f)
+    }
+
     /// Add a region to the selection. This method does not merge regions and does not allow
     /// ambiguous regions (regions that overlap).
     ///
-- 
2.43.0


From 03bee49af3abe480067cb17984e1bdfad513393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 026/104] fix: tab and outdent with several regions, wide tabs
 and mixed indentation

---
 rust/core-lib/src/edit_ops.rs | 78 +++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 075695a..734ef26 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -204,29 +204,35 @@ pub fn insert_newline(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 }
 
 pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
-    let mut builder = DeltaBuilder::new(base.len());
-    let const_tab_text = get_tab_text(config, None);
+    // lines to indent, and regions to replace by the text that reaches the next tab stop
+    let mut lines = BTreeSet::new();
+    let mut edits = Vec::new();
 
     for region in regions {
         let line_range = LogicalLines.get_line_range(base, region);
 
         if line_range.len() > 1 {
-            for line in line_range {
-                let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                let iv = Interval::new(offset, offset);
-                builder.replace(iv, Rope::from(const_tab_text));
-            }
+            lines.extend(line_range);
         } else {
-            let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
-            let mut tab_size = config.tab_size;
-            tab_size = tab_size - (col % tab_size);
-            let tab_text = get_tab_text(config, Some(tab_size));
-
+            let (_, col) = LogicalLines.offset_to_line_col(base, region.min());
+            let tab_size = config.tab_size - (col % config.tab_size);
             let iv = Interval::new(region.min(), region.max());
-            builder.replace(iv, Rope::from(tab_text));
+            edits.push((iv, get_tab_text(config, Some(tab_size))));
         }
     }
 
+    for line in lines {
+        let offset = LogicalLines.line_col_to_offset(base, line, 0);
+        edits.push((Interval::new(offset, offset), get_tab_text(config, None)));
+    }
+    // regions of one line can share it with a region that is indented
+    edits.sort_by_key(|(iv, _)| (iv.start(), iv.end()));
+
+    let mut builder = DeltaBuilder::new(base.len());
+    for (iv, text) in edits {
+        builder.replace(iv, Rope::from(text));
+    }
+
     builder.build()
 }
 
@@ -250,8 +256,8 @@ pub fn modify_indent(
         }
     }
     match direction {
-        IndentDirection::In => indent(base, lines, tab_text),
-        IndentDirection::Out => outdent(base, lines, tab_text),
+        IndentDirection::In => indent(base, lines, &tab_text),
+        IndentDirection::Out => outdent(base, lines, config.tab_size),
     }
 }
 
@@ -265,19 +271,25 @@ fn indent(base: &Rope, lines: BTreeSet<usize>, tab_text: &str) -> RopeDelta {
     builder.build()
 }
 
-fn outdent(base: &Rope, lines: BTreeSet<usize>, tab_text: &str) -> RopeDelta {
+fn outdent(base: &Rope, lines: BTreeSet<usize>, tab_size: usize) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
     for line in lines {
         let offset = LogicalLines.line_col_to_offset(base, line, 0);
-        let tab_offset = LogicalLines.line_col_to_offset(base, line, tab_text.len());
-        let interval = Interval::new(offset, tab_offset);
-        let leading_slice = base.slice_to_cow(interval.start()..interval.end());
-        if leading_slice == tab_text {
-            builder.delete(interval);
-        } else if let Some(first_char_col) = leading_slice.find(|c: char| !c.is_whitespace()) {
-            let first_char_offset = LogicalLines.line_col_to_offset(base, line, first_char_col);
-            let interval = Interval::new(offset, first_char_offset);
-            builder.delete(interval);
+        let mut cursor = Cursor::new(base, offset);
+        // one level is a tab, or spaces up to the tab size
+        let mut end = offset;
+        while end - offset < tab_size {
+            match cursor.next_codepoint() {
+                Some(' ') => end += 1,
+                Some('\t') => {
+                    end += 1;
+                    break;
+                }
+                _ => break,
+            }
+        }
+        if end > offset {
+            builder.delete(Interval::new(offset, end));
         }
     }
     builder.build()
@@ -424,15 +436,11 @@ fn last_selection_region(regions: &[SelRegion]) -> Option<&SelRegion> {
     None
 }
 
-fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> &'static str {
+fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> Cow<'static, str> {
     let tab_size = tab_size.unwrap_or(config.tab_size);
-    let tab_text = if config.translate_tabs_to_spaces { n_spaces(tab_size) } else { "\t" };
-
-    tab_text
-}
-
-fn n_spaces(n: usize) -> &'static str {
-    let spaces = "                                ";
-    assert!(n <= spaces.len());
-    &spaces[..n]
+    if config.translate_tabs_to_spaces {
+        Cow::Owned(" ".repeat(tab_size))
+    } else {
+        Cow::Borrowed("\t")
+    }
 }
-- 
2.43.0


From cd36f8943a7c56812aa827d768c9b1953e27b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 027/104] fix: duplicating the last line added an empty line
 when it ends in a newline

---
 rust/core-lib/src/edit_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 734ef26..22752b7 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -99,7 +99,7 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
         builder.replace(iv, base.slice(start..end));
 
         // last line does not have new line character so it needs to be manually added
-        if end == base.len() {
+        if end == base.len() && base.byte_at(end - 1) != b'\n' {
             builder.replace(iv, Rope::from(&config.line_ending))
         }
     }
-- 
2.43.0


From 68952502366a32510e01af6741f571ed1d1d5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 028/104] fix: backspace with two carets in one sequence
 crashed

---
 rust/core-lib/src/edit_ops.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 22752b7..f7ed032 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -111,16 +111,14 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 pub fn delete_backward(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
     // TODO: this function is workable but probably overall code complexity
     // could be improved by implementing a "backspace" movement instead.
-    let mut builder = DeltaBuilder::new(base.len());
+    // As in `delete_by_movement`, the deletions of different carets can overlap.
+    let mut deletions = Selection::new();
     for region in regions {
         let start = offset_for_delete_backwards(&region, base, &config);
-        let iv = Interval::new(start, region.max());
-        if !iv.is_empty() {
-            builder.delete(iv);
-        }
+        deletions.add_region(SelRegion::new(start, region.max()));
     }
 
-    builder.build()
+    delete_sel_regions(base, &deletions)
 }
 
 /// Common logic for a number of delete methods. For each region in the
-- 
2.43.0


From 7fdddcbff62305ccba64b9d7d8f200d8af27f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 029/104] fix: transposing multi-byte characters at a line end,
 and overlapping transpositions

---
 rust/core-lib/src/edit_ops.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index f7ed032..e51bed9 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -299,9 +299,10 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
     let mut optional_previous_selection: Option<(Interval, Rope)> =
         last_selection_region(regions).map(|&region| sel_region_to_interval_and_rope(base, region));
 
-    for &region in regions {
+    for (ix, &region) in regions.iter().enumerate() {
         if region.is_caret() {
-            let mut middle = region.end;
+            let caret = region.end;
+            let mut middle = caret;
             let mut start = base.prev_grapheme_offset(middle).unwrap_or(0);
             let mut end = base.next_grapheme_offset(middle).unwrap_or(middle);
 
@@ -314,20 +315,28 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
                 if (end == middle || end == end_line_offset) && end != base.len() {
                     middle = start;
                     start = base.prev_grapheme_offset(middle).unwrap_or(0);
-                    end = middle.wrapping_add(1);
+                    end = caret;
                 }
 
-                let interval = Interval::new(start, end);
-                let before = base.slice_to_cow(start..middle);
-                let after = base.slice_to_cow(middle..end);
-                let swapped: String = [after, before].concat();
-                builder.replace(interval, Rope::from(swapped));
-                last = end;
+                // leave alone what another caret or selection transposes
+                let limit = match regions.get(ix + 1) {
+                    Some(next) if !next.is_caret() => next.min(),
+                    _ => base.len(),
+                };
+                if start >= last && end <= limit {
+                    let interval = Interval::new(start, end);
+                    let before = base.slice_to_cow(start..middle);
+                    let after = base.slice_to_cow(middle..end);
+                    let swapped: String = [after, before].concat();
+                    builder.replace(interval, Rope::from(swapped));
+                    last = end;
+                }
             }
         } else if let Some(previous_selection) = optional_previous_selection {
             let current_interval = sel_region_to_interval_and_rope(base, region);
             builder.replace(current_interval.0, previous_selection.1);
             optional_previous_selection = Some(current_interval);
+            last = region.max();
         }
     }
 
-- 
2.43.0


From 3eb39f22effa0d52531aa72ec658eb379d6723e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 030/104] fix: changing a number with several carets in it
 crashed

---
 rust/core-lib/src/edit_ops.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index e51bed9..e1df731 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -377,6 +377,8 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
     transform_function: F,
 ) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
+    // end of the last number that was changed
+    let mut last = 0;
     for region in regions {
         let mut cursor = WordCursor::new(base, region.end);
         let (mut start, end) = cursor.select_word();
@@ -386,10 +388,16 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
             start -= 1;
         }
 
+        if start < last {
+            // several carets at the same number
+            continue;
+        }
+
         let word = base.slice_to_cow(start..end);
         if let Some(number) = word.parse::<i128>().ok().and_then(&transform_function) {
             let interval = Interval::new(start, end);
             builder.replace(interval, Rope::from(number.to_string()));
+            last = end;
         }
     }
 
-- 
2.43.0


From 911c7a7288b6db61a4bc8a8ef8e0649df44d3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 031/104] fix: capitalizing crashed on multi-byte letters and
 changed words outside the selection

---
 rust/core-lib/src/edit_ops.rs | 13 ++++++++++---
 rust/core-lib/src/editor.rs   |  9 +++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index e1df731..b58a522 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -409,25 +409,32 @@ pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Select
     let mut builder = DeltaBuilder::new(base.len());
     let mut final_selection = Selection::new();
 
+    // end of the last word that was capitalized
+    let mut last = 0;
+
     for &region in regions {
         final_selection.add_region(SelRegion::new(region.max(), region.max()));
         let mut word_cursor = WordCursor::new(base, region.min());
+        let mut is_first = true;
 
         loop {
             // capitalize each word in the current selection
             let (start, end) = word_cursor.select_word();
 
-            if start < end {
+            if start < end && start >= last && (is_first || start < region.max()) {
                 let interval = Interval::new(start, end);
                 let word = base.slice_to_cow(start..end);
 
                 // first letter is uppercase, remaining letters are lowercase
-                let (first_char, rest) = word.split_at(1);
+                let first_len = word.chars().next().map(char::len_utf8).unwrap_or(0);
+                let (first_char, rest) = word.split_at(first_len);
                 let capitalized_text = [first_char.to_uppercase(), rest.to_lowercase()].concat();
                 builder.replace(interval, Rope::from(capitalized_text));
+                last = end;
             }
+            is_first = false;
 
-            if word_cursor.next_boundary().is_none() || end > region.max() {
+            if end >= region.max() || word_cursor.next_boundary().is_none() {
                 break;
             }
         }
diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26e4bdb..bc6c828 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -482,15 +482,16 @@ impl Editor {
 
     fn do_capitalize_text(&mut self, view: &mut View) {
         let (delta, final_selection) = edit_ops::capitalize_text(&self.text, view.sel_regions());
-        if !delta.is_identity() {
-            self.this_edit_type = EditType::Other;
-            self.add_delta(delta);
-        }
 
         // at the end of the transformation carets are located at the end of the words that were
         // transformed last in the selections
         view.collapse_selections(&self.text);
         view.set_selection(&self.text, final_selection);
+
+        if !delta.is_identity() {
+            self.this_edit_type = EditType::Other;
+            self.add_delta(delta);
+        }
     }
 
     fn do_modify_indent(&mut self, view: &View, config: &BufferItems, direction: IndentDirection) {
-- 
2.43.0


From 3e1f0e34f5cc4cc27aab7226058b78de1e150036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 032/104] fix: a scroll window without lines crashed

---
 rust/core-lib/src/view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 24283d2..2ca3fc7 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -330,7 +330,7 @@ impl View {
         let first = max(first, 0) as usize;
         let last = max(last, 0) as usize;
         self.first_line = first;
-        self.height = last - first;
+        self.height = last.saturating_sub(first);
     }
 
     pub fn scroll_height(&self) -> usize {
@@ -343,7 +343,7 @@ impl View {
         if line < self.first_line {
             self.first_line = line;
         } else if self.first_line + self.height <= line {
-            self.first_line = line - (self.height - 1);
+            self.first_line = line - self.height.saturating_sub(1);
         }
         // We somewhat arbitrarily choose the last region for setting the old-style
         // selection state, and for scrolling it into view if needed. This choice can
-- 
2.43.0


From 0a6cb22584d0f94a7b380f930ab76493a5971518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 033/104] fix: requesting lines outside the document crashed

---
 rust/core-lib/src/event_context.rs | 2 +-
 rust/core-lib/src/view.rs          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 55df61a..a8a6465 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -170,7 +170,7 @@ impl<'a> EventContext<'a> {
                 ed.get_layers().debug_print_spans(iv);
             }),
             SpecialEvent::RequestLines(LineRange { first, last }) => {
-                self.do_request_lines(first as usize, last as usize)
+                self.do_request_lines(first.max(0) as usize, last.max(0) as usize)
             }
             SpecialEvent::RequestHover { request_id, position } => {
                 self.do_request_hover(request_id, position)
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 2ca3fc7..f5e39ba 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -933,7 +933,8 @@ impl View {
     ) {
         let height = self.line_of_offset(text, text.len()) + 1;
         let mut plan = RenderPlan::create(height, self.first_line, self.height);
-        plan.request_lines(first_line, last_line);
+        let last_line = min(last_line, height);
+        plan.request_lines(min(first_line, last_line), last_line);
         self.send_update_for_plan(text, client, styles, style_spans, &plan, pristine);
     }
 
-- 
2.43.0


From 7256ce72ec5bc232e045469132e8387451e35285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 034/104] fix: splitting a selection into lines dropped its
 last character, also in mid character

---
 rust/core-lib/src/view.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index f5e39ba..332072e 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -546,10 +546,11 @@ impl View {
                 while cursor.pos() < region.max() {
                     let sel_start = cursor.pos();
                     let end_of_line = match cursor.next::<LinesMetric>() {
-                        Some(end) if end >= region.max() => max(0, region.max() - 1),
-                        Some(end) => max(0, end - 1),
-                        None if cursor.pos() == text.len() => cursor.pos(),
-                        _ => break,
+                        // without the line ending
+                        Some(end) if end <= region.max() => {
+                            max(sel_start, text.prev_grapheme_offset(end).unwrap_or(0))
+                        }
+                        _ => region.max(),
                     };
 
                     selection.add_region(SelRegion::new(sel_start, end_of_line));
-- 
2.43.0


From f8483e375e64d656f364ae878144301d24eecedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 035/104] fix: adding a caret below an empty last line crashed

---
 rust/core-lib/src/movement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 210005b..748d5a7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -111,7 +111,7 @@ fn vertical_motion_exact_pos(
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
     // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length - 1 } else { col };
+    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
 
     loop {
         line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
-- 
2.43.0


From 294cbf757003cf645c520de11634486bd93bb9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:47 +0000
Subject: [PATCH 036/104] fix: duplicating a last line without newline did
 nothing, and crashed on an empty document

---
 rust/core-lib/src/edit_ops.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index b58a522..7e6130c 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -88,9 +88,9 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
             }
         };
 
-        if let Some(line_end) = cursor.next::<LinesMetric>() {
-            to_duplicate.insert((line_start, line_end));
-        }
+        // the last line can end without a new line character
+        let line_end = cursor.next::<LinesMetric>().unwrap_or_else(|| base.len());
+        to_duplicate.insert((line_start, line_end));
     }
 
     for (start, end) in to_duplicate {
@@ -99,7 +99,7 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
         builder.replace(iv, base.slice(start..end));
 
         // last line does not have new line character so it needs to be manually added
-        if end == base.len() && base.byte_at(end - 1) != b'\n' {
+        if end == base.len() && (start == end || base.byte_at(end - 1) != b'\n') {
             builder.replace(iv, Rope::from(&config.line_ending))
         }
     }
-- 
2.43.0


From 1409bd6520ff087a7c531d24cbe7124e3f5c4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:47 +0000
Subject: [PATCH 037/104] fix: deleting to the end of a last line without
 newline did nothing, and from inside a CRLF deleted backwards

---
 rust/core-lib/src/movement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 748d5a7..bc607c6 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -267,11 +267,14 @@ pub fn region_movement(
                 offset = next_para_offset;
                 if cursor.is_boundary::<LinesMetric>() {
                     if let Some(eol) = text.prev_grapheme_offset(next_para_offset) {
-                        if eol != r.end {
+                        if eol > r.end {
                             offset = eol;
                         }
                     }
                 }
+            } else {
+                // the last line can end without a new line character
+                offset = text.len();
             }
             (offset, None)
         }
-- 
2.43.0


From a387f7160a8b22662d568485244ee540bb27994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 038/104] fix: requesting no lines sent an operation on zero
 lines

---
 rust/core-lib/src/line_cache_shadow.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 3bbdf4f..8198ac6 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -280,6 +280,9 @@ impl RenderPlan {
 
     /// Upgrade a range of lines to the "Render" tactic.
     pub fn request_lines(&mut self, start: usize, end: usize) {
+        if start >= end {
+            return;
+        }
         let mut spans: Vec<(usize, RenderTactic)> = Vec::new();
         let mut i = 0;
         let mut line_num = 0;
-- 
2.43.0


From 309975b40139d8452904a00446408ae2e3da96ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 039/104] fix: lines not invalidated when an edit finishes
 earlier wrap work

---
 rust/core-lib/src/linewrap.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index badf218..a3ed1f1 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -324,6 +324,7 @@ impl Lines {
             });
         }
 
+        let had_work = !self.work.is_empty();
         let new_task = prev_break..next_hard_break;
         self.add_task(new_task);
 
@@ -332,8 +333,9 @@ impl Lines {
             let summary = self.do_wrap_task(text, width_cache, client, visible_lines, None);
             let WrapSummary { start_line, new_soft, .. } = summary;
             // if we haven't converged after this update we can't do minimal invalidation
-            // because we don't have complete knowledge of the new breaks state.
-            if self.is_converged() {
+            // because we don't have complete knowledge of the new breaks state;
+            // the same goes if earlier work was part of this update.
+            if self.is_converged() && !had_work {
                 let inval_count = old_hard_count + inval_soft;
                 let new_count = new_hard_count + new_soft;
                 Some(InvalLines { start_line, new_count, inval_count })
-- 
2.43.0


From 0d79d0436a819d8d8dfdd91c51256d9edcd22a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 040/104] fix: cursors left or missing in the update stream

---
 rust/core-lib/src/line_cache_shadow.rs |  3 ++-
 rust/core-lib/src/view.rs              | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 8198ac6..e73ba00 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -153,7 +153,8 @@ impl LineCacheShadow {
         let mut clean = true;
         let mut line_num = 0;
         for span in &self.spans {
-            if start < line_num + span.n && end > line_num && (span.validity & invalid) != 0 {
+            // Note: lines that are partially invalid may have been updated since.
+            if start < line_num + span.n && end > line_num && span.validity != INVALID {
                 clean = false;
                 break;
             }
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 332072e..d3e4d61 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -623,7 +623,7 @@ impl View {
         line: VisualLine,
         text: Option<&Rope>,
         style_spans: Option<&Spans<Style>>,
-        last_pos: usize,
+        last_line_start: usize,
     ) -> Value {
         let start_pos = line.interval.start;
         let pos = line.interval.end;
@@ -636,7 +636,7 @@ impl View {
             if (c > start_pos && c < pos)
                 || (!region.is_upstream() && c == start_pos)
                 || (region.is_upstream() && c == pos)
-                || (c == pos && c == last_pos)
+                || (c == pos && start_pos == last_line_start)
             {
                 cursors.push(c - start_pos);
             }
@@ -681,7 +681,8 @@ impl View {
                 style_spans
             ));
         }
-        if !cursors.is_empty() {
+        // in an update of an existing line, a missing cursor property leaves its cursors alone
+        if !cursors.is_empty() || text.is_none() {
             result["cursor"] = json!(cursors);
         }
         if let Some(line_num) = line.line_num {
@@ -793,6 +794,7 @@ impl View {
         let mut b = line_cache_shadow::Builder::new();
         let mut ops = Vec::new();
         let mut line_num = 0; // tracks old line cache
+        let last_line_start = self.offset_of_line(text, self.line_of_offset(text, text.len()));
 
         for seg in self.lc_shadow.iter_with_plan(plan) {
             match seg.tactic {
@@ -842,7 +844,7 @@ impl View {
                                         l,
                                         /* text = */ None,
                                         /* style_spans = */ None,
-                                        text.len(),
+                                        last_line_start,
                                     )
                                 })
                                 .collect::<Vec<_>>();
@@ -851,7 +853,13 @@ impl View {
                                 if logical_line == 0 { None } else { Some(logical_line + 1) };
                             ops.push(UpdateOp::update(encoded_lines, logical_line_opt));
                         }
-                        b.add_span(seg.n, seg.our_line_num, seg.validity);
+                        // the lines of the window are up to date now; rendering them again
+                        // would discard lines that have been requested outside of it
+                        let validity = match seg.tactic {
+                            RenderTactic::Render => line_cache_shadow::ALL_VALID,
+                            _ => seg.validity,
+                        };
+                        b.add_span(seg.n, seg.our_line_num, validity);
                         line_num = seg.their_line_num + seg.n;
                     } else {
                         if seg.tactic == RenderTactic::Preserve {
@@ -870,7 +878,7 @@ impl View {
                                         l,
                                         Some(text),
                                         Some(style_spans),
-                                        text.len(),
+                                        last_line_start,
                                     )
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 131069a0b7fc0e89b034969a2cc31853a4afaff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 041/104] fix: soft break left at the end of the text by a
 deletion

---
 rust/core-lib/src/linewrap.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index a3ed1f1..896c73f 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -312,8 +312,14 @@ impl Lines {
 
         // update soft breaks, adding empty spans in the edited region
         let mut builder = BreakBuilder::new();
-        builder.add_no_break(newlen);
-        self.breaks.edit(iv, builder.build());
+        if newlen == 0 && iv.start > 0 && iv.start == text.len() {
+            // what was a soft break may be the end of the text now; remove it
+            builder.add_no_break(1);
+            self.breaks.edit(Interval::new(iv.start - 1, iv.end), builder.build());
+        } else {
+            builder.add_no_break(newlen);
+            self.breaks.edit(iv, builder.build());
+        }
         self.patchup_tasks(iv, newlen);
 
         if self.wrap == WrapWidth::None {
-- 
2.43.0


From 1839c0497fbca3196fc192b0e6b819b700fd1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 042/104] fix: wrapping left unfinished after a large edit

---
 rust/core-lib/src/event_context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index a8a6465..1b7be9d 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -280,6 +280,9 @@ impl<'a> EventContext<'a> {
         };
 
         self.update_views(&self.editor.borrow(), &delta, &last_text, drift);
+        if self.view.borrow().needs_more_wrap() {
+            self.schedule_rewrap();
+        }
         self.update_plugins(&mut self.editor.borrow_mut(), delta, author);
 
         //if we have no plugins we always render immediately.
-- 
2.43.0


From 8a5b4167008aca895e01fe53a834f3247c373aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 043/104] fix: views with columnar and measured wrapping shared
 cached widths

---
 rust/core-lib/src/linewrap.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index 896c73f..b44b4cd 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -376,8 +376,11 @@ impl Lines {
         debug_assert_eq!(cursor.offset, task.start, "task_start must be valid offset");
 
         let mut ctx = match self.wrap {
-            Bytes(b) => RewrapCtx::new(text, &CodepointMono, b as f64, width_cache, task.start),
-            Width(w) => RewrapCtx::new(text, client, w, width_cache, task.start),
+            Bytes(b) => {
+                let style_id = CODEPOINT_MONO_STYLE;
+                RewrapCtx::new(text, &CodepointMono, style_id, b as f64, width_cache, task.start)
+            }
+            Width(w) => RewrapCtx::new(text, client, N_RESERVED_STYLES, w, width_cache, task.start),
             None => unreachable!(),
         };
 
@@ -481,6 +484,7 @@ struct RewrapCtx<'a> {
     lb_cursor_pos: usize,
     width_cache: &'a mut WidthCache,
     client: &'a dyn WidthMeasure,
+    style_id: usize,
     pot_breaks: Vec<PotentialBreak>,
     /// Index within `pot_breaks`
     pot_break_ix: usize,
@@ -491,11 +495,16 @@ struct RewrapCtx<'a> {
 // RPC overhead becomes significant. More than that, interactivity suffers.
 const MAX_POT_BREAKS: usize = 10_000;
 
+/// Keeps the widths of columnar wrapping apart from measured ones; the cache is
+/// shared by views that may wrap in different ways.
+const CODEPOINT_MONO_STYLE: usize = usize::max_value();
+
 impl<'a> RewrapCtx<'a> {
     fn new(
         text: &'a Rope,
         //_style_spans: &Spans<Style>,  client: &'a T,
         client: &'a dyn WidthMeasure,
+        style_id: usize,
         max_width: f64,
         width_cache: &'a mut WidthCache,
         start: usize,
@@ -508,6 +517,7 @@ impl<'a> RewrapCtx<'a> {
             lb_cursor_pos,
             width_cache,
             client,
+            style_id,
             pot_breaks: Vec::new(),
             pot_break_ix: 0,
             max_width,
@@ -523,7 +533,7 @@ impl<'a> RewrapCtx<'a> {
         while pos < self.text.len() && self.pot_breaks.len() < MAX_POT_BREAKS {
             let (next, hard) = self.lb_cursor.next();
             let word = self.text.slice_to_cow(pos..next);
-            let tok = req.request(N_RESERVED_STYLES, &word);
+            let tok = req.request(self.style_id, &word);
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-- 
2.43.0


From 3333d26ff9218226b44f77d1c7c84e93f8344852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 044/104] fix: killing nothing emptied the kill ring

---
 rust/core-lib/src/editor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index bc6c828..4e9bed3 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -447,10 +447,10 @@ impl Editor {
             view.scroll_height(),
             save,
         );
-        if let Some(rope) = rope {
-            *kill_ring = rope;
-        }
         if !delta.is_identity() {
+            if let Some(rope) = rope {
+                *kill_ring = rope;
+            }
             self.this_edit_type = EditType::Delete;
             self.add_delta(delta);
         }
-- 
2.43.0


From 8e11564ffdc14e0f80f1c12b1382efea3dca5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 045/104] fix: playing nothing discarded the redo path

---
 rust/core-lib/src/editor.rs        | 15 ++++++++++++---
 rust/core-lib/src/event_context.rs |  1 -
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 4e9bed3..44c934d 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -70,6 +70,8 @@ pub struct Editor {
     /// undo groups that are no longer live and should be gc'ed
     gc_undos: BTreeSet<usize>,
     force_undo_group: bool,
+    /// whether the forced group has had an edit yet
+    forced_group_begun: bool,
 
     this_edit_type: EditType,
     last_edit_type: EditType,
@@ -111,6 +113,7 @@ impl Editor {
             undos: BTreeSet::new(),
             gc_undos: BTreeSet::new(),
             force_undo_group: false,
+            forced_group_begun: false,
             last_edit_type: EditType::Other,
             this_edit_type: EditType::Other,
             layers: Layers::default(),
@@ -162,9 +165,11 @@ impl Editor {
     ///
     /// This is used for things such as recording playback, where you don't want the
     /// individual events to be undoable, but instead the entire playback should be.
+    /// The group begins with the first edit, so that nothing happens if there is none.
     pub(crate) fn set_force_undo_group(&mut self, force_undo_group: bool) {
         trace_payload("Editor::set_force_undo_group", &["core"], force_undo_group.to_string());
         self.force_undo_group = force_undo_group;
+        self.forced_group_begun = false;
     }
 
     /// Sets this Editor's contents to `text`, preserving undo state and cursor
@@ -209,10 +214,14 @@ impl Editor {
 
     pub(crate) fn calculate_undo_group(&mut self) -> usize {
         let has_undos = !self.live_undos.is_empty();
-        let force_undo_group = self.force_undo_group;
-        let is_unbroken_group = !self.this_edit_type.breaks_undo_group(self.last_edit_type);
+        let is_unbroken_group = if self.force_undo_group {
+            self.forced_group_begun
+        } else {
+            !self.this_edit_type.breaks_undo_group(self.last_edit_type)
+        };
+        self.forced_group_begun = self.force_undo_group;
 
-        if has_undos && (force_undo_group || is_unbroken_group) {
+        if has_undos && is_unbroken_group {
             *self.live_undos.last().unwrap()
         } else {
             let undo_group = self.undo_group_id;
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 1b7be9d..7ec2808 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -185,7 +185,6 @@ impl<'a> EventContext<'a> {
 
                 // Don't group with the previous action
                 self.editor.borrow_mut().update_edit_type();
-                self.editor.borrow_mut().calculate_undo_group();
 
                 // No matter what, our entire block must belong to the same undo group
                 self.editor.borrow_mut().set_force_undo_group(true);
-- 
2.43.0


From aa92854007469020280c0419e46d938333e6c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 046/104] fix: playback left the edit type and wrapping behind

---
 rust/core-lib/src/event_context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 7ec2808..90d68fa 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -197,7 +197,11 @@ impl<'a> EventContext<'a> {
                         None => return,
                     };
                     self.update_views(&editor, &delta, &last_text, drift);
+                    editor.update_edit_type();
                 });
+                if self.view.borrow().needs_more_wrap() {
+                    self.schedule_rewrap();
+                }
                 self.editor.borrow_mut().set_force_undo_group(false);
 
                 // The action that follows the block must belong to a separate undo group
-- 
2.43.0


From c3085d5c145a177183a0c4ba23dca3b7f3118b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 047/104] fix: inserts merged in a recording did something else

---
 rust/core-lib/src/recorder.rs | 65 +++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/rust/core-lib/src/recorder.rs b/rust/core-lib/src/recorder.rs
index 3afffd4..a77544e 100644
--- a/rust/core-lib/src/recorder.rs
+++ b/rust/core-lib/src/recorder.rs
@@ -25,7 +25,8 @@ use crate::edit_types::{BufferEvent, EventDomain};
 /// A container that manages and holds all recordings for the current editing session
 pub(crate) struct Recorder {
     active_recording: Option<String>,
-    recording_buffer: Vec<EventDomain>,
+    /// The events, each with the lengths of the inserts merged into it.
+    recording_buffer: Vec<(EventDomain, Vec<usize>)>,
     recordings: HashMap<String, Recording>,
 }
 
@@ -78,31 +79,28 @@ impl Recorder {
 
     /// Saves an event into the currently active recording.
     ///
-    /// Every sequential `BufferEvent::Insert` event will be merged together to cut down the number of
-    /// `Editor::commit_delta` calls we need to make when playing back.
+    /// Every sequential `BufferEvent::Insert` event will be merged together, so that an undo in the
+    /// recording undoes them together.
     pub(crate) fn record(&mut self, current_event: EventDomain) {
         assert!(self.is_recording());
 
         let recording_buffer = &mut self.recording_buffer;
 
-        if recording_buffer.last().is_none() {
-            recording_buffer.push(current_event);
-            return;
-        }
-
+        if let (
+            Some((EventDomain::Buffer(BufferEvent::Insert(old_characters)), lengths)),
+            EventDomain::Buffer(BufferEvent::Insert(new_characters)),
+        ) = (recording_buffer.last_mut(), &current_event)
         {
-            let last_event = recording_buffer.last_mut().unwrap();
-            if let (
-                EventDomain::Buffer(BufferEvent::Insert(old_characters)),
-                EventDomain::Buffer(BufferEvent::Insert(new_characters)),
-            ) = (last_event, &current_event)
-            {
-                old_characters.push_str(new_characters);
-                return;
-            }
+            lengths.push(new_characters.len());
+            old_characters.push_str(new_characters);
+            return;
         }
 
-        recording_buffer.push(current_event);
+        let lengths = match &current_event {
+            EventDomain::Buffer(BufferEvent::Insert(characters)) => vec![characters.len()],
+            _ => Vec::new(),
+        };
+        recording_buffer.push((current_event, lengths));
     }
 
     /// Iterates over a specified recording's buffer and runs the specified action
@@ -141,12 +139,12 @@ impl Recorder {
         let mut saw_redo = false;
 
         // Walk the recording backwards and remove any undo / redo events
-        let filtered: Vec<EventDomain> = self
+        let filtered: Vec<(EventDomain, Vec<usize>)> = self
             .recording_buffer
             .clone()
             .into_iter()
             .rev()
-            .filter(|event| {
+            .filter(|(event, _)| {
                 if let EventDomain::Buffer(event) = event {
                     return match event {
                         BufferEvent::Undo => {
@@ -170,7 +168,7 @@ impl Recorder {
 
                 true
             })
-            .collect::<Vec<EventDomain>>()
+            .collect::<Vec<_>>()
             .into_iter()
             .rev()
             .collect();
@@ -183,21 +181,38 @@ impl Recorder {
 
 struct Recording {
     events: Vec<EventDomain>,
+    /// The lengths of the inserts merged into each event.
+    insert_lengths: Vec<Vec<usize>>,
 }
 
 impl Recording {
-    fn new(events: Vec<EventDomain>) -> Recording {
-        Recording { events }
+    fn new(events: Vec<(EventDomain, Vec<usize>)>) -> Recording {
+        let (events, insert_lengths) = events.into_iter().unzip();
+        Recording { events, insert_lengths }
     }
 
     /// Iterates over the recording buffer and runs the specified action
     /// on each event.
-    fn play<F>(&self, action: F)
+    ///
+    /// Merged inserts are run one by one: what an insert does to a selection depends
+    /// on the characters inserted, and decides what the next one applies to.
+    fn play<F>(&self, mut action: F)
     where
         F: FnMut(&EventDomain),
     {
         let _guard = trace_block("Recording::play", &["core", "recording"]);
-        self.events.iter().for_each(action)
+        for (event, lengths) in self.events.iter().zip(&self.insert_lengths) {
+            if let EventDomain::Buffer(BufferEvent::Insert(characters)) = event {
+                let mut rest = characters.as_str();
+                for length in lengths {
+                    let (insert, tail) = rest.split_at(*length);
+                    action(&BufferEvent::Insert(insert.to_owned()).into());
+                    rest = tail;
+                }
+            } else {
+                action(event);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 1e023b80729ed4e091efd827a6b073419cfc451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 048/104] fix: word movement and selection split grapheme
 clusters

---
 rust/core-lib/src/word_boundaries.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/rust/core-lib/src/word_boundaries.rs b/rust/core-lib/src/word_boundaries.rs
index c089e7b..80b34bd 100644
--- a/rust/core-lib/src/word_boundaries.rs
+++ b/rust/core-lib/src/word_boundaries.rs
@@ -27,6 +27,24 @@ impl<'a> WordCursor<'a> {
         WordCursor { inner }
     }
 
+    /// The closest position at or before `pos` that does not split a grapheme cluster.
+    fn snap_left(&self, pos: usize) -> usize {
+        let text = self.inner.root();
+        match text.prev_grapheme_offset(pos) {
+            Some(prev) if text.next_grapheme_offset(prev) != Some(pos) => prev,
+            _ => pos,
+        }
+    }
+
+    /// The closest position at or after `pos` that does not split a grapheme cluster.
+    fn snap_right(&self, pos: usize) -> usize {
+        let text = self.inner.root();
+        match text.prev_grapheme_offset(pos) {
+            Some(prev) => text.next_grapheme_offset(prev).unwrap_or(pos),
+            None => pos,
+        }
+    }
+
     /// Get previous boundary, and set the cursor at the boundary found.
     pub fn prev_boundary(&mut self) -> Option<usize> {
         if let Some(ch) = self.inner.prev_codepoint() {
@@ -40,6 +58,7 @@ impl<'a> WordCursor<'a> {
                 prop = prop_prev;
                 candidate = self.inner.pos();
             }
+            candidate = self.snap_left(candidate);
             self.inner.set(candidate);
             return Some(candidate);
         }
@@ -59,6 +78,7 @@ impl<'a> WordCursor<'a> {
                 prop = prop_next;
                 candidate = self.inner.pos();
             }
+            candidate = self.snap_right(candidate);
             self.inner.set(candidate);
             return Some(candidate);
         }
@@ -126,6 +146,7 @@ impl<'a> WordCursor<'a> {
             prop_before = prop_after;
             prop_after = self.inner.next_codepoint().map(get_word_property);
         }
+        let (start, end) = (self.snap_left(start), self.snap_right(end));
         self.inner.set(end);
         (start, end)
     }
-- 
2.43.0


From 437cfb0cffcee29ad307437f72e17a747c9da427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 049/104] fix: beginning of paragraph left a paragraph already
 at its beginning

---
 rust/core-lib/src/movement.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index bc607c6..ef34da7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -237,8 +237,7 @@ pub fn region_movement(
         Movement::DownExactPosition => vertical_motion_exact_pos(r, lo, text, false, modify),
         Movement::StartOfParagraph => {
             // Note: TextEdit would start at modify ? r.end : r.min()
-            let mut cursor = Cursor::new(&text, r.end);
-            let offset = cursor.prev::<LinesMetric>().unwrap_or(0);
+            let offset = text.offset_of_line(text.line_of_offset(r.end));
             (offset, None)
         }
         Movement::EndOfParagraph => {
-- 
2.43.0


From bf3408cc010e066868064ea139fc941aa6841829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 050/104] fix: adding a selection above or below missed or
 misplaced lines

---
 rust/core-lib/src/movement.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index ef34da7..3c6e2e6 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -14,7 +14,7 @@
 
 //! Representation and calculation of movement within a lineoffset.
 
-use std::cmp::max;
+use std::cmp::{max, min};
 
 use crate::line_offset::LineOffset;
 use crate::selection::{HorizPos, SelRegion, Selection};
@@ -103,27 +103,40 @@ fn vertical_motion_exact_pos(
     let (col, init_line) = selection_position(r, lo, text, move_up, modify);
     let n_lines = lo.line_of_offset(text, text.len());
 
-    let mut line_length =
-        lo.offset_of_line(text, init_line.saturating_add(1)) - lo.offset_of_line(text, init_line);
+    // The greatest column a cursor can have in a line, which is before its line break.
+    let last_col = |line: usize| {
+        let start = lo.offset_of_line(text, line);
+        let next_start = lo.offset_of_line(text, line.saturating_add(1));
+        let end = if line < n_lines {
+            text.prev_grapheme_offset(next_start).unwrap_or(start)
+        } else {
+            text.len()
+        };
+        end.saturating_sub(start)
+    };
+
     if move_up && init_line == 0 {
         return (lo.line_col_to_offset(text, init_line, col), Some(col));
     }
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
-    // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
+    // If the active column is longer than the current line, use the current line length.
+    let col = min(col, last_col(init_line));
 
     loop {
-        line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
+        // If you are trying to add a selection past the end of the file, return original selection
+        if line > n_lines {
+            line = init_line;
+            break;
+        }
 
-        // If the line is longer than the current cursor position, break.
-        // We use > instead of >= because line_length includes newline.
-        if line_length > col {
+        // If the line has the current cursor position, break.
+        if last_col(line) >= col {
             break;
         }
 
-        // If you are trying to add a selection past the end of the file or before the first line, return original selection
-        if line >= n_lines || (line == 0 && move_up) {
+        // If you are trying to add a selection before the first line, return original selection
+        if line == 0 {
             line = init_line;
             break;
         }
-- 
2.43.0


From afaab660fff399c326d22372c80b68ea294ec6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 051/104] fix: a regular expression is matched against its
 line, not against the rest of it

---
 rust/rope/src/find.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index dafa71d..5ab0169 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -19,6 +19,7 @@ use std::cmp::min;
 use memchr::{memchr, memchr2, memchr3};
 
 use crate::rope::BaseMetric;
+use crate::rope::LinesMetric;
 use crate::rope::LinesRaw;
 use crate::rope::RopeInfo;
 use crate::tree::Cursor;
@@ -288,6 +289,9 @@ pub fn compare_cursor_regex(
     }
 
     let text: Cow<str>;
+    // the text that conditions such as the beginning of the line or a word boundary refer to
+    // begins with the line, not at the cursor
+    let context_start: usize;
 
     if is_multiline_regex(pat) {
         // consume all of the text if regex is multi line matching
@@ -297,6 +301,7 @@ pub fn compare_cursor_regex(
             cursor.set(cursor.total_len());
             return None;
         }
+        context_start = orig_position;
     } else {
         match lines.next() {
             Some(line) => text = line,
@@ -306,16 +311,27 @@ pub fn compare_cursor_regex(
                 return None;
             }
         }
+        context_start = cursor.at_or_prev::<LinesMetric>().unwrap_or(0);
+        cursor.set(orig_position);
     }
 
+    let skipped = orig_position - context_start;
+    let context: Cow<str> = if skipped == 0 {
+        Cow::Borrowed(&text)
+    } else {
+        let mut context = String::from(cursor.root().slice_to_cow(context_start..orig_position));
+        context.push_str(&text);
+        Cow::Owned(context)
+    };
+
     // match regex against text
-    match regex.find(&text) {
+    match regex.find_at(&context, skipped) {
         Some(mat) => {
             // calculate start position based on where the match starts
-            let start_position = orig_position + mat.start();
+            let start_position = context_start + mat.start();
 
             // update cursor and set to end of match
-            let end_position = orig_position + mat.end();
+            let end_position = context_start + mat.end();
             cursor.set(end_position);
             Some(start_position)
         }
-- 
2.43.0


From e4447728d96e9f68ede19ccb07194d2f3b432c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 052/104] fix: replacing nothing keeps the selection

---
 rust/core-lib/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 44c934d..7e65486 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -436,7 +436,7 @@ impl Editor {
 
             match last_selection_region(view.sel_regions()) {
                 Some(_) => self.add_delta(edit_ops::insert(&self.text, view.sel_regions(), chars)),
-                None => return,
+                None => view.set_selection(&self.text, old_selection),
             };
         }
     }
-- 
2.43.0


From cf4f033229fd41ddad29eac8ca9957ff3c9c0c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 053/104] fix: empty matches of a search survive edits
 elsewhere

---
 rust/core-lib/src/find.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 1a70148..9f62a3b 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -137,10 +137,12 @@ impl Find {
     pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) {
         // update search highlights for changed regions
         if self.search_string.is_some() {
+            // an empty match next to another one is lost when the matches are moved
+            let has_empty_match = self.occurrences.iter().any(|r| r.is_caret());
             self.occurrences = self.occurrences.apply_delta(delta, false, InsertDrift::Default);
 
             let (iv, new_len) = delta.summary();
-            if self.is_multiline() {
+            if self.is_multiline() || has_empty_match {
                 // the edit can affect matches anywhere
                 self.update_find(text, 0, text.len(), false);
             } else {
-- 
2.43.0


From b650d90b78ad1b48c87b2530d8bbe68dc3acf793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 054/104] fix: finding the next match respects wrap_around and
 allow_same, and several queries

---
 rust/core-lib/src/view.rs | 41 +++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index d3e4d61..5cb7f3d 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1168,10 +1168,8 @@ impl View {
         allow_same: bool,
         modify_selection: &SelectionModifier,
     ) {
-        self.select_next_occurrence(text, reverse, false, allow_same, modify_selection);
-        if self.scroll_to.is_none() && wrap {
-            self.select_next_occurrence(text, reverse, true, allow_same, modify_selection);
-        }
+        // without wrapping around, matches on the other side are not considered
+        self.select_next_occurrence(text, reverse, !wrap, allow_same, modify_selection);
     }
 
     /// Selects all find matches.
@@ -1197,7 +1195,7 @@ impl View {
         text: &Rope,
         reverse: bool,
         wrapped: bool,
-        _allow_same: bool,
+        allow_same: bool,
         modify_selection: &SelectionModifier,
     ) {
         let (cur_start, cur_end) = match self.selection.last() {
@@ -1205,17 +1203,30 @@ impl View {
             _ => (0, 0),
         };
 
+        let current_occurrence = if allow_same && cur_start < cur_end {
+            // the current selection is a valid occurrence
+            self.find
+                .iter()
+                .flat_map(|x| x.occurrences().regions_in_range(cur_start, cur_end))
+                .find(|x| x.min() == cur_start && x.max() == cur_end)
+                .cloned()
+        } else {
+            None
+        };
+
         // multiple queries; select closest occurrence
-        let closest_occurrence = self
-            .find
-            .iter()
-            .flat_map(|x| x.next_occurrence(text, reverse, wrapped, &self.selection))
-            .min_by_key(|x| match reverse {
-                true if x.end > cur_end => 2 * text.len() - x.end,
-                true => cur_end - x.end,
-                false if x.start < cur_start => x.start + text.len(),
-                false => x.start - cur_start,
-            });
+        let closest_occurrence = current_occurrence.or_else(|| {
+            self.find
+                .iter()
+                .flat_map(|x| x.next_occurrence(text, reverse, wrapped, &self.selection))
+                .min_by_key(|x| match reverse {
+                    // on the other side
+                    true if x.start >= cur_start => 2 * text.len() - x.end,
+                    true => cur_end.saturating_sub(x.end),
+                    false if x.end < cur_start => x.start + text.len(),
+                    false => x.start.saturating_sub(cur_start),
+                })
+        });
 
         if let Some(occ) = closest_occurrence {
             match modify_selection {
-- 
2.43.0


From 07e65000e60187147f2313691c105932bd25b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 055/104] fix: find status and highlights are sent when the
 search completes

---
 rust/core-lib/src/view.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 5cb7f3d..b5fabf2 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -769,14 +769,6 @@ impl View {
             .chain(plugin_annotations)
             .collect::<Vec<_>>();
 
-        if !self.lc_shadow.needs_render(plan) {
-            let total_lines = self.line_of_offset(text, text.len()) + 1;
-            let update =
-                Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
-            client.update_view(self.view_id, &update);
-            return;
-        }
-
         // send updated find status only if there have been changes
         if self.find_changed != FindStatusChange::None {
             let matches_only = self.find_changed == FindStatusChange::Matches;
@@ -789,6 +781,15 @@ impl View {
             if let Some(replace) = self.get_replace() {
                 client.replace_status(self.view_id, &json!(replace))
             }
+            self.replace_changed = false;
+        }
+
+        if !self.lc_shadow.needs_render(plan) {
+            let total_lines = self.line_of_offset(text, text.len()) + 1;
+            let update =
+                Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
+            client.update_view(self.view_id, &update);
+            return;
         }
 
         let mut b = line_cache_shadow::Builder::new();
@@ -1015,6 +1016,7 @@ impl View {
             find.update_highlights(text, delta);
             self.find_changed = FindStatusChange::All;
         }
+        self.invalidate_find_highlights(text);
 
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
@@ -1139,10 +1141,7 @@ impl View {
                     }
                 }
             }
-            _ => {
-                self.find_changed = FindStatusChange::None;
-                None
-            }
+            _ => None,
         };
 
         if let Some((search_range_start, search_range_end)) = search_range {
@@ -1156,6 +1155,15 @@ impl View {
                     }
                 }
             }
+            self.invalidate_find_highlights(text);
+        }
+    }
+
+    /// Invalidates the styles of all lines if the highlighted matches may have changed.
+    fn invalidate_find_highlights(&mut self, text: &Rope) {
+        if self.highlight_find && self.find.iter().any(|f| f.hls_dirty()) {
+            let height = self.line_of_offset(text, text.len()) + 1;
+            self.lc_shadow.partial_invalidate(0, height, line_cache_shadow::STYLES_VALID);
         }
     }
 
-- 
2.43.0


From fa92ca2de4eeba8b4bca3429581c075ab10ff40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 056/104] fix: finish a new view with its current config, if it
 is still open

---
 rust/core-lib/src/tabs.rs | 56 +++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index ac86459..69c8f78 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -118,7 +118,7 @@ pub struct CoreState {
     /// it can be passed to plugins.
     self_ref: Option<WeakXiCore>,
     /// Views which need to have setup finished.
-    pending_views: Vec<(ViewId, Table)>,
+    pending_views: Vec<ViewId>,
     peer: Client,
     id_counter: Counter,
     plugins: PluginCatalog,
@@ -377,7 +377,7 @@ impl CoreState {
         self.editors.insert(buffer_id, editor);
         self.views.insert(view_id, view);
 
-        let config = self.config_manager.add_buffer(buffer_id, path.as_deref());
+        self.config_manager.add_buffer(buffer_id, path.as_deref());
 
         // NOTE: because this is a synchronous call, we have to initialize the
         // view and return the view_id before we can send any events to this
@@ -388,7 +388,7 @@ impl CoreState {
         let mut edit_ctx = self.make_context(view_id).unwrap();
         edit_ctx.view_init();
 
-        self.pending_views.push((view_id, config));
+        self.pending_views.push(view_id);
         self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN);
 
         Ok(json!(view_id))
@@ -579,30 +579,36 @@ impl CoreState {
     fn finalize_new_views(&mut self) {
         let to_start = mem::replace(&mut self.pending_views, Vec::new());
 
-        to_start.iter().for_each(|(id, config)| {
-            let modified = self.detect_whitespace(*id, config);
-            let config = modified.as_ref().unwrap_or(config);
-            let mut edit_ctx = self.make_context(*id).unwrap();
-            edit_ctx.finish_init(&config);
+        to_start.iter().for_each(|id| {
+            self.detect_whitespace(*id);
+            // the view can have been closed, and its config can have changed,
+            // since it was created
+            if let Ok(config) = self.do_get_config(*id) {
+                let mut edit_ctx = self.make_context(*id).unwrap();
+                edit_ctx.finish_init(&config);
+            }
         });
     }
 
     // Detects whitespace settings from the file and merges them with the config
-    fn detect_whitespace(&mut self, id: ViewId, config: &Table) -> Option<Table> {
-        let buffer_id = self.views.get(&id).map(|v| v.borrow().get_buffer_id())?;
+    fn detect_whitespace(&mut self, id: ViewId) {
+        let buffer_id = match self.views.get(&id) {
+            Some(v) => v.borrow().get_buffer_id(),
+            None => return,
+        };
         let editor = self
             .editors
             .get(&buffer_id)
             .expect("existing buffer_id must have corresponding editor");
 
         if editor.borrow().get_buffer().is_empty() {
-            return None;
+            return;
         }
 
         let autodetect_whitespace =
             self.config_manager.get_buffer_config(buffer_id).items.autodetect_whitespace;
         if !autodetect_whitespace {
-            return None;
+            return;
         }
 
         let mut changes = Table::new();
@@ -637,25 +643,13 @@ impl CoreState {
             .config_manager
             .set_user_config(ConfigDomain::SysOverride(buffer_id), config_delta)
         {
-            Ok(ref mut items) if !items.is_empty() => {
-                assert!(
-                    items.len() == 1,
-                    "whitespace overrides can only update a single buffer's config\n{:?}",
-                    items
-                );
-                let table = items.remove(0).1;
-                let mut config = config.clone();
-                config.extend(table);
-                Some(config)
-            }
-            Ok(_) => {
-                warn!("set_user_config failed to update config, no tables were returned");
-                None
-            }
-            Err(err) => {
-                warn!("detect_whitespace failed to update config: {:?}", err);
-                None
-            }
+            Ok(ref items) if !items.is_empty() => assert!(
+                items.len() == 1,
+                "whitespace overrides can only update a single buffer's config\n{:?}",
+                items
+            ),
+            Ok(_) => warn!("set_user_config failed to update config, no tables were returned"),
+            Err(err) => warn!("detect_whitespace failed to update config: {:?}", err),
         }
     }
 
-- 
2.43.0


From 0cc86d27c9bccfcc4ad8c57dbe6f82fad6ece7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 057/104] fix: ignore invalid default settings of a language

---
 rust/core-lib/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index b321541..fe97271 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -415,7 +415,13 @@ impl ConfigManager {
         for language in languages.iter() {
             let lang_id = language.name.clone();
             let domain: ConfigDomain = lang_id.into();
-            let default_config = language.default_config.clone();
+            let default_config = language.default_config.clone().filter(|table| {
+                let checked = self.check_table(table);
+                if let Err(e) = checked.as_ref() {
+                    error!("ignoring invalid default config for {:?}: {}", language.name, e);
+                }
+                checked.is_ok()
+            });
             self.configs
                 .entry(domain.clone())
                 .and_modify(|c| *c = c.new_with_base(default_config.clone()))
-- 
2.43.0


From 4fea4b753336a65c2c69915b7677de7c2703ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 058/104] fix: a file saved under an unknown extension is plain
 text

---
 rust/core-lib/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index fe97271..742893d 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -298,7 +298,7 @@ impl ConfigManager {
     /// Panics if `id` does not exist.
     pub(crate) fn update_buffer_path(&mut self, id: BufferId, path: &Path) -> Option<Table> {
         assert!(self.buffer_tags.contains_key(&id));
-        let lang = self.language_for_path(path).unwrap_or_default();
+        let lang = self.language_for_path(path).unwrap_or(LanguageId::from("Plain Text"));
         let has_changed = self.buffer_tags.get_mut(&id).map(|tag| tag.set_detected(lang)).unwrap();
 
         if has_changed {
-- 
2.43.0


From b5f489ca7253c3ae010c2da034096182d2a59c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 059/104] fix: report config keys which have been removed

---
 rust/core-lib/src/config.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index 742893d..be36d1e 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -609,10 +609,17 @@ impl TableStack {
     }
 
     /// Returns a new `Table` containing only those keys and values in `self`
-    /// which have changed from `other`.
+    /// which have changed from `other`. Keys which are no longer present
+    /// in `self` are included with a null value.
     fn diff(&self, other: &TableStack) -> Option<Table> {
         let mut out: Option<Table> = None;
         let this = self.collate();
+        for table in &other.0 {
+            for k in table.keys().filter(|k| !this.contains_key(*k)) {
+                let out: &mut Table = out.get_or_insert(Table::new());
+                out.insert(k.to_owned(), Value::Null);
+            }
+        }
         for (k, v) in this.iter() {
             if other.get(k) != Some(v) {
                 let out: &mut Table = out.get_or_insert(Table::new());
-- 
2.43.0


From 6291c7b15c701ab07f783b945610d8a8aba222bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 060/104] fix: save through a temporary file of its own

---
 rust/core-lib/src/file.rs | 66 ++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 2467780..bce908f 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -17,7 +17,7 @@
 use std::collections::HashMap;
 use std::ffi::OsString;
 use std::fmt;
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 use std::str;
@@ -198,35 +198,19 @@ where
     Ok((rope, info))
 }
 
-#[allow(unused)]
 fn try_save(
     path: &Path,
     text: &Rope,
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<()> {
-    let tmp_extension = path.extension().map_or_else(
-        || OsString::from("swp"),
-        |ext| {
-            let mut ext = ext.to_os_string();
-            ext.push(".swp");
-            ext
-        },
-    );
-    let tmp_path = &path.with_extension(tmp_extension);
-
-    let mut f = File::create(tmp_path)?;
-    match encoding {
-        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
-        CharacterEncoding::Utf8 => (),
-    }
-
-    for chunk in text.iter_chunks(..text.len()) {
-        f.write_all(chunk.as_bytes())?;
+    let (tmp_path, f) = create_tmp_file(path)?;
+    let result = write_text(f, text, encoding).and_then(|()| fs::rename(&tmp_path, path));
+    if let Err(e) = result {
+        let _ = fs::remove_file(&tmp_path);
+        return Err(e);
     }
 
-    fs::rename(tmp_path, path)?;
-
     #[cfg(target_family = "unix")]
     {
         if let Some(info) = file_info {
@@ -240,6 +224,44 @@ fn try_save(
     Ok(())
 }
 
+/// Creates the file which will take the place of the file at `path`,
+/// in the same directory. This is always a new file.
+fn create_tmp_file(path: &Path) -> io::Result<(PathBuf, File)> {
+    if path.file_name().is_none() {
+        return Err(io::Error::new(io::ErrorKind::InvalidInput, "not a file name"));
+    }
+    for i in 0.. {
+        let mut tmp_extension = OsString::new();
+        if let Some(ext) = path.extension() {
+            tmp_extension.push(ext);
+            tmp_extension.push(".");
+        }
+        tmp_extension.push("swp");
+        if i > 0 {
+            tmp_extension.push(i.to_string());
+        }
+        let tmp_path = path.with_extension(tmp_extension);
+
+        match OpenOptions::new().write(true).create_new(true).open(&tmp_path) {
+            Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists => (),
+            result => return result.map(|f| (tmp_path, f)),
+        }
+    }
+    unreachable!()
+}
+
+fn write_text(mut f: File, text: &Rope, encoding: CharacterEncoding) -> io::Result<()> {
+    match encoding {
+        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
+        CharacterEncoding::Utf8 => (),
+    }
+
+    for chunk in text.iter_chunks(..text.len()) {
+        f.write_all(chunk.as_bytes())?;
+    }
+    Ok(())
+}
+
 fn try_decode(bytes: Vec<u8>, encoding: CharacterEncoding, path: &Path) -> Result<Rope, FileError> {
     match encoding {
         CharacterEncoding::Utf8 => Ok(Rope::from(
-- 
2.43.0


From faedaf010dc56dd3875ffb32283eeef209e8539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 061/104] fix: an existing file keeps its permissions when
 saved

---
 rust/core-lib/src/file.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index bce908f..bf3fa48 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -198,30 +198,35 @@ where
     Ok((rope, info))
 }
 
+#[allow(unused)]
 fn try_save(
     path: &Path,
     text: &Rope,
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<()> {
-    let (tmp_path, f) = create_tmp_file(path)?;
-    let result = write_text(f, text, encoding).and_then(|()| fs::rename(&tmp_path, path));
-    if let Err(e) = result {
-        let _ = fs::remove_file(&tmp_path);
-        return Err(e);
-    }
-
+    // an existing file keeps the permissions it has now
     #[cfg(target_family = "unix")]
-    {
-        if let Some(info) = file_info {
-            fs::set_permissions(path, Permissions::from_mode(info.permissions.unwrap_or(0o644)))
-                .unwrap_or_else(|e| {
+    let permissions = fs::metadata(path).ok().map(|meta| meta.permissions()).or_else(|| {
+        file_info.map(|info| Permissions::from_mode(info.permissions.unwrap_or(0o644)))
+    });
+
+    let (tmp_path, f) = create_tmp_file(path)?;
+    let result = write_text(f, text, encoding).and_then(|()| {
+        #[cfg(target_family = "unix")]
+        {
+            if let Some(permissions) = permissions {
+                fs::set_permissions(&tmp_path, permissions).unwrap_or_else(|e| {
                     warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
                 });
+            }
         }
+        fs::rename(&tmp_path, path)
+    });
+    if result.is_err() {
+        let _ = fs::remove_file(&tmp_path);
     }
-
-    Ok(())
+    result
 }
 
 /// Creates the file which will take the place of the file at `path`,
-- 
2.43.0


From dfbbc260ecd2cc0d83de2ff69455df233f14ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 062/104] fix: keep the byte-order mark when saving under
 another name

---
 rust/core-lib/src/file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index bf3fa48..7cecb35 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -138,10 +138,11 @@ impl FileManager {
     }
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
-        try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
+        let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
+        try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
-            encoding: CharacterEncoding::Utf8,
+            encoding,
             path: path.to_owned(),
             mod_time: get_mod_time(path),
             has_changed: false,
-- 
2.43.0


From 383f58996263ac45215b713bbae30006d1b7b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 063/104] fix: render the lines of a view that is not set up
 yet

---
 rust/core-lib/src/event_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 90d68fa..c969e8e 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -395,7 +395,11 @@ impl<'a> EventContext<'a> {
         let wrap_width = self.config.wrap_width;
         let word_wrap = self.config.word_wrap;
 
-        self.with_view(|view, text| view.update_wrap_settings(text, wrap_width, word_wrap));
+        self.with_view(|view, text| {
+            view.update_wrap_settings(text, wrap_width, word_wrap);
+            // the front-end does not have any of the lines yet
+            view.set_dirty(text);
+        });
     }
 
     pub(crate) fn finish_init(&mut self, config: &Table) {
-- 
2.43.0


From 6acd6b5ad7fc859dfcd9ee7b6083ae0bb83465a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 064/104] fix: the line_count and get_selections requests of
 plugins can be decoded

---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/plugins/rpc.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index c969e8e..45a8419 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -263,11 +263,11 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_plugin_cmd_sync(&mut self, _plugin: PluginId, cmd: PluginRequest) -> Value {
         use self::PluginRequest::*;
         match cmd {
-            LineCount => json!(self.editor.borrow().plugin_n_lines()),
+            LineCount {} => json!(self.editor.borrow().plugin_n_lines()),
             GetData { start, unit, max_size, rev } => {
                 json!(self.editor.borrow().plugin_get_data(start, unit, max_size, rev))
             }
-            GetSelections => json!("not implemented"),
+            GetSelections {} => json!("not implemented"),
         }
     }
 
diff --git a/rust/core-lib/src/plugins/rpc.rs b/rust/core-lib/src/plugins/rpc.rs
index 1cd163e..f8fedd0 100644
--- a/rust/core-lib/src/plugins/rpc.rs
+++ b/rust/core-lib/src/plugins/rpc.rs
@@ -178,8 +178,8 @@ pub enum TextUnit {
 /// RPC requests sent from plugins.
 pub enum PluginRequest {
     GetData { start: usize, unit: TextUnit, max_size: usize, rev: u64 },
-    LineCount,
-    GetSelections,
+    LineCount {},
+    GetSelections {},
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
-- 
2.43.0


From a0a24b158539cf692c57d864c5d107362894fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 065/104] fix: give the style layers of an opened file the
 length of its text

---
 rust/core-lib/src/editor.rs | 3 ++-
 rust/core-lib/src/layers.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 7e65486..ebca8b3 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -97,6 +97,7 @@ impl Editor {
     pub fn with_text<T: Into<Rope>>(text: T) -> Editor {
         let engine = Engine::new(text.into());
         let buffer = engine.get_head().clone();
+        let len = buffer.len();
         let last_rev_id = engine.get_head_rev_id();
 
         Editor {
@@ -116,7 +117,7 @@ impl Editor {
             forced_group_begun: false,
             last_edit_type: EditType::Other,
             this_edit_type: EditType::Other,
-            layers: Layers::default(),
+            layers: Layers::new(len),
             revs_in_flight: 0,
             sync_store: None,
             last_synced_rev: last_rev_id,
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index eda38e1..4b4d5cd 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -52,6 +52,11 @@ pub struct ScopeLayer {
 }
 
 impl Layers {
+    /// Creates the layers of a text of the given length.
+    pub fn new(len: usize) -> Self {
+        Layers { merged: SpansBuilder::new(len).build(), ..Layers::default() }
+    }
+
     pub fn get_merged(&self) -> &Spans<Style> {
         &self.merged
     }
-- 
2.43.0


From 0c5609193f6a25f546528a7848c16f6c03006932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 066/104] fix: forget the styles of the old theme when the
 theme changes

---
 rust/core-lib/src/layers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 4b4d5cd..9492f72 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -198,6 +198,7 @@ impl ScopeLayer {
     fn theme_changed(&mut self, style_map: &ThemeStyleMap) {
         // recompute styles with the new theme
         let cur_stacks = self.stack_lookup.clone();
+        self.style_cache.clear();
         self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);
         let iv_all = Interval::new(0, self.style_spans.len());
         self.style_spans = SpansBuilder::new(self.style_spans.len()).build();
-- 
2.43.0


From 612c4b7a2b1aa32ddf74afee0da60eb9424d50fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 067/104] fix: accept an empty stack of scopes from a plugin

---
 rust/core-lib/src/layers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 9492f72..4106fdc 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -246,11 +246,11 @@ impl ScopeLayer {
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-            for i in 0..stack.len() - 1 {
-                let prev_range = 0..stack.len() - (i + 1);
+            for i in 1..stack.len() {
+                let prev_range = 0..stack.len() - i;
                 if let Some(s) = self.style_cache.get(&stack[prev_range]) {
                     last_style = Some(*s);
-                    upper_bound_of_last = stack.len() - (i + 1);
+                    upper_bound_of_last = stack.len() - i;
                     break;
                 }
             }
-- 
2.43.0


From a811437220c522f7c08a280643e90aa457fc27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 068/104] fix: style a stack of scopes of which no shorter
 stack is known

---
 rust/core-lib/src/layers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 4106fdc..efad9b7 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -242,7 +242,7 @@ impl ScopeLayer {
 
         for stack in stacks {
             let mut last_style: Option<StyleModifier> = None;
-            let mut upper_bound_of_last = stack.len() as usize;
+            let mut upper_bound_of_last = 0;
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-- 
2.43.0


From 40bb6f50077c6b9f14d0276e04183f6565f07486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 069/104] fix: keep styles and annotations in place when text
 was inserted at the end of their range

---
 rust/core-lib/src/editor.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index ebca8b3..8bf1c3f 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -626,9 +626,7 @@ impl Editor {
             if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                }
+                spans = spans.transform(start, end_offset, &mut transformer);
                 start = new_start;
                 end_offset = transformer.transform(end_offset, true);
             } else {
@@ -663,9 +661,7 @@ impl Editor {
             if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                }
+                spans = spans.transform(start, end_offset, &mut transformer);
                 start = new_start;
                 end_offset = transformer.transform(end_offset, true);
             } else {
-- 
2.43.0


From 527e25b4558df44db1fe8076e81200640e9d4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 070/104] fix: after an edit, style the edited region of the
 new text, not of the old one

---
 rust/core-lib/src/layers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index efad9b7..a139da8 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -86,8 +86,9 @@ impl Layers {
         for layer in self.layers.values_mut() {
             layer.blank_scopes(delta);
         }
-        let (iv, _len) = delta.summary();
-        self.resolve_styles(iv);
+        let (iv, new_len) = delta.summary();
+        // the edited region, in the new text
+        self.resolve_styles(Interval::new(iv.start(), iv.start() + new_len));
     }
 
     /// Updates the scope spans for a given layer.
-- 
2.43.0


From 4e2c80695f45e0525cbe06bc26eb078e516d52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 071/104] fix: put annotations where the plugin set them, also
 the first ones

---
 rust/core-lib/src/annotations.rs | 46 +++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5143d52..ac5f1d1 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -18,12 +18,13 @@ use serde::de::{Deserialize, Deserializer};
 use serde::ser::{Serialize, SerializeSeq, Serializer};
 use serde_json::{self, Value};
 
+use std::cmp::{max, min};
 use std::collections::HashMap;
 
 use crate::line_offset::LineOffset;
 use crate::plugins::PluginId;
 use crate::view::View;
-use crate::xi_rope::spans::Spans;
+use crate::xi_rope::spans::{Spans, SpansBuilder};
 use crate::xi_rope::{Interval, Rope};
 
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
@@ -92,9 +93,25 @@ pub struct Annotations {
 }
 
 impl Annotations {
-    /// Update the annotations in `interval` with the provided `items`.
+    /// Update the annotations in `interval` with the provided `items`, which are
+    /// relative to its start.
     pub fn update(&mut self, interval: Interval, items: Spans<Value>) {
-        self.items.edit(interval, items);
+        let len = max(self.items.len(), max(interval.end(), interval.start() + items.len()));
+        let mut sb = SpansBuilder::new(len);
+        for (iv, data) in self.items.iter() {
+            if iv.start() < interval.start() {
+                sb.add_span(iv.start()..min(iv.end(), interval.start()), data.clone());
+            }
+        }
+        for (iv, data) in items.iter() {
+            sb.add_span(iv.translate(interval.start()), data.clone());
+        }
+        for (iv, data) in self.items.iter() {
+            if iv.end() > interval.end() {
+                sb.add_span(max(iv.start(), interval.end())..iv.end(), data.clone());
+            }
+        }
+        self.items = sb.build();
     }
 
     /// Remove annotations intersecting `interval`.
@@ -161,19 +178,16 @@ impl AnnotationStore {
 
     /// Applies an update from a plugin to a set of annotations
     pub fn update(&mut self, source: PluginId, interval: Interval, item: Annotations) {
-        if !self.store.contains_key(&source) {
-            self.store.insert(source, vec![item]);
-            return;
-        }
-
-        let entry = self.store.get_mut(&source).unwrap();
-        if let Some(annotation) =
-            entry.iter_mut().find(|a| a.annotation_type == item.annotation_type)
-        {
-            annotation.update(interval, item.items);
-        } else {
-            entry.push(item);
-        }
+        let Annotations { items, annotation_type } = item;
+        let entry = self.store.entry(source).or_insert_with(Vec::new);
+        let ix = match entry.iter().position(|a| a.annotation_type == annotation_type) {
+            Some(ix) => ix,
+            None => {
+                entry.push(Annotations { items: SpansBuilder::new(0).build(), annotation_type });
+                entry.len() - 1
+            }
+        };
+        entry[ix].update(interval, items);
     }
 
     /// Returns an iterator which produces, for each type of annotation,
-- 
2.43.0


From e86769854f111cc60a19ec8cdb5f5628633166ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 072/104] fix: drop the annotations after an insertion or a
 change between them

---
 rust/rope/src/spans.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index be42007..52207a9 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -313,13 +313,9 @@ impl<T: Clone> Spans<T> {
         let mut builder = SpansBuilder::new(self.len());
 
         for (iv, data) in self.iter() {
-            // check if spans overlaps with interval
-            if iv.intersect(interval).is_empty() {
-                // keep the ones that are not overlapping
+            // keep only the spans that lie before the interval
+            if iv.end() <= interval.start() {
                 builder.add_span(iv, data.clone());
-            } else {
-                // all remaining spans are invalid
-                break;
             }
         }
         *self = builder.build();
-- 
2.43.0


From 3a7eb1f6dcbcb5636238a0d1aac4d6a3fd1c6eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 073/104] fix: remove the annotations of a plugin that stops

---
 rust/core-lib/src/annotations.rs   |  7 ++++---
 rust/core-lib/src/event_context.rs | 12 ++++++++----
 rust/core-lib/src/view.rs          |  5 +++++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index ac5f1d1..454fc60 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -229,9 +229,10 @@ impl AnnotationStore {
         })
     }
 
-    /// Removes any annotations provided by this plugin
-    pub fn clear(&mut self, plugin: PluginId) {
-        self.store.remove(&plugin);
+    /// Removes any annotations provided by this plugin,
+    /// and returns whether there were any.
+    pub fn clear(&mut self, plugin: PluginId) -> bool {
+        self.store.remove(&plugin).is_some()
     }
 }
 
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 45a8419..c5f9873 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -249,9 +249,12 @@ impl<'a> EventContext<'a> {
                 self.client.update_status_item(self.view_id, &key, &value)
             }
             UpdateAnnotations { start, len, spans, annotation_type, rev } => {
-                self.with_editor(|ed, view, _, _| {
-                    ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)
-                })
+                // a plugin that was stopped may still have sent some
+                if self.plugins.iter().any(|p| p.id == plugin) {
+                    self.with_editor(|ed, view, _, _| {
+                        ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)
+                    })
+                }
             }
             RemoveStatusItem { key } => self.client.remove_status_item(self.view_id, &key),
             ShowHover { request_id, result } => self.do_show_hover(request_id, result),
@@ -513,11 +516,12 @@ impl<'a> EventContext<'a> {
     pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin) {
         self.client.plugin_stopped(self.view_id, &plugin.name, 0);
         let needs_render = self.with_editor(|ed, view, _, _| {
+            let had_annotations = view.clear_annotations(plugin.id);
             if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                 view.set_dirty(ed.get_buffer());
                 true
             } else {
-                false
+                had_annotations
             }
         });
         if needs_render {
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index b5fabf2..38e377a 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -444,6 +444,11 @@ impl View {
         self.annotations.update(plugin, interval, annotations)
     }
 
+    /// Removes the annotations of a plugin. Returns whether it had any.
+    pub(crate) fn clear_annotations(&mut self, plugin: PluginId) -> bool {
+        self.annotations.clear(plugin)
+    }
+
     /// Select entire buffer.
     ///
     /// Note: unlike movement based selection, this does not scroll.
-- 
2.43.0


From 020cedf3d04fe6b54d441099783e08514fb8ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 074/104] fix: do not deadlock when an update is sent to a
 plugin that has crashed

---
 rust/core-lib/src/event_context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index c5f9873..4efbf6b 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -18,6 +18,7 @@ use std::cell::RefCell;
 use std::iter;
 use std::ops::Range;
 use std::path::Path;
+use std::thread;
 use std::time::{Duration, Instant};
 
 use serde_json::{self, Value};
@@ -353,7 +354,12 @@ impl<'a> EventContext<'a> {
             let id = plugin.id;
             let view_id = self.view_id;
             plugin.update(&update, move |resp| {
-                weak_core.handle_plugin_update(id, view_id, resp);
+                if resp.is_err() {
+                    // a plugin that is gone fails at once, while the core is still locked
+                    thread::spawn(move || weak_core.handle_plugin_update(id, view_id, resp));
+                } else {
+                    weak_core.handle_plugin_update(id, view_id, resp);
+                }
             });
         });
         ed.dec_revs_in_flight();
-- 
2.43.0


From 4bf909987dde16d42ce01f777dec937830fb13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 075/104] fix: a status item of a plugin that is not running
 does not panic the core

---
 rust/core-lib/src/event_context.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 4efbf6b..c88d255 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -243,8 +243,16 @@ impl<'a> EventContext<'a> {
             Edit { edit } => self.with_editor(|ed, _, _, _| ed.apply_plugin_edit(edit)),
             Alert { msg } => self.client.alert(&msg),
             AddStatusItem { key, value, alignment } => {
-                let plugin_name = &self.plugins.iter().find(|p| p.id == plugin).unwrap().name;
-                self.client.add_status_item(self.view_id, plugin_name, &key, &value, &alignment);
+                // a plugin that was stopped may still have sent some
+                if let Some(plugin) = self.plugins.iter().find(|p| p.id == plugin) {
+                    self.client.add_status_item(
+                        self.view_id,
+                        &plugin.name,
+                        &key,
+                        &value,
+                        &alignment,
+                    );
+                }
             }
             UpdateStatusItem { key, value } => {
                 self.client.update_status_item(self.view_id, &key, &value)
-- 
2.43.0


From bcd5fba24d14f0a79c7532f09e73ca3f925ed49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 076/104] fix: ignore a plugin edit that does not fit the text
 instead of panicking

---
 rust/core-lib/src/editor.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 8bf1c3f..f9a5226 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -22,7 +22,7 @@ use xi_rope::diff::{Diff, LineHashDiff};
 use xi_rope::engine::{Engine, RevId, RevToken};
 use xi_rope::rope::count_newlines;
 use xi_rope::spans::SpansBuilder;
-use xi_rope::{DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta, Transformer};
+use xi_rope::{DeltaBuilder, DeltaElement, Interval, LinesMetric, Rope, RopeDelta, Transformer};
 use xi_trace::{trace_block, trace_payload};
 
 use crate::annotations::{AnnotationType, Annotations};
@@ -244,6 +244,13 @@ impl Editor {
         let _t = trace_block("Editor::apply_plugin_edit", &["core"]);
         //TODO: get priority working, so that plugin edits don't necessarily move cursor
         let PluginEdit { rev, delta, priority, undo_group, .. } = edit;
+        match self.get_rev(rev) {
+            Some(ref text) if is_delta_of(&delta, text) => (),
+            _ => {
+                error!("Plugin edit is malformed, or of an unknown revision");
+                return;
+            }
+        }
         let priority = priority as usize;
         let undo_group = undo_group.unwrap_or_else(|| self.calculate_undo_group());
         match self.engine.try_edit_rev(priority, undo_group, rev, delta) {
@@ -715,6 +722,28 @@ impl Editor {
     }
 }
 
+/// Whether `delta`, which comes from a plugin, can be applied to `text`.
+fn is_delta_of(delta: &RopeDelta, text: &Rope) -> bool {
+    let mut last = 0;
+    delta.base_len == text.len()
+        && delta.els.iter().all(|el| match *el {
+            DeltaElement::Copy(beg, end) => {
+                let ok = last <= beg && is_range_of(beg, end, text) && beg < end;
+                last = end;
+                ok
+            }
+            DeltaElement::Insert(_) => true,
+        })
+}
+
+/// Whether `start` and `end` are the bounds of a range of `text`.
+fn is_range_of(start: usize, end: usize, text: &Rope) -> bool {
+    start <= end
+        && end <= text.len()
+        && text.is_codepoint_boundary(start)
+        && text.is_codepoint_boundary(end)
+}
+
 #[derive(PartialEq, Eq, Clone, Copy, Debug, Serialize, Deserialize)]
 #[serde(rename_all = "snake_case")]
 pub enum EditType {
-- 
2.43.0


From 62c0c0233c9e7cb1fd992435a769de8ce14af511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 077/104] fix: ignore styles and annotations that do not fit
 the text instead of panicking

---
 rust/core-lib/src/editor.rs | 35 +++++++++++++++++++++++++++++++++--
 rust/core-lib/src/layers.rs |  7 ++++++-
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index f9a5226..ef6a393 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -621,7 +621,15 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_spans", &["core"]);
-        // TODO: more protection against invalid input
+        match self.get_rev(rev) {
+            Some(ref text)
+                if are_spans_of(start, len, spans.iter().map(|s| (s.start, s.end)), text)
+                    && spans.windows(2).all(|w| w[0].end <= w[1].start) => {}
+            _ => {
+                error!("Plugin styles are malformed, or of an unknown revision");
+                return;
+            }
+        }
         let mut start = start;
         let mut end_offset = start + len;
         let mut sb = SpansBuilder::new(len);
@@ -656,7 +664,19 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_annotations", &["core"]);
-
+        match self.get_rev(rev) {
+            Some(ref text)
+                if are_spans_of(
+                    start,
+                    len,
+                    annotation_spans.iter().map(|s| (s.start, s.end)),
+                    text,
+                ) && annotation_spans.windows(2).all(|w| w[0].start <= w[1].start) => {}
+            _ => {
+                error!("Plugin annotations are malformed, or of an unknown revision");
+                return;
+            }
+        }
         let mut start = start;
         let mut end_offset = start + len;
         let mut sb = SpansBuilder::new(len);
@@ -736,6 +756,17 @@ fn is_delta_of(delta: &RopeDelta, text: &Rope) -> bool {
         })
 }
 
+/// Whether `spans`, which come from a plugin, lie in the `len` bytes of `text` from `start`.
+fn are_spans_of<I>(start: usize, len: usize, mut spans: I, text: &Rope) -> bool
+where
+    I: Iterator<Item = (usize, usize)>,
+{
+    start <= text.len()
+        && len <= text.len() - start
+        && is_range_of(start, start + len, text)
+        && spans.all(|(s, e)| s <= e && e <= len && is_range_of(start + s, start + e, text))
+}
+
 /// Whether `start` and `end` are the bounds of a range of `text`.
 fn is_range_of(start: usize, end: usize, text: &Rope) -> bool {
     start <= end
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index a139da8..87f9568 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -96,7 +96,12 @@ impl Layers {
         if self.create_if_missing(layer).is_err() {
             return;
         }
-        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);
+        let scopes = self.layers.get_mut(&layer).unwrap();
+        if spans.iter().any(|(_, id)| *id as usize >= scopes.style_lookup.len()) {
+            error!("styles of plugin {:?} have an unknown scope", layer);
+            return;
+        }
+        scopes.update_scopes(iv, &spans);
         self.resolve_styles(iv);
     }
 
-- 
2.43.0


From 2e352a5f84f6288828712069303fb22ebe464557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 078/104] verification hook: deliver a notification for an open
 file (cfg xi_verif)

---
 rust/core-lib/src/tabs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 69c8f78..217b219 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -735,6 +735,19 @@ impl CoreState {
         }
     }
 
+    #[cfg(all(xi_verif, feature = "notify"))]
+    #[doc(hidden)]
+    pub fn verif_file_event(&mut self, kind: usize, path: &Path) {
+        use notify::event::*;
+        let kind = match kind {
+            0 => EventKind::Create(CreateKind::Any),
+            1 => EventKind::Modify(ModifyKind::Any),
+            2 => EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any)),
+            _ => EventKind::Remove(RemoveKind::Any),
+        };
+        self.handle_open_file_fs_event(Event::new(kind).add_path(path.to_owned()));
+    }
+
     /// Handles a config related file system event.
     #[cfg(feature = "notify")]
     fn handle_config_fs_event(&mut self, event: Event) {
-- 
2.43.0


From 78b1e6c8a87ec8b9ad9b104c1590ca4fe44e277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 079/104] fix: a file changed on disk is not overwritten by a
 save, whether or not the change was noticed before

---
 rust/core-lib/src/file.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 7cecb35..d12e2ff 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -96,8 +96,9 @@ impl FileManager {
     /// This state is stashed.
     pub fn check_file(&mut self, path: &Path, id: BufferId) -> bool {
         if let Some(info) = self.file_info.get_mut(&id) {
+            // a file which is gone has no contents to lose
             let mod_t = get_mod_time(path);
-            if mod_t != info.mod_time {
+            if mod_t.is_some() && mod_t != info.mod_time {
                 info.has_changed = true
             }
             return info.has_changed;
@@ -163,7 +164,7 @@ impl FileManager {
             self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
-        } else if self.file_info[&id].has_changed {
+        } else if self.check_file(path, id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
@@ -183,6 +184,8 @@ where
     // it's arguable that the rope crate should have file loading functionality
     let mut f =
         File::open(path.as_ref()).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
+    // from before reading: the file may be changed while we read it
+    let mod_time = f.metadata().and_then(|meta| meta.modified()).ok();
     let mut bytes = Vec::new();
     f.read_to_end(&mut bytes).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
 
@@ -190,7 +193,7 @@ where
     let rope = try_decode(bytes, encoding, path.as_ref())?;
     let info = FileInfo {
         encoding,
-        mod_time: get_mod_time(&path),
+        mod_time,
         #[cfg(target_family = "unix")]
         permissions: get_permissions(&path),
         path: path.as_ref().to_owned(),
-- 
2.43.0


From 6a69b6bf7075a7bf959440c9016f1676e8937444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 080/104] fix: a file created since the buffer was opened is
 not overwritten by a save

---
 rust/core-lib/src/file.rs | 40 ++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index d12e2ff..c35b658 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -96,9 +96,12 @@ impl FileManager {
     /// This state is stashed.
     pub fn check_file(&mut self, path: &Path, id: BufferId) -> bool {
         if let Some(info) = self.file_info.get_mut(&id) {
-            // a file which is gone has no contents to lose
             let mod_t = get_mod_time(path);
-            if mod_t.is_some() && mod_t != info.mod_time {
+            if mod_t.is_none() {
+                // a file which is gone has no contents to lose
+                return false;
+            }
+            if mod_t != info.mod_time {
                 info.has_changed = true
             }
             return info.has_changed;
@@ -107,11 +110,11 @@ impl FileManager {
     }
 
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
-        if !path.exists() {
-            return Ok(Rope::from(""));
-        }
-
-        let (rope, info) = try_load_file(path)?;
+        let (rope, info) = if path.exists() {
+            try_load_file(path)?
+        } else {
+            (Rope::from(""), FileInfo::missing(path))
+        };
 
         self.open_files.insert(path.to_owned(), id);
         if self.file_info.insert(id, info).is_none() {
@@ -170,12 +173,31 @@ impl FileManager {
             let encoding = self.file_info[&id].encoding;
             try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
-            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);
+            let info = self.file_info.get_mut(&id).unwrap();
+            info.mod_time = get_mod_time(path);
+            #[cfg(target_family = "unix")]
+            {
+                info.permissions = get_permissions(path);
+            }
         }
         Ok(())
     }
 }
 
+impl FileInfo {
+    /// The info for a file which does not exist (yet).
+    fn missing(path: &Path) -> Self {
+        FileInfo {
+            encoding: CharacterEncoding::Utf8,
+            path: path.to_owned(),
+            mod_time: None,
+            has_changed: false,
+            #[cfg(target_family = "unix")]
+            permissions: None,
+        }
+    }
+}
+
 fn try_load_file<P>(path: P) -> Result<(Rope, FileInfo), FileError>
 where
     P: AsRef<Path>,
@@ -212,7 +234,7 @@ fn try_save(
     // an existing file keeps the permissions it has now
     #[cfg(target_family = "unix")]
     let permissions = fs::metadata(path).ok().map(|meta| meta.permissions()).or_else(|| {
-        file_info.map(|info| Permissions::from_mode(info.permissions.unwrap_or(0o644)))
+        file_info.and_then(|info| info.permissions).map(Permissions::from_mode)
     });
 
     let (tmp_path, f) = create_tmp_file(path)?;
-- 
2.43.0


From be298fa69ac5af975d12bf484b18e36585e98752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 081/104] fix: every buffer of a file takes over a change of
 the file

---
 rust/core-lib/src/file.rs | 51 ++++++++++++++++++++++++---------------
 rust/core-lib/src/tabs.rs | 44 ++++++++++++++++-----------------
 2 files changed, 54 insertions(+), 41 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index c35b658..6a17fc2 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -39,7 +39,6 @@ const UTF8_BOM: &str = "\u{feff}";
 
 /// Tracks all state related to open files.
 pub struct FileManager {
-    open_files: HashMap<PathBuf, BufferId>,
     file_info: HashMap<BufferId, FileInfo>,
     /// A monitor of filesystem events, for things like reloading changed files.
     #[cfg(feature = "notify")]
@@ -71,12 +70,12 @@ pub enum CharacterEncoding {
 impl FileManager {
     #[cfg(feature = "notify")]
     pub fn new(watcher: FileWatcher) -> Self {
-        FileManager { open_files: HashMap::new(), file_info: HashMap::new(), watcher }
+        FileManager { file_info: HashMap::new(), watcher }
     }
 
     #[cfg(not(feature = "notify"))]
     pub fn new() -> Self {
-        FileManager { open_files: HashMap::new(), file_info: HashMap::new() }
+        FileManager { file_info: HashMap::new() }
     }
 
     #[cfg(feature = "notify")]
@@ -88,15 +87,25 @@ impl FileManager {
         self.file_info.get(&id)
     }
 
-    pub fn get_editor(&self, path: &Path) -> Option<BufferId> {
-        self.open_files.get(path).cloned()
+    /// The buffers of the file at `path`, which is a canonical path if it
+    /// comes from the watcher.
+    pub fn get_editors(&self, path: &Path) -> Vec<BufferId> {
+        let is_at_path = |p: &Path| p == path || p.canonicalize().map_or(false, |p| p == path);
+        let mut ids: Vec<_> = self
+            .file_info
+            .iter()
+            .filter(|(_, info)| is_at_path(&info.path))
+            .map(|(id, _)| *id)
+            .collect();
+        ids.sort();
+        ids
     }
 
     /// Returns `true` if this file is open and has changed on disk.
     /// This state is stashed.
-    pub fn check_file(&mut self, path: &Path, id: BufferId) -> bool {
+    pub fn check_file(&mut self, id: BufferId) -> bool {
         if let Some(info) = self.file_info.get_mut(&id) {
-            let mod_t = get_mod_time(path);
+            let mod_t = get_mod_time(&info.path);
             if mod_t.is_none() {
                 // a file which is gone has no contents to lose
                 return false;
@@ -116,17 +125,21 @@ impl FileManager {
             (Rope::from(""), FileInfo::missing(path))
         };
 
-        self.open_files.insert(path.to_owned(), id);
-        if self.file_info.insert(id, info).is_none() {
-            #[cfg(feature = "notify")]
-            self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
-        }
+        self.file_info.insert(id, info);
+        #[cfg(feature = "notify")]
+        self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
         Ok(rope)
     }
 
+    /// Reads the file of an open buffer again.
+    pub fn reload(&mut self, id: BufferId) -> Option<Rope> {
+        let (rope, info) = try_load_file(&self.file_info.get(&id)?.path).ok()?;
+        self.file_info.insert(id, info);
+        Some(rope)
+    }
+
     pub fn close(&mut self, id: BufferId) {
         if let Some(info) = self.file_info.remove(&id) {
-            self.open_files.remove(&info.path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&info.path, OPEN_FILE_EVENT_TOKEN);
         }
@@ -153,7 +166,6 @@ impl FileManager {
             #[cfg(target_family = "unix")]
             permissions: get_permissions(path),
         };
-        self.open_files.insert(path.to_owned(), id);
         self.file_info.insert(id, info);
         #[cfg(feature = "notify")]
         self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
@@ -164,10 +176,9 @@ impl FileManager {
         let prev_path = self.file_info[&id].path.clone();
         if prev_path != path {
             self.save_new(path, text, id)?;
-            self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
-        } else if self.check_file(path, id) {
+        } else if self.check_file(id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
@@ -175,6 +186,7 @@ impl FileManager {
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
             let info = self.file_info.get_mut(&id).unwrap();
             info.mod_time = get_mod_time(path);
+            info.has_changed = false;
             #[cfg(target_family = "unix")]
             {
                 info.permissions = get_permissions(path);
@@ -233,9 +245,10 @@ fn try_save(
 ) -> io::Result<()> {
     // an existing file keeps the permissions it has now
     #[cfg(target_family = "unix")]
-    let permissions = fs::metadata(path).ok().map(|meta| meta.permissions()).or_else(|| {
-        file_info.and_then(|info| info.permissions).map(Permissions::from_mode)
-    });
+    let permissions = fs::metadata(path)
+        .ok()
+        .map(|meta| meta.permissions())
+        .or_else(|| file_info.and_then(|info| info.permissions).map(Permissions::from_mode));
 
     let (tmp_path, f) = create_tmp_file(path)?;
     let result = write_text(f, text, encoding).and_then(|()| {
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 217b219..5c79102 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -703,34 +703,34 @@ impl CoreState {
             EventKind::Create(CreateKind::Any)
             | EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Modify(ModifyKind::Any) => &event.paths[0],
+            // the second path is the new name
+            EventKind::Modify(ModifyKind::Name(RenameMode::Both)) => &event.paths[1],
             other => {
                 debug!("Ignoring event in open file {:?}", other);
                 return;
             }
         };
 
-        let buffer_id = match self.file_manager.get_editor(path) {
-            Some(id) => id,
-            None => return,
-        };
-
-        let has_changes = self.file_manager.check_file(path, buffer_id);
-        let is_pristine = self.editors.get(&buffer_id).map(|ed| ed.borrow().is_pristine()).unwrap();
-        //TODO: currently we only use the file's modification time when
-        // determining if a file has been changed by another process.
-        // A more robust solution would also hash the file's contents.
-
-        if has_changes && is_pristine {
-            if let Ok(text) = self.file_manager.open(path, buffer_id) {
-                // this is ugly; we don't map buffer_id -> view_id anywhere
-                // but we know we must have a view.
-                let view_id = self
-                    .views
-                    .values()
-                    .find(|v| v.borrow().get_buffer_id() == buffer_id)
-                    .map(|v| v.borrow().get_view_id())
-                    .unwrap();
-                self.make_context(view_id).unwrap().reload(text);
+        for buffer_id in self.file_manager.get_editors(path) {
+            let has_changes = self.file_manager.check_file(buffer_id);
+            let is_pristine =
+                self.editors.get(&buffer_id).map_or(false, |ed| ed.borrow().is_pristine());
+            //TODO: currently we only use the file's modification time when
+            // determining if a file has been changed by another process.
+            // A more robust solution would also hash the file's contents.
+
+            if has_changes && is_pristine {
+                if let Some(text) = self.file_manager.reload(buffer_id) {
+                    // this is ugly; we don't map buffer_id -> view_id anywhere
+                    // but we know we must have a view.
+                    let view_id = self
+                        .views
+                        .values()
+                        .find(|v| v.borrow().get_buffer_id() == buffer_id)
+                        .map(|v| v.borrow().get_view_id())
+                        .unwrap();
+                    self.make_context(view_id).unwrap().reload(text);
+                }
             }
         }
     }
-- 
2.43.0


From 39b088ed5065383a465cf953aac575de3f6c2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 082/104] fix: keep watching a file after it is replaced, and
 one that does not exist yet

---
 rust/core-lib/src/watcher.rs | 60 ++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/watcher.rs b/rust/core-lib/src/watcher.rs
index d138a59..766ef1d 100644
--- a/rust/core-lib/src/watcher.rs
+++ b/rust/core-lib/src/watcher.rs
@@ -38,6 +38,7 @@ use crossbeam_channel::unbounded;
 use notify::{event::*, watcher, RecommendedWatcher, RecursiveMode, Watcher};
 use std::collections::VecDeque;
 use std::fmt;
+use std::io;
 use std::mem;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
@@ -105,13 +106,16 @@ impl FileWatcher {
                 let mut state = state_clone.lock().unwrap();
                 let WatcherState { ref mut events, ref mut watchees } = *state;
 
+                let known = events.len();
                 watchees
                     .iter()
                     .filter(|w| w.wants_event(&event))
                     .map(|w| w.token)
                     .for_each(|t| events.push_back((t, event.clone())));
 
-                peer.notify();
+                if events.len() > known {
+                    peer.notify();
+                }
             }
         });
 
@@ -146,8 +150,8 @@ impl FileWatcher {
         token: WatchToken,
         filter: Option<Box<PathFilter>>,
     ) {
-        let path = match path.canonicalize() {
-            Ok(ref p) => p.to_owned(),
+        let path = match canonical_path(path, recursive) {
+            Ok(p) => p,
             Err(e) => {
                 warn!("error watching {:?}: {:?}", path, e);
                 return;
@@ -158,9 +162,10 @@ impl FileWatcher {
 
         let w = Watchee { path, recursive, token, filter };
         let mode = mode_from_bool(w.recursive);
+        let target = w.target();
 
-        if !state.watchees.iter().any(|w2| w.path == w2.path) {
-            if let Err(e) = self.inner.watch(&w.path, mode) {
+        if !state.watchees.iter().any(|w2| w2.covers(target, recursive)) {
+            if let Err(e) = self.inner.watch(target, mode) {
                 warn!("watching error {:?}", e);
             }
         }
@@ -172,14 +177,19 @@ impl FileWatcher {
     /// Does not stop watching this path, if it is associated with
     /// other tokens.
     pub fn unwatch(&mut self, path: &Path, token: WatchToken) {
+        let canonical = canonical_path(path, false).unwrap_or_else(|_| path.to_owned());
         let mut state = self.state.lock().unwrap();
 
-        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);
+        let idx = state
+            .watchees
+            .iter()
+            .position(|w| w.token == token && (w.path == path || w.path == canonical));
 
         if let Some(idx) = idx {
             let removed = state.watchees.remove(idx);
-            if !state.watchees.iter().any(|w| w.path == removed.path) {
-                if let Err(e) = self.inner.unwatch(&removed.path) {
+            let target = removed.target();
+            if !state.watchees.iter().any(|w| w.covers(target, false)) {
+                if let Err(e) = self.inner.unwatch(target) {
                     warn!("unwatching error {:?}", e);
                 }
             }
@@ -201,7 +211,7 @@ impl FileWatcher {
                     .watchees
                     .iter()
                     .filter(|w| w.path.starts_with(&removed.path))
-                    .map(|w| (w.path.to_owned(), mode_from_bool(w.recursive)))
+                    .map(|w| (w.target().to_owned(), mode_from_bool(w.recursive)))
                     .collect::<Vec<_>>();
 
                 for (path, mode) in to_add {
@@ -222,6 +232,26 @@ impl FileWatcher {
 }
 
 impl Watchee {
+    /// The path to watch. For a file this is its directory: a file which
+    /// is written by replacing it, as we do ourselves, would not be watched
+    /// any more after the first time.
+    fn target(&self) -> &Path {
+        if self.recursive || self.path.is_dir() {
+            &self.path
+        } else {
+            self.path.parent().unwrap_or(&self.path)
+        }
+    }
+
+    /// Whether watching our target is enough to watch `target`, too.
+    fn covers(&self, target: &Path, recursive: bool) -> bool {
+        if self.recursive {
+            target.starts_with(&self.path)
+        } else {
+            !recursive && self.target() == target
+        }
+    }
+
     fn wants_event(&self, event: &Event) -> bool {
         match &event.kind {
             EventKind::Create(CreateKind::Any)
@@ -290,6 +320,18 @@ impl fmt::Debug for Watchee {
     }
 }
 
+/// The path under which events for `path`, which may be a file that does
+/// not exist yet, are reported.
+fn canonical_path(path: &Path, recursive: bool) -> io::Result<PathBuf> {
+    path.canonicalize().or_else(|e| match (path.parent(), path.file_name()) {
+        (Some(dir), Some(name)) if !recursive => {
+            let dir = if dir.as_os_str().is_empty() { Path::new(".") } else { dir };
+            dir.canonicalize().map(|dir| dir.join(name))
+        }
+        _ => Err(e),
+    })
+}
+
 fn mode_from_bool(is_recursive: bool) -> RecursiveMode {
     if is_recursive {
         RecursiveMode::Recursive
-- 
2.43.0


From aa5e044933788ed61007cf7921dbdc472eaa97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 083/104] fix: remember the modification time of the file that
 was saved, not that of a later change

---
 rust/core-lib/src/file.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 6a17fc2..1a747f4 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -105,11 +105,12 @@ impl FileManager {
     /// This state is stashed.
     pub fn check_file(&mut self, id: BufferId) -> bool {
         if let Some(info) = self.file_info.get_mut(&id) {
-            let mod_t = get_mod_time(&info.path);
-            if mod_t.is_none() {
+            let mod_t = match fs::metadata(&info.path) {
+                Ok(meta) => meta.modified().ok(),
                 // a file which is gone has no contents to lose
-                return false;
-            }
+                Err(ref e) if e.kind() == io::ErrorKind::NotFound => return false,
+                Err(_) => return true,
+            };
             if mod_t != info.mod_time {
                 info.has_changed = true
             }
@@ -156,12 +157,12 @@ impl FileManager {
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
         let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
-        try_save(path, text, encoding, self.get_info(id))
+        let mod_time = try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
             encoding,
             path: path.to_owned(),
-            mod_time: get_mod_time(path),
+            mod_time,
             has_changed: false,
             #[cfg(target_family = "unix")]
             permissions: get_permissions(path),
@@ -182,10 +183,10 @@ impl FileManager {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
-            try_save(path, text, encoding, self.get_info(id))
+            let mod_time = try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
             let info = self.file_info.get_mut(&id).unwrap();
-            info.mod_time = get_mod_time(path);
+            info.mod_time = mod_time;
             info.has_changed = false;
             #[cfg(target_family = "unix")]
             {
@@ -236,13 +237,15 @@ where
     Ok((rope, info))
 }
 
+/// Replaces the file at `path`, and returns the modification time of the
+/// new file.
 #[allow(unused)]
 fn try_save(
     path: &Path,
     text: &Rope,
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
-) -> io::Result<()> {
+) -> io::Result<Option<SystemTime>> {
     // an existing file keeps the permissions it has now
     #[cfg(target_family = "unix")]
     let permissions = fs::metadata(path)
@@ -260,7 +263,10 @@ fn try_save(
                 });
             }
         }
-        fs::rename(&tmp_path, path)
+        // not asked for afterwards, when it may be that of a change
+        let mod_time = fs::metadata(&tmp_path)?.modified().ok();
+        fs::rename(&tmp_path, path)?;
+        Ok(mod_time)
     });
     if result.is_err() {
         let _ = fs::remove_file(&tmp_path);
@@ -329,12 +335,6 @@ impl CharacterEncoding {
     }
 }
 
-/// Returns the modification timestamp for the file at a given path,
-/// if present.
-fn get_mod_time<P: AsRef<Path>>(path: P) -> Option<SystemTime> {
-    File::open(path).and_then(|f| f.metadata()).and_then(|meta| meta.modified()).ok()
-}
-
 /// Returns the file permissions for the file at a given path on UNIXy systems,
 /// if present.
 #[cfg(target_family = "unix")]
-- 
2.43.0


From f4b21fec30ab3b7b5e38ef03b6c7cbd3cf7dfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 084/104] fix: asking for a region outside the document is an
 error, not an endless loop

---
 rust/plugin-lib/src/base_cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/plugin-lib/src/base_cache.rs b/rust/plugin-lib/src/base_cache.rs
index ba42125..e185237 100644
--- a/rust/plugin-lib/src/base_cache.rs
+++ b/rust/plugin-lib/src/base_cache.rs
@@ -120,6 +120,10 @@ impl Cache for ChunkCache {
         I: IntervalBounds,
     {
         let Interval { start, end } = interval.into_interval(self.buf_size);
+        if end > self.buf_size {
+            return Err(Error::BadRequest);
+        }
+
         if self.contents.is_empty()
             || start < self.offset
             || start >= self.offset + self.contents.len()
-- 
2.43.0


From bf65dbe9d5af890af935533a9f0ae6ad1d26e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 085/104] fix: an edit does not drop the places in a document
 where a plugin has work to do

---
 rust/plugin-lib/src/state_cache.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index dbb1bf7..49262da 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -304,24 +304,18 @@ impl<S: Clone + Default> StateCache<S> {
             0 => 0,
             ix => self.state_cache[ix - 1].line_num,
         };
-        let mut new_frontier = Vec::new();
-        let mut need_push = true;
+        // the first entry after the edit has been moved already
+        let next_line = self.state_cache.get(cache_idx).map(|entry| entry.line_num as isize);
+        let mut new_frontier: Vec<_> =
+            self.frontier.iter().cloned().filter(|old_ln| *old_ln < line_num).collect();
+        // work that was to be done before the next entry will be done from here
+        new_frontier.push(line_num);
         for old_ln in &self.frontier {
-            if *old_ln < line_num {
-                new_frontier.push(*old_ln);
-            } else if need_push {
-                new_frontier.push(line_num);
-                need_push = false;
-                if let Some(ref entry) = self.state_cache.get(cache_idx) {
-                    if *old_ln >= entry.line_num {
-                        new_frontier.push(old_ln.wrapping_add(nl_count_delta as usize));
-                    }
-                }
+            let new_ln = *old_ln as isize + nl_count_delta;
+            if *old_ln > line_num && next_line.map_or(false, |next| new_ln >= next) {
+                new_frontier.push(new_ln as usize);
             }
         }
-        if need_push {
-            new_frontier.push(line_num);
-        }
         self.frontier = new_frontier;
     }
 
-- 
2.43.0


From f0bb6e5e2ff29170c465c77847dd2a4e4832aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 086/104] fix: clearing the states of a plugin clears that of
 the first line, too

---
 rust/plugin-lib/src/state_cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index 49262da..6771513 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -327,6 +327,8 @@ impl<S: Clone + Default> StateCache<S> {
     /// Clear all state and reset frontier to start.
     pub fn reset(&mut self) {
         self.truncate_cache(0);
+        // there may be a state of the first line
+        self.state_cache.clear();
     }
 
     /// The frontier keeps track of work needing to be done. A typical
-- 
2.43.0


From f7e21f02dc5cbca9ad30237f9474fbdefb841c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 087/104] fix: a mouse action of any other length than 3 or 4
 is refused, one without click count encodes as it decodes

---
 rust/core-lib/src/rpc.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/rpc.rs b/rust/core-lib/src/rpc.rs
index 1ffdfeb..1659fbf 100644
--- a/rust/core-lib/src/rpc.rs
+++ b/rust/core-lib/src/rpc.rs
@@ -598,11 +598,11 @@ impl Serialize for MouseAction {
     where
         S: Serializer,
     {
-        #[derive(Serialize)]
-        struct Helper(u64, u64, u64, Option<u64>);
-
-        let as_tup = Helper(self.line, self.column, self.flags, self.click_count);
-        as_tup.serialize(serializer)
+        // the click count is left out when there is none
+        match self.click_count {
+            Some(n) => (self.line, self.column, self.flags, n).serialize(serializer),
+            None => (self.line, self.column, self.flags).serialize(serializer),
+        }
     }
 }
 
@@ -612,7 +612,11 @@ impl<'de> Deserialize<'de> for MouseAction {
         D: Deserializer<'de>,
     {
         let v: Vec<u64> = Vec::deserialize(deserializer)?;
-        let click_count = if v.len() == 4 { Some(v[3]) } else { None };
+        let click_count = match v.len() {
+            3 => None,
+            4 => Some(v[3]),
+            n => return Err(de::Error::invalid_length(n, &"an array of 3 or 4 numbers")),
+        };
         Ok(MouseAction { line: v[0], column: v[1], flags: v[2], click_count })
     }
 }
-- 
2.43.0


From 6aa5af6ceaece4992ef38b478c0915a8c9b0f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 088/104] fix: a language server is told of edits by places in
 the document it has, and of documents once it is initialized

---
 rust/lsp-lib/src/conversion_utils.rs       | 10 +++
 rust/lsp-lib/src/language_server_client.rs | 66 +++++++++++++--
 rust/lsp-lib/src/lsp_plugin.rs             | 49 ++++++-----
 rust/lsp-lib/src/utils.rs                  | 98 +++++++---------------
 4 files changed, 132 insertions(+), 91 deletions(-)

diff --git a/rust/lsp-lib/src/conversion_utils.rs b/rust/lsp-lib/src/conversion_utils.rs
index a9855a7..4625495 100644
--- a/rust/lsp-lib/src/conversion_utils.rs
+++ b/rust/lsp-lib/src/conversion_utils.rs
@@ -18,6 +18,7 @@
 use crate::lsp_types::*;
 use crate::types::LanguageResponseError;
 use xi_plugin_lib::{Cache, Error as PluginLibError, Hover as CoreHover, Range as CoreRange, View};
+use xi_rope::Rope;
 
 pub(crate) fn marked_string_to_string(marked_string: &MarkedString) -> String {
     match *marked_string {
@@ -71,6 +72,15 @@ pub(crate) fn get_position_of_offset<C: Cache>(
     Ok(Position { line: line_num as u64, character: char_offset as u64 })
 }
 
+/// Get LSP Style Utf-16 based position of an offset in a document
+pub(crate) fn get_position_in_document(document: &Rope, offset: usize) -> Position {
+    let line_num = document.line_of_offset(offset);
+    let line_offset = document.offset_of_line(line_num);
+    let char_offset = count_utf16(&document.slice_to_cow(line_offset..offset));
+
+    Position { line: line_num as u64, character: char_offset as u64 }
+}
+
 pub(crate) fn offset_of_position<C: Cache>(
     view: &mut View<C>,
     position: Position,
diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index c0db1ef..e9e3f42 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -22,6 +22,7 @@ use jsonrpc_lite::{Error, Id, JsonRpc, Params};
 use serde_json::{to_value, Value};
 use url::Url;
 use xi_plugin_lib::CoreProxy;
+use xi_rope::Rope;
 
 use crate::lsp_types::*;
 use crate::result_queue::ResultQueue;
@@ -38,6 +39,9 @@ pub struct LanguageServerClient {
     pub status_items: HashSet<String>,
     pub core: CoreProxy,
     pub is_initialized: bool,
+    is_initialize_sent: bool,
+    /// Documents the server is to be told about when it is initialized
+    waiting_documents: HashMap<ViewId, (Url, Rope)>,
     pub opened_documents: HashMap<ViewId, Url>,
     pub server_capabilities: Option<ServerCapabilities>,
     pub file_extensions: Vec<String>,
@@ -72,6 +76,8 @@ impl LanguageServerClient {
             pending: HashMap::new(),
             next_id: 1,
             is_initialized: false,
+            is_initialize_sent: false,
+            waiting_documents: HashMap::new(),
             core,
             result_queue,
             status_items: HashSet::new(),
@@ -204,6 +210,51 @@ impl LanguageServerClient {
         self.send_request("initialize", params, Box::new(on_init));
     }
 
+    /// Initialize the server, unless that has been done or is under way
+    pub fn initialize(&mut self, root_uri: Option<Url>) {
+        if self.is_initialize_sent {
+            return;
+        }
+        self.is_initialize_sent = true;
+
+        self.send_initialize(root_uri, |ls_client, result| {
+            if let Ok(result) = result {
+                let init_result: InitializeResult = serde_json::from_value(result).unwrap();
+
+                debug!("Init Result: {:?}", init_result);
+
+                ls_client.server_capabilities = Some(init_result.capabilities);
+                ls_client.is_initialized = true;
+
+                let documents = std::mem::take(&mut ls_client.waiting_documents);
+                for (view_id, (uri, document)) in documents {
+                    ls_client.send_did_open(view_id, uri, String::from(document));
+                }
+            }
+        });
+    }
+
+    /// Open a document, as soon as the server is initialized
+    pub fn open_document(&mut self, view_id: ViewId, document_uri: Url, document: Rope) {
+        if self.is_initialized {
+            self.send_did_open(view_id, document_uri, String::from(document));
+        } else {
+            self.waiting_documents.insert(view_id, (document_uri, document));
+        }
+    }
+
+    /// `false` if the server does not know the document (yet)
+    pub fn is_open(&self, view_id: ViewId) -> bool {
+        self.opened_documents.contains_key(&view_id)
+    }
+
+    /// Replace the text of a document which has not been opened yet
+    pub fn set_waiting_document(&mut self, view_id: ViewId, document: Rope) {
+        if let Some((_, waiting)) = self.waiting_documents.get_mut(&view_id) {
+            *waiting = document;
+        }
+    }
+
     /// Send textDocument/didOpen Notification to the Language Server
     pub fn send_did_open(&mut self, view_id: ViewId, document_uri: Url, document_text: String) {
         self.opened_documents.insert(view_id, document_uri.clone());
@@ -223,14 +274,16 @@ impl LanguageServerClient {
 
     /// Send textDocument/didClose Notification to the Language Server
     pub fn send_did_close(&mut self, view_id: ViewId) {
-        let uri = self.opened_documents[&view_id].clone();
+        self.waiting_documents.remove(&view_id);
+        let uri = match self.opened_documents.remove(&view_id) {
+            Some(uri) => uri,
+            None => return,
+        };
         let text_document_did_close_params =
             DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri } };
 
         let params = Params::from(serde_json::to_value(text_document_did_close_params).unwrap());
         self.send_notification("textDocument/didClose", params);
-
-        self.opened_documents.remove(&view_id);
     }
 
     /// Send textDocument/didChange Notification to the Language Server
@@ -256,9 +309,12 @@ impl LanguageServerClient {
     pub fn send_did_save(&mut self, view_id: ViewId, _document_text: &str) {
         // Add support for sending document text as well. Currently missing in LSP types
         // and is optional in LSP Specification
-        let text_document_did_save_params = DidSaveTextDocumentParams {
-            text_document: TextDocumentIdentifier { uri: self.opened_documents[&view_id].clone() },
+        let uri = match self.opened_documents.get(&view_id) {
+            Some(uri) => uri.clone(),
+            None => return,
         };
+        let text_document_did_save_params =
+            DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri } };
         let params = Params::from(serde_json::to_value(text_document_did_save_params).unwrap());
         self.send_notification("textDocument/didSave", params);
     }
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index d05122c..20df16e 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -20,7 +20,7 @@ use std::sync::{Arc, Mutex};
 
 use url::Url;
 use xi_plugin_lib::{ChunkCache, CoreProxy, Plugin, View};
-use xi_rope::rope::RopeDelta;
+use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
 use crate::language_server_client::LanguageServerClient;
@@ -33,6 +33,7 @@ use crate::xi_core::{ConfigTable, ViewId};
 pub struct ViewInfo {
     version: u64,
     ls_identifier: String,
+    document: Rope,
 }
 
 /// Represents the state of the Language Server Plugin
@@ -72,14 +73,27 @@ impl Plugin for LspPlugin {
     ) {
         let view_info = self.view_info.get_mut(&view.get_id());
         if let Some(view_info) = view_info {
+            let document = match delta {
+                Some(delta) => delta.apply(&view_info.document),
+                None => Rope::from(view.get_document().unwrap()),
+            };
+            let old_document = std::mem::replace(&mut view_info.document, document);
+
             // This won't fail since we definitely have a client for the given
             // client identifier
             let ls_client = &self.language_server_clients[&view_info.ls_identifier];
             let mut ls_client = ls_client.lock().unwrap();
 
+            if !ls_client.is_open(view.get_id()) {
+                ls_client.set_waiting_document(view.get_id(), view_info.document.clone());
+                return;
+            }
+
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
-            if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta) {
+            if let Some(changes) =
+                get_change_for_sync_kind(sync_kind, delta, &old_document, &view_info.document)
+            {
                 ls_client.send_did_change(view.get_id(), changes, view_info.version);
             }
         }
@@ -100,6 +114,7 @@ impl Plugin for LspPlugin {
         self.with_language_server_for_view(view, |ls_client| {
             ls_client.send_did_close(view.get_id());
         });
+        self.view_info.remove(&view.get_id());
     }
 
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
@@ -127,28 +142,17 @@ impl Plugin for LspPlugin {
             let result = self.get_lsclient_from_workspace_root(&language_id, &workspace_root_uri);
 
             if let Some((identifier, ls_client)) = result {
-                self.view_info
-                    .insert(view.get_id(), ViewInfo { version: 0, ls_identifier: identifier });
+                let document = Rope::from(document_text);
+                self.view_info.insert(
+                    view.get_id(),
+                    ViewInfo { version: 0, ls_identifier: identifier, document: document.clone() },
+                );
                 let mut ls_client = ls_client.lock().unwrap();
 
                 let document_uri = Url::from_file_path(path).unwrap();
 
-                if !ls_client.is_initialized {
-                    ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
-                        if let Ok(result) = result {
-                            let init_result: InitializeResult =
-                                serde_json::from_value(result).unwrap();
-
-                            debug!("Init Result: {:?}", init_result);
-
-                            ls_client.server_capabilities = Some(init_result.capabilities);
-                            ls_client.is_initialized = true;
-                            ls_client.send_did_open(view_id, document_uri, document_text);
-                        }
-                    });
-                } else {
-                    ls_client.send_did_open(view_id, document_uri, document_text);
-                }
+                ls_client.initialize(workspace_root_uri);
+                ls_client.open_document(view_id, document_uri, document);
             }
         }
     }
@@ -160,6 +164,11 @@ impl Plugin for LspPlugin {
         let position_ls = get_position_of_offset(view, position);
 
         self.with_language_server_for_view(view, |ls_client| match position_ls {
+            Ok(_) if !ls_client.is_open(view_id) => {
+                let err = LanguageResponseError::LanguageServerError("not initialized".to_owned());
+                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err)));
+                ls_client.core.schedule_idle(view_id);
+            }
             Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index 8537d21..3240746 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -19,8 +19,8 @@ use std::process::{Command, Stdio};
 use std::sync::{Arc, Mutex};
 
 use url::Url;
-use xi_plugin_lib::{Cache, ChunkCache, CoreProxy, Error as PluginLibError, View};
-use xi_rope::rope::RopeDelta;
+use xi_plugin_lib::CoreProxy;
+use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
 use crate::language_server_client::LanguageServerClient;
@@ -30,97 +30,63 @@ use crate::result_queue::ResultQueue;
 use crate::types::Error;
 
 /// Get contents changes of a document modeled according to Language Server Protocol
-/// given the RopeDelta
-pub fn get_document_content_changes<C: Cache>(
+/// given the RopeDelta and the document before and after it
+pub fn get_document_content_changes(
     delta: Option<&RopeDelta>,
-    view: &mut View<C>,
-) -> Result<Vec<TextDocumentContentChangeEvent>, PluginLibError> {
+    old: &Rope,
+    new: &Rope,
+) -> Vec<TextDocumentContentChangeEvent> {
     if let Some(delta) = delta {
         let (interval, _) = delta.summary();
         let (start, end) = interval.start_end();
 
         // TODO: Handle more trivial cases like typing when there's a selection or transpose
-        if let Some(node) = delta.as_simple_insert() {
-            let text = String::from(node);
-
-            let (start, end) = interval.start_end();
-            let text_document_content_change_event = TextDocumentContentChangeEvent {
-                range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
-                    end: get_position_of_offset(view, end)?,
-                }),
-                range_length: Some((end - start) as u64),
-                text,
-            };
-
-            return Ok(vec![text_document_content_change_event]);
+        let text = if let Some(node) = delta.as_simple_insert() {
+            Some(String::from(node))
         }
         // Or a simple delete
         else if delta.is_simple_delete() {
-            let mut end_position = get_position_of_offset(view, end)?;
-
-            // Hack around sending VSCode Style Positions to Language Server.
-            // See this issue to understand: https://github.com/Microsoft/vscode/issues/23173
-            if end_position.character == 0 {
-                // There is an assumption here that the line separator character is exactly
-                // 1 byte wide which is true for "\n" but it will be an issue if they are not
-                // for example for u+2028
-                let mut ep = get_position_of_offset(view, end - 1)?;
-                ep.character += 1;
-                end_position = ep;
-            }
+            Some(String::new())
+        } else {
+            None
+        };
 
-            let text_document_content_change_event = TextDocumentContentChangeEvent {
+        if let Some(text) = text {
+            // The range is one of the document as the server has it, before the edit.
+            return vec![TextDocumentContentChangeEvent {
                 range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
-                    end: end_position,
+                    start: get_position_in_document(old, start),
+                    end: get_position_in_document(old, end),
                 }),
-                range_length: Some((end - start) as u64),
-                text: String::new(),
-            };
-
-            return Ok(vec![text_document_content_change_event]);
+                range_length: Some(count_utf16(&old.slice_to_cow(start..end)) as u64),
+                text,
+            }];
         }
     }
 
-    let text_document_content_change_event = TextDocumentContentChangeEvent {
+    get_whole_document_change(new)
+}
+
+fn get_whole_document_change(document: &Rope) -> Vec<TextDocumentContentChangeEvent> {
+    vec![TextDocumentContentChangeEvent {
         range: None,
         range_length: None,
-        text: view.get_document()?,
-    };
-
-    Ok(vec![text_document_content_change_event])
+        text: String::from(document),
+    }]
 }
 
 /// Get changes to be sent to server depending upon the type of Sync supported
 /// by server
 pub fn get_change_for_sync_kind(
     sync_kind: TextDocumentSyncKind,
-    view: &mut View<ChunkCache>,
     delta: Option<&RopeDelta>,
+    old: &Rope,
+    new: &Rope,
 ) -> Option<Vec<TextDocumentContentChangeEvent>> {
     match sync_kind {
         TextDocumentSyncKind::None => None,
-        TextDocumentSyncKind::Full => {
-            let text_document_content_change_event = TextDocumentContentChangeEvent {
-                range: None,
-                range_length: None,
-                text: view.get_document().unwrap(),
-            };
-            Some(vec![text_document_content_change_event])
-        }
-        TextDocumentSyncKind::Incremental => match get_document_content_changes(delta, view) {
-            Ok(result) => Some(result),
-            Err(err) => {
-                warn!("Error: {:?} Occured. Sending Whole Doc", err);
-                let text_document_content_change_event = TextDocumentContentChangeEvent {
-                    range: None,
-                    range_length: None,
-                    text: view.get_document().unwrap(),
-                };
-                Some(vec![text_document_content_change_event])
-            }
-        },
+        TextDocumentSyncKind::Full => Some(get_whole_document_change(new)),
+        TextDocumentSyncKind::Incremental => Some(get_document_content_changes(delta, old, new)),
     }
 }
 
-- 
2.43.0


From 538bf1858b1a88010f3489902de1a621197a7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 089/104] fix: a position beyond the end of a line is the end
 of the line

---
 rust/lsp-lib/src/conversion_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/lsp-lib/src/conversion_utils.rs b/rust/lsp-lib/src/conversion_utils.rs
index 4625495..27871d8 100644
--- a/rust/lsp-lib/src/conversion_utils.rs
+++ b/rust/lsp-lib/src/conversion_utils.rs
@@ -90,7 +90,11 @@ pub(crate) fn offset_of_position<C: Cache>(
     let mut cur_len_utf16 = 0;
     let mut cur_len_utf8 = 0;
 
-    for u in view.get_line(position.line as usize)?.chars() {
+    // a position beyond the end of the line is the one at its end
+    let line = view.get_line(position.line as usize)?;
+    let line = line.strip_suffix('\n').map_or(line, |l| l.strip_suffix('\r').unwrap_or(l));
+
+    for u in line.chars() {
         if cur_len_utf16 >= (position.character as usize) {
             break;
         }
-- 
2.43.0


From 69b9dc26bfbdf8adce710c9d7c0a9c965c8a88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 090/104] fix: a frame cut short or with a broken header is an
 error, as is one longer than what follows

---
 rust/lsp-lib/src/parse_helper.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rust/lsp-lib/src/parse_helper.rs b/rust/lsp-lib/src/parse_helper.rs
index 7560b77..d0b2f1d 100644
--- a/rust/lsp-lib/src/parse_helper.rs
+++ b/rust/lsp-lib/src/parse_helper.rs
@@ -15,7 +15,7 @@
 //! Utility methods to parse the input from the Language Server
 
 use crate::types::{LspHeader, ParseError};
-use std::io::BufRead;
+use std::io::{self, BufRead, Read};
 
 const HEADER_CONTENT_LENGTH: &str = "content-length";
 const HEADER_CONTENT_TYPE: &str = "content-type";
@@ -42,7 +42,10 @@ pub fn read_message<T: BufRead>(reader: &mut T) -> Result<String, ParseError> {
 
     loop {
         buffer.clear();
-        let _result = reader.read_line(&mut buffer);
+        reader.read_line(&mut buffer)?;
+        if !buffer.ends_with('\n') {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
 
         match &buffer {
             s if s.trim().is_empty() => break,
@@ -58,8 +61,12 @@ pub fn read_message<T: BufRead>(reader: &mut T) -> Result<String, ParseError> {
     let content_length =
         content_length.ok_or_else(|| format!("missing content-length header: {}", buffer))?;
 
-    let mut body_buffer = vec![0; content_length];
-    reader.read_exact(&mut body_buffer)?;
+    // The length may be more than there is, and more than there is memory for.
+    let mut body_buffer = Vec::new();
+    reader.take(content_length as u64).read_to_end(&mut body_buffer)?;
+    if body_buffer.len() < content_length {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
 
     let body = String::from_utf8(body_buffer)?;
     Ok(body)
-- 
2.43.0


From 5142690a10e131afcd8a24af24807e8021c22431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 091/104] fix: what a language server may send unexpectedly
 does not end the plugin

---
 rust/lsp-lib/src/language_server_client.rs | 44 ++++++++++------------
 rust/lsp-lib/src/lsp_plugin.rs             |  4 +-
 2 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index e9e3f42..1287cf6 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -55,11 +55,11 @@ fn prepare_lsp_json(msg: &Value) -> Result<String, serde_json::error::Error> {
 }
 
 /// Get numeric id from the request id.
-fn number_from_id(id: &Id) -> u64 {
+fn number_from_id(id: &Id) -> Option<u64> {
     match *id {
-        Id::Num(n) => n as u64,
-        Id::Str(ref s) => u64::from_str_radix(s, 10).expect("failed to convert string id to u64"),
-        _ => panic!("unexpected value for id: None"),
+        Id::Num(n) => Some(n as u64),
+        Id::Str(ref s) => u64::from_str_radix(s, 10).ok(),
+        _ => None,
     }
 }
 
@@ -97,29 +97,27 @@ impl LanguageServerClient {
     pub fn handle_message(&mut self, message: &str) {
         match JsonRpc::parse(message) {
             Ok(JsonRpc::Request(obj)) => trace!("client received unexpected request: {:?}", obj),
-            Ok(value @ JsonRpc::Notification(_)) => {
-                self.handle_notification(value.get_method().unwrap(), value.get_params().unwrap())
-            }
+            Ok(value @ JsonRpc::Notification(_)) => self.handle_notification(
+                value.get_method().unwrap(),
+                value.get_params().unwrap_or(Params::None(())),
+            ),
             Ok(value @ JsonRpc::Success(_)) => {
-                let id = number_from_id(&value.get_id().unwrap());
                 let result = value.get_result().unwrap();
-                self.handle_response(id, Ok(result.clone()));
+                self.handle_response(&value.get_id().unwrap(), Ok(result.clone()));
             }
             Ok(value @ JsonRpc::Error(_)) => {
-                let id = number_from_id(&value.get_id().unwrap());
                 let error = value.get_error().unwrap();
-                self.handle_response(id, Err(error.clone()));
+                self.handle_response(&value.get_id().unwrap(), Err(error.clone()));
             }
             Err(err) => error!("Error in parsing incoming string: {}", err),
         }
     }
 
-    pub fn handle_response(&mut self, id: u64, result: Result<Value, Error>) {
-        let callback = self
-            .pending
-            .remove(&id)
-            .unwrap_or_else(|| panic!("id {} missing from request table", id));
-        callback.call(self, result);
+    fn handle_response(&mut self, id: &Id, result: Result<Value, Error>) {
+        match number_from_id(id).and_then(|id| self.pending.remove(&id)) {
+            Some(callback) => callback.call(self, result),
+            None => warn!("id {:?} missing from request table", id),
+        }
     }
 
     pub fn handle_notification(&mut self, method: &str, params: Params) {
@@ -354,11 +352,9 @@ impl LanguageServerClient {
                 match params {
                     Params::Map(m) => {
                         let done = m.get("done").unwrap_or(&Value::Bool(false));
-                        if let Value::Bool(done) = done {
-                            let id: String =
-                                serde_json::from_value(m.get("id").unwrap().clone()).unwrap();
+                        if let (Value::Bool(done), Some(Value::String(id))) = (done, m.get("id")) {
                             if *done {
-                                self.remove_status_item(&id);
+                                self.remove_status_item(id);
                             } else {
                                 let mut value = String::new();
                                 if let Some(Value::String(s)) = &m.get("title") {
@@ -376,10 +372,10 @@ impl LanguageServerClient {
                                     value.push_str(s);
                                 }
                                 // Add or update item
-                                if self.status_items.contains(&id) {
-                                    self.update_status_item(&id, &value);
+                                if self.status_items.contains(id) {
+                                    self.update_status_item(id, &value);
                                 } else {
-                                    self.add_status_item(&id, &value, "left");
+                                    self.add_status_item(id, &value, "left");
                                 }
                             }
                         }
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 20df16e..dbb0f1e 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -173,7 +173,9 @@ impl Plugin for LspPlugin {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
                     .and_then(|h| {
-                        let hover: Option<Hover> = serde_json::from_value(h).unwrap();
+                        let hover: Option<Hover> = serde_json::from_value(h).map_err(|e| {
+                            LanguageResponseError::LanguageServerError(e.to_string())
+                        })?;
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-- 
2.43.0


From 5403cbbccb9d27dc2cfcd5773bcc3119c7b91dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 092/104] fix: the answer to a hover request is one for the
 view it was made in

---
 rust/lsp-lib/src/lsp_plugin.rs   | 16 ++++++++++++----
 rust/lsp-lib/src/result_queue.rs | 13 ++++++++-----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index dbb0f1e..b9ba095 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -166,7 +166,11 @@ impl Plugin for LspPlugin {
         self.with_language_server_for_view(view, |ls_client| match position_ls {
             Ok(_) if !ls_client.is_open(view_id) => {
                 let err = LanguageResponseError::LanguageServerError("not initialized".to_owned());
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err)));
+                ls_client.result_queue.push_result(
+                    view_id,
+                    request_id,
+                    LspResponse::Hover(Err(err)),
+                );
                 ls_client.core.schedule_idle(view_id);
             }
             Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
@@ -179,18 +183,22 @@ impl Plugin for LspPlugin {
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
+                ls_client.result_queue.push_result(view_id, request_id, LspResponse::Hover(res));
                 ls_client.core.schedule_idle(view_id);
             }),
             Err(err) => {
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err.into())));
+                ls_client.result_queue.push_result(
+                    view_id,
+                    request_id,
+                    LspResponse::Hover(Err(err.into())),
+                );
                 ls_client.core.schedule_idle(view_id);
             }
         });
     }
 
     fn idle(&mut self, view: &mut View<Self::Cache>) {
-        let result = self.result_queue.pop_result();
+        let result = self.result_queue.pop_result(view.get_id());
         if let Some((request_id, reponse)) = result {
             match reponse {
                 LspResponse::Hover(res) => {
diff --git a/rust/lsp-lib/src/result_queue.rs b/rust/lsp-lib/src/result_queue.rs
index 45bca72..fa87678 100644
--- a/rust/lsp-lib/src/result_queue.rs
+++ b/rust/lsp-lib/src/result_queue.rs
@@ -13,24 +13,27 @@
 // limitations under the License.
 
 use crate::types::LspResponse;
+use crate::xi_core::ViewId;
 use std::collections::VecDeque;
 use std::sync::{Arc, Mutex};
 
 #[derive(Clone, Debug, Default)]
-pub struct ResultQueue(Arc<Mutex<VecDeque<(usize, LspResponse)>>>);
+pub struct ResultQueue(Arc<Mutex<VecDeque<(ViewId, usize, LspResponse)>>>);
 
 impl ResultQueue {
     pub fn new() -> Self {
         ResultQueue(Arc::new(Mutex::new(VecDeque::new())))
     }
 
-    pub fn push_result(&mut self, request_id: usize, response: LspResponse) {
+    pub fn push_result(&mut self, view_id: ViewId, request_id: usize, response: LspResponse) {
         let mut queue = self.0.lock().unwrap();
-        queue.push_back((request_id, response));
+        queue.push_back((view_id, request_id, response));
     }
 
-    pub fn pop_result(&mut self) -> Option<(usize, LspResponse)> {
+    /// The first of the results for a view
+    pub fn pop_result(&mut self, view_id: ViewId) -> Option<(usize, LspResponse)> {
         let mut queue = self.0.lock().unwrap();
-        queue.pop_front()
+        let idx = queue.iter().position(|r| r.0 == view_id)?;
+        queue.remove(idx).map(|(_, request_id, response)| (request_id, response))
     }
 }
-- 
2.43.0


From c90d0bcf27cb0fb86971fa9d5d0ac933723303a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 093/104] fix: an array of two strings is two parts of a hover
 answer

---
 rust/lsp-lib/src/conversion_utils.rs | 18 ++++++++++++++++++
 rust/lsp-lib/src/lsp_plugin.rs       |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/rust/lsp-lib/src/conversion_utils.rs b/rust/lsp-lib/src/conversion_utils.rs
index 27871d8..33bf6fc 100644
--- a/rust/lsp-lib/src/conversion_utils.rs
+++ b/rust/lsp-lib/src/conversion_utils.rs
@@ -15,6 +15,9 @@
 //! Utility functions meant for converting types from LSP to Core format
 //! and vice-versa
 
+use serde::Deserialize;
+use serde_json::Value;
+
 use crate::lsp_types::*;
 use crate::types::LanguageResponseError;
 use xi_plugin_lib::{Cache, Error as PluginLibError, Hover as CoreHover, Range as CoreRange, View};
@@ -27,6 +30,21 @@ pub(crate) fn marked_string_to_string(marked_string: &MarkedString) -> String {
     }
 }
 
+/// Decodes the result of a hover request
+///
+/// Contents which are an array are decoded as such here; `HoverContents` would
+/// take an array of two strings for a language and a text in it.
+pub(crate) fn hover_from_value(value: Value) -> Result<Option<Hover>, serde_json::Error> {
+    match value.get("contents") {
+        Some(contents) if contents.is_array() => {
+            let contents = Vec::<MarkedString>::deserialize(contents)?;
+            let range = value.get("range").map_or(Ok(None), Option::<Range>::deserialize)?;
+            Ok(Some(Hover { contents: HoverContents::Array(contents), range }))
+        }
+        _ => serde_json::from_value(value),
+    }
+}
+
 pub(crate) fn markdown_from_hover_contents(
     hover_contents: HoverContents,
 ) -> Result<String, LanguageResponseError> {
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index b9ba095..ee039ed 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -177,7 +177,7 @@ impl Plugin for LspPlugin {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
                     .and_then(|h| {
-                        let hover: Option<Hover> = serde_json::from_value(h).map_err(|e| {
+                        let hover = hover_from_value(h).map_err(|e| {
                             LanguageResponseError::LanguageServerError(e.to_string())
                         })?;
                         hover.ok_or(LanguageResponseError::NullResponse)
-- 
2.43.0


From edf1721980b135b35ebdfde5ecbfc4fddf2619de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 094/104] fix: announce a view to a plugin once, when the
 plugin connects before it is set up

---
 rust/core-lib/src/tabs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 5c79102..e93e472 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -931,8 +931,12 @@ impl CoreState {
     pub(crate) fn plugin_connect(&mut self, plugin: Result<Plugin, io::Error>) {
         match plugin {
             Ok(plugin) => {
-                let init_info =
-                    self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
+                // views which are not yet initialized are announced when they are
+                let init_info = self
+                    .iter_groups()
+                    .filter(|ctx| !self.pending_views.contains(&ctx.view_id))
+                    .map(|mut ctx| ctx.plugin_info())
+                    .collect::<Vec<_>>();
                 plugin.initialize(init_info);
                 self.running_plugins.push(plugin);
             }
-- 
2.43.0


From 8a8c81019fd877440e4afc0c45d32e3a2e74624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 095/104] fix: tell the front end of a plugin that starts after
 a view was opened

---
 rust/core-lib/src/tabs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index e93e472..1642fd4 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -938,6 +938,9 @@ impl CoreState {
                     .map(|mut ctx| ctx.plugin_info())
                     .collect::<Vec<_>>();
                 plugin.initialize(init_info);
+                self.iter_groups()
+                    .filter(|ctx| !self.pending_views.contains(&ctx.view_id))
+                    .for_each(|ctx| ctx.plugin_started(&plugin));
                 self.running_plugins.push(plugin);
             }
             Err(e) => error!("failed to start plugin {:?}", e),
-- 
2.43.0


From 9cadff4e0eef33b108a0009000ffb04e83ecdf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 096/104] fix: start a plugin once, however often it is asked
 for before it runs

---
 rust/core-lib/src/core.rs        |  4 ++--
 rust/core-lib/src/plugins/mod.rs |  4 ++--
 rust/core-lib/src/tabs.rs        | 41 +++++++++++++++++++-------------
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index fc5a4e3..05ff2ac 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -137,9 +137,9 @@ impl WeakXiCore {
 
     /// Called immediately after attempting to start a plugin,
     /// from the plugin's thread.
-    pub fn plugin_connect(&self, plugin: Result<Plugin, io::Error>) {
+    pub fn plugin_connect(&self, id: PluginId, plugin: Result<Plugin, io::Error>) {
         if let Some(core) = self.upgrade() {
-            core.inner().plugin_connect(plugin)
+            core.inner().plugin_connect(id, plugin)
         }
     }
 
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 7a87b12..7c5d413 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -198,12 +198,12 @@ pub(crate) fn start_plugin_process(
                         plugin.toggle_tracing(true);
                     }
 
-                    core.plugin_connect(Ok(plugin));
+                    core.plugin_connect(id, Ok(plugin));
                     let mut core = core;
                     let err = looper.mainloop(|| BufReader::new(child_stdout), &mut core);
                     core.plugin_exit(id, err);
                 }
-                Err(err) => core.plugin_connect(Err(err)),
+                Err(err) => core.plugin_connect(id, Err(err)),
             }
         });
 
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 1642fd4..9af817e 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -20,12 +20,13 @@
 //! be renamed.
 
 use std::cell::{Cell, RefCell};
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fmt;
 use std::fs::File;
 use std::io;
 use std::mem;
 use std::path::{Path, PathBuf};
+use std::sync::Arc;
 
 use serde::de::{self, Deserialize, Deserializer, Unexpected};
 use serde::ser::{Serialize, Serializer};
@@ -43,7 +44,9 @@ use crate::file::FileManager;
 use crate::line_ending::LineEnding;
 use crate::plugin_rpc::{PluginNotification, PluginRequest};
 use crate::plugins::rpc::ClientPluginInfo;
-use crate::plugins::{start_plugin_process, Plugin, PluginCatalog, PluginPid};
+use crate::plugins::{
+    start_plugin_process, Plugin, PluginCatalog, PluginDescription, PluginName, PluginPid,
+};
 use crate::recorder::Recorder;
 use crate::rpc::{
     CoreNotification, CoreRequest, EditNotification, EditRequest,
@@ -119,6 +122,8 @@ pub struct CoreState {
     self_ref: Option<WeakXiCore>,
     /// Views which need to have setup finished.
     pending_views: Vec<ViewId>,
+    /// Plugins which are being started, and have not connected yet.
+    pending_plugins: HashMap<PluginId, PluginName>,
     peer: Client,
     id_counter: Counter,
     plugins: PluginCatalog,
@@ -180,6 +185,7 @@ impl CoreState {
             recorder: RefCell::new(Recorder::new()),
             self_ref: None,
             pending_views: Vec::new(),
+            pending_plugins: HashMap::new(),
             peer: Client::new(peer.clone()),
             id_counter: Counter::default(),
             plugins: PluginCatalog::default(),
@@ -221,12 +227,9 @@ impl CoreState {
         self.peer.available_themes(theme_names);
 
         // FIXME: temporary: we just launch every plugin we find at startup
-        for manifest in self.plugins.iter() {
-            start_plugin_process(
-                manifest.clone(),
-                self.next_plugin_id(),
-                self.self_ref.as_ref().unwrap().clone(),
-            );
+        let manifests = self.plugins.iter().collect::<Vec<_>>();
+        for manifest in manifests {
+            self.launch_plugin(manifest);
         }
     }
 
@@ -519,19 +522,24 @@ impl CoreState {
             return;
         }
 
+        if self.pending_plugins.values().any(|name| name == plugin) {
+            info!("plugin {} already starting", plugin);
+            return;
+        }
+
         if let Some(manifest) = self.plugins.get_named(plugin) {
-            //TODO: lots of races possible here, we need to keep track of
-            //pending launches.
-            start_plugin_process(
-                manifest,
-                self.next_plugin_id(),
-                self.self_ref.as_ref().unwrap().clone(),
-            );
+            self.launch_plugin(manifest);
         } else {
             warn!("no plugin found with name '{}'", plugin);
         }
     }
 
+    fn launch_plugin(&mut self, manifest: Arc<PluginDescription>) {
+        let id = self.next_plugin_id();
+        self.pending_plugins.insert(id, manifest.name.clone());
+        start_plugin_process(manifest, id, self.self_ref.as_ref().unwrap().clone());
+    }
+
     fn do_stop_plugin(&mut self, _view_id: ViewId, plugin: &str) {
         if let Some(p) = self
             .running_plugins
@@ -928,7 +936,8 @@ impl CoreState {
 /// plugin event handling
 impl CoreState {
     /// Called from a plugin's thread after trying to start the plugin.
-    pub(crate) fn plugin_connect(&mut self, plugin: Result<Plugin, io::Error>) {
+    pub(crate) fn plugin_connect(&mut self, id: PluginId, plugin: Result<Plugin, io::Error>) {
+        self.pending_plugins.remove(&id);
         match plugin {
             Ok(plugin) => {
                 // views which are not yet initialized are announced when they are
-- 
2.43.0


From 0ab44848f293bf28fd7797bcaa7df6f7e073d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 097/104] verification hook: deliver a notification for the
 theme directory (cfg xi_verif)

---
 rust/core-lib/src/tabs.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 9af817e..36697b7 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -743,6 +743,20 @@ impl CoreState {
         }
     }
 
+    #[cfg(all(xi_verif, feature = "notify"))]
+    #[doc(hidden)]
+    pub fn verif_theme_event(&mut self, kind: usize, paths: &[PathBuf]) {
+        use notify::event::*;
+        let kind = match kind {
+            0 => EventKind::Create(CreateKind::Any),
+            1 => EventKind::Modify(ModifyKind::Any),
+            2 => EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any)),
+            3 => EventKind::Remove(RemoveKind::Any),
+            _ => EventKind::Modify(ModifyKind::Name(RenameMode::Both)),
+        };
+        self.handle_themes_fs_event(Event { paths: paths.to_vec(), ..Event::new(kind) });
+    }
+
     #[cfg(all(xi_verif, feature = "notify"))]
     #[doc(hidden)]
     pub fn verif_file_event(&mut self, kind: usize, path: &Path) {
-- 
2.43.0


From 78fb0cfab6dd53ef5125092c78f61f9406286a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:10 +0000
Subject: [PATCH 098/104] fix: a file with another extension than tmTheme was
 taken for a theme

Renaming a.tmTheme to a.bak left the theme on offer (and in force), as the
validation returned whether the extension was wrong and nobody looked at it.
---
 rust/core-lib/src/styles.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 7fdb997..d7e861e 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -418,8 +418,11 @@ impl ThemeStyleMap {
 }
 
 /// Used to remove files with extension other than `tmTheme`.
-fn validate_theme_file(path: &Path) -> Result<bool, LoadingError> {
-    path.extension().map(|e| e != "tmTheme").ok_or(LoadingError::BadPath)
+fn validate_theme_file(path: &Path) -> Result<(), LoadingError> {
+    match path.extension() {
+        Some(e) if e == "tmTheme" => Ok(()),
+        _ => Err(LoadingError::BadPath),
+    }
 }
 
 impl fmt::Debug for Style {
-- 
2.43.0


From 4d5efea6887617e0dc1f766f96ae7a5f4547f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:10 +0000
Subject: [PATCH 099/104] fix: themes whose names differ after the last dot
 shared one cached dump

After base.light had been used, base.dark was loaded with its colours.
---
 rust/core-lib/src/styles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index d7e861e..6559741 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -377,7 +377,7 @@ impl ThemeStyleMap {
 
     /// Returns dump's path corresponding to the given theme name.
     fn get_dump_path(&self, theme_name: &str) -> Option<PathBuf> {
-        self.cache_dir.as_ref().map(|p| p.join(theme_name).with_extension("tmdump"))
+        self.cache_dir.as_ref().map(|p| p.join(format!("{}.tmdump", theme_name)))
     }
 
     /// Compare the stored file paths in `self.state`
-- 
2.43.0


From 500cb2c2babc3a0b276aba60f78061fcf624b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 100/104] fix: a theme edited while another one was in force
 kept its old contents

A theme that had been loaded before was never read again unless it was in
force when its file changed, and a file renamed over it is older than its dump.
---
 rust/core-lib/src/styles.rs | 16 ++++++++++++++++
 rust/core-lib/src/tabs.rs   |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 6559741..897f99d 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -338,6 +338,22 @@ impl ThemeStyleMap {
         Ok(theme_name.to_owned())
     }
 
+    /// Like `load_theme_info_from_path`, for a file that has changed: what was
+    /// read or dumped of the theme before is not used again.
+    pub(crate) fn reload_theme_info_from_path(
+        &mut self,
+        theme_p: &Path,
+    ) -> Result<String, LoadingError> {
+        let theme_name = self.load_theme_info_from_path(theme_p)?;
+        if !self.default_themes.contains(&theme_name) {
+            self.themes.themes.remove(&theme_name);
+        }
+        if let Some(dump_p) = self.get_dump_path(&theme_name) {
+            let _ = fs::remove_file(dump_p);
+        }
+        Ok(theme_name)
+    }
+
     /// Loads theme using syntect's `get_theme` fn to our `theme` path map.
     /// Stores binary dump in a file with `tmdump` extension, only if
     /// caching is enabled.
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 36697b7..b82552a 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -882,7 +882,7 @@ impl CoreState {
     fn load_theme_file(&mut self, path: &Path) {
         let _t = trace_block("CoreState::load_theme_file", &["core"]);
 
-        let result = self.style_map.borrow_mut().load_theme_info_from_path(path);
+        let result = self.style_map.borrow_mut().reload_theme_info_from_path(path);
         match result {
             Ok(theme_name) => {
                 if theme_name == self.style_map.borrow().get_theme_name() {
-- 
2.43.0


From b98f7ea9302fb82a9506a87143dc6628d5ae7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 101/104] fix: changed attributes of a theme in a subdirectory
 dropped all themes elsewhere

The directory of the file was taken for the whole of the themes, and a theme
in force that was found missing stayed in force.
---
 rust/core-lib/src/styles.rs | 37 +++++++++++++++++++------------------
 rust/core-lib/src/tabs.rs   |  5 ++++-
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 897f99d..da5e780 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -18,7 +18,6 @@ use std::collections::{BTreeMap, HashMap, HashSet};
 use std::ffi::OsStr;
 use std::fmt;
 use std::fs;
-use std::iter::FromIterator;
 use std::path::{Path, PathBuf};
 
 use serde_json::{self, Value};
@@ -396,25 +395,27 @@ impl ThemeStyleMap {
         self.cache_dir.as_ref().map(|p| p.join(format!("{}.tmdump", theme_name)))
     }
 
-    /// Compare the stored file paths in `self.state`
-    /// to the present ones.
-    pub(crate) fn sync_dir(&mut self, dir: Option<&Path>) {
-        if let Some(themes_dir) = dir {
-            if let Ok(paths) = ThemeSet::discover_theme_paths(themes_dir) {
-                let current_state: HashSet<PathBuf> = HashSet::from_iter(paths.into_iter());
-                let maintained_state: HashSet<PathBuf> =
-                    HashSet::from_iter(self.path_map.values().cloned());
-
-                let to_insert = current_state.difference(&maintained_state);
-                for path in to_insert {
-                    let _ = self.load_theme_info_from_path(path);
-                }
-                let to_remove = maintained_state.difference(&current_state);
-                for path in to_remove {
-                    self.remove_theme(path);
-                }
+    /// Compare the stored themes to the files that are there. Returns the
+    /// names of the themes that are gone.
+    pub(crate) fn sync_dir(&mut self) -> Vec<String> {
+        let paths = match self.themes_dir.as_ref().map(ThemeSet::discover_theme_paths) {
+            Some(Ok(paths)) => paths,
+            _ => return Vec::new(),
+        };
+        let present: HashSet<&OsStr> = paths.iter().filter_map(|p| p.file_stem()).collect();
+        let to_remove = self
+            .path_map
+            .iter()
+            .filter(|(name, _)| !present.contains(OsStr::new(name)))
+            .map(|(_, path)| path.clone())
+            .collect::<Vec<_>>();
+        for path in &paths {
+            let name = path.file_stem().and_then(OsStr::to_str);
+            if name.map_or(false, |name| !self.path_map.contains_key(name)) {
+                let _ = self.reload_theme_info_from_path(path);
             }
         }
+        to_remove.iter().filter_map(|path| self.remove_theme(path)).collect()
     }
     /// Creates the cache dir returns true
     /// if it is successfully initialized or
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index b82552a..300d3d4 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -870,7 +870,10 @@ impl CoreState {
             }
             EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Remove(RemoveKind::Any) => {
-                self.style_map.borrow_mut().sync_dir(event.paths[0].parent())
+                let removed = self.style_map.borrow_mut().sync_dir();
+                if removed.iter().any(|name| name == self.style_map.borrow().get_theme_name()) {
+                    self.do_set_theme(DEFAULT_THEME);
+                }
             }
             _ => (),
         }
-- 
2.43.0


From 7619052168ba6fb648f38ba713a1ba488c6b79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 102/104] fix: a theme moved to or from elsewhere in the
 configuration was kept or dropped by name

The whole configuration directory is watched, so a theme moved out of the themes
stayed on offer, and a file moved in took a theme with its old name away.
---
 rust/core-lib/src/styles.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index da5e780..96def25 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -259,6 +259,10 @@ impl ThemeStyleMap {
         validate_theme_file(path).ok()?;
 
         let theme_name = path.file_stem().and_then(OsStr::to_str)?;
+        if self.path_map.get(theme_name).map_or(true, |p| p.exists()) {
+            // it was another file of that name
+            return None;
+        }
         self.themes.themes.remove(theme_name);
         self.path_map.remove(theme_name);
 
@@ -343,6 +347,12 @@ impl ThemeStyleMap {
         &mut self,
         theme_p: &Path,
     ) -> Result<String, LoadingError> {
+        // a theme may have been renamed to a place outside
+        let themes_dir = self.themes_dir.as_ref().and_then(|dir| dir.canonicalize().ok());
+        match (themes_dir, theme_p.canonicalize()) {
+            (Some(ref dir), Ok(ref path)) if path.starts_with(dir) => (),
+            _ => return Err(LoadingError::BadPath),
+        }
         let theme_name = self.load_theme_info_from_path(theme_p)?;
         if !self.default_themes.contains(&theme_name) {
             self.themes.themes.remove(&theme_name);
-- 
2.43.0


From 4d407919f624656b6dedbb51ca54363c6a4924a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 103/104] fix: a theme whose file was replaced and renamed
 within a moment stayed on offer

The two changes are notified as one, which does not name the theme.
---
 rust/core-lib/src/styles.rs | 32 ++++++++++++++++++++------------
 rust/core-lib/src/tabs.rs   | 12 ++++++------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 96def25..b985469 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -405,12 +405,21 @@ impl ThemeStyleMap {
         self.cache_dir.as_ref().map(|p| p.join(format!("{}.tmdump", theme_name)))
     }
 
-    /// Compare the stored themes to the files that are there. Returns the
-    /// names of the themes that are gone.
-    pub(crate) fn sync_dir(&mut self) -> Vec<String> {
-        let paths = match self.themes_dir.as_ref().map(ThemeSet::discover_theme_paths) {
-            Some(Ok(paths)) => paths,
-            _ => return Vec::new(),
+    /// Adds the themes in the directory which are not known yet.
+    pub(crate) fn sync_dir(&mut self) {
+        for path in self.present_themes().unwrap_or_default() {
+            let name = path.file_stem().and_then(OsStr::to_str);
+            if name.map_or(false, |name| !self.path_map.contains_key(name)) {
+                let _ = self.reload_theme_info_from_path(&path);
+            }
+        }
+    }
+
+    /// Removes the themes whose files are gone. Returns their names.
+    pub(crate) fn remove_missing(&mut self) -> Vec<String> {
+        let paths = match self.present_themes() {
+            Some(paths) => paths,
+            None => return Vec::new(),
         };
         let present: HashSet<&OsStr> = paths.iter().filter_map(|p| p.file_stem()).collect();
         let to_remove = self
@@ -419,14 +428,13 @@ impl ThemeStyleMap {
             .filter(|(name, _)| !present.contains(OsStr::new(name)))
             .map(|(_, path)| path.clone())
             .collect::<Vec<_>>();
-        for path in &paths {
-            let name = path.file_stem().and_then(OsStr::to_str);
-            if name.map_or(false, |name| !self.path_map.contains_key(name)) {
-                let _ = self.reload_theme_info_from_path(path);
-            }
-        }
         to_remove.iter().filter_map(|path| self.remove_theme(path)).collect()
     }
+
+    fn present_themes(&self) -> Option<Vec<PathBuf>> {
+        self.themes_dir.as_ref().and_then(|dir| ThemeSet::discover_theme_paths(dir).ok())
+    }
+
     /// Creates the cache dir returns true
     /// if it is successfully initialized or
     /// already exists.
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 300d3d4..80d1483 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -869,14 +869,14 @@ impl CoreState {
                 self.load_theme_file(new);
             }
             EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
-            | EventKind::Remove(RemoveKind::Any) => {
-                let removed = self.style_map.borrow_mut().sync_dir();
-                if removed.iter().any(|name| name == self.style_map.borrow().get_theme_name()) {
-                    self.do_set_theme(DEFAULT_THEME);
-                }
-            }
+            | EventKind::Remove(RemoveKind::Any) => self.style_map.borrow_mut().sync_dir(),
             _ => (),
         }
+        // events can be joined (a file renamed twice), or be about a directory
+        let removed = self.style_map.borrow_mut().remove_missing();
+        if removed.iter().any(|name| name == self.style_map.borrow().get_theme_name()) {
+            self.do_set_theme(DEFAULT_THEME);
+        }
         let theme_names = self.style_map.borrow().get_theme_names();
         self.peer.available_themes(theme_names);
     }
-- 
2.43.0


From ee863fcb7cb0257db22a653f3d125ccd61f3afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 104/104] fix: saving a trace panicked when the answer of a
 plugin was no trace

---
 rust/core-lib/src/tabs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 80d1483..c49a432 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -926,10 +926,10 @@ impl CoreState {
 
         for plugin in &self.running_plugins {
             match plugin.collect_trace() {
-                Ok(json) => {
-                    let mut trace = chrome_trace_dump::decode(json).unwrap();
-                    all_traces.append(&mut trace);
-                }
+                Ok(json) => match chrome_trace_dump::decode(json) {
+                    Ok(mut trace) => all_traces.append(&mut trace),
+                    Err(e) => error!("trace error {:?}", e),
+                },
                 Err(e) => error!("trace error {:?}", e),
             }
         }
-- 
2.43.0

