From 9a043248472152ccef703aa5322e82e5e918e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 01/16] verif hook: small fan-out and chunk size under
 cfg(vp_small)

---
 src/generic_impl/gap_buffer.rs | 5 ++++-
 src/lib.rs                     | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generic_impl/gap_buffer.rs b/src/generic_impl/gap_buffer.rs
index b9ce6f0..300afba 100644
--- a/src/generic_impl/gap_buffer.rs
+++ b/src/generic_impl/gap_buffer.rs
@@ -2,10 +2,13 @@ use std::ops::{Range, RangeBounds};
 
 use crate::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
 
-#[cfg(not(test))]
+#[cfg(not(any(test, vp_small)))]
 pub const MAX_STRING_SIZE: usize = 128;
 #[cfg(test)]
 pub const MAX_STRING_SIZE: usize = 12;
+/// Small chunks for exhaustive state-space exploration (`RUSTFLAGS="--cfg vp_small"`)
+#[cfg(all(vp_small, not(test)))]
+pub const MAX_STRING_SIZE: usize = 4;
 
 #[derive(Debug, Clone)]
 pub(super) struct GapBuffer {
diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..fb5295b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,7 +24,11 @@ pub mod rle;
 
 pub type HeapVec<T> = Vec<T>;
 
+#[cfg(not(vp_small))]
 const MAX_CHILDREN_NUM: usize = 12;
+/// Small fan-out for exhaustive state-space exploration (`RUSTFLAGS="--cfg vp_small"`)
+#[cfg(vp_small)]
+const MAX_CHILDREN_NUM: usize = 4;
 
 /// `Elem` should has length. `offset` in search result should always >= `Elem.rle_len()`
 pub trait BTreeTrait {
-- 
2.43.0


From 3454dd582c1748bbbbae46e341c8a77a27089a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 02/16] fix: shift_path_by_one_offset lost the remaining offset
 when crossing a parent node

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb5295b..d96122d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -840,7 +840,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From 75837a06475f94ede4afe745587a759a9f92d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 03/16] fix: prepend into an empty tree did not update the root
 cache

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index d96122d..78bf1eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2529,6 +2529,7 @@ impl<B: BTreeTrait> BTree<B> {
             let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
             let ans = data.arena;
             parent.children.push(data).unwrap();
+            self.update_root_cache();
             return Cursor {
                 leaf: ans.unwrap().into(),
                 offset: 0,
-- 
2.43.0


From 17536349912b0d547fae43fe46c0833c83d11b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 04/16] fix: iter_range with an unbounded end panicked on an
 empty tree

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 78bf1eb..83215ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1724,16 +1724,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        // there is no cursor in an empty tree
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From b5caeb9cfd590d72da021ede2420431cc153076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 05/16] fix: depth panicked on an empty tree

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 83215ae..d61acc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2720,7 +2720,10 @@ impl<B: BTreeTrait> BTree<B> {
         let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
         loop {
             depth += 1;
-            index = node.children.first().unwrap().arena;
+            let Some(child) = node.children.first() else {
+                return depth;
+            };
+            index = child.arena;
             match index {
                 ArenaIndex::Leaf(_) => return depth,
                 ArenaIndex::Internal(index) => {
-- 
2.43.0


From f2906fca1b77f8cf1dd62376b180aa54d765b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 06/16] fix: dropping a drain of an empty tree or at the very
 end panicked

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..09a810f 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        let Some(store) = self.store.take() else {
+            // nothing to drain
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From 7e5b2c61fb8f65dda0fcafd349eb6fea7323b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 07/16] verif hook: fan-out 5 under cfg(vp_small), quiet the
 unknown-cfg lint

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d61acc5..9697a0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![doc = include_str!("../README.md")]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 use core::{fmt::Debug, ops::Range};
 use std::collections::{BTreeSet, VecDeque};
@@ -28,7 +29,7 @@ pub type HeapVec<T> = Vec<T>;
 const MAX_CHILDREN_NUM: usize = 12;
 /// Small fan-out for exhaustive state-space exploration (`RUSTFLAGS="--cfg vp_small"`)
 #[cfg(vp_small)]
-const MAX_CHILDREN_NUM: usize = 4;
+const MAX_CHILDREN_NUM: usize = 5;
 
 /// `Elem` should has length. `offset` in search result should always >= `Elem.rle_len()`
 pub trait BTreeTrait {
-- 
2.43.0


From e1e9bebd98e742cc59e17d1c0321a5de095d91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 08/16] fix: drain left stale summaries above a zero-length end
 element

---
 src/iter.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 09a810f..a10ebb3 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,7 +1,4 @@
-use crate::{
-    delete_range, rle::HasLength, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
-    QueryResult,
-};
+use crate::{delete_range, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath, QueryResult};
 
 /// iterate node (not element) from the start path to the **inclusive** end path
 pub(super) struct Iter<'a, B: BTreeTrait> {
@@ -57,19 +54,8 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
                 Some(node_idx)
             }
         };
-        let leaf_after_drain_range = {
-            let node_idx = end_path.last().unwrap().arena;
-            if let Some(end) = end_result {
-                let len = tree.leaf_nodes.get(end.leaf.0).unwrap().elem.rle_len();
-                if len == end.offset {
-                    tree.next_same_level_in_node(node_idx)
-                } else {
-                    Some(node_idx)
-                }
-            } else {
-                None
-            }
-        };
+        // the end leaf is not drained, even when it has zero length
+        let leaf_after_drain_range = end_result.map(|_| end_path.last().unwrap().arena);
         Self {
             current_path: tree.get_path(start_result.leaf.into()),
             tree,
-- 
2.43.0


From 2fda53957a158ebe1ff2e180ea982d1cb2a89136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 09/16] fix: empty sub-ranges panicked or were applied in
 update_leaves_with_arg_in_ranges

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9697a0c..b28c6ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1415,7 +1415,12 @@ impl<B: BTreeTrait> BTree<B> {
             let len = leaf_node.elem().rle_len();
             let mut split_at = BTreeSet::new();
             // PERF we can avoid this alloc and `group_by`
-            let group: Vec<_> = group.into_iter().collect();
+            //
+            // Empty ranges affect nothing, unless the element itself has zero length
+            let group: Vec<_> = group
+                .into_iter()
+                .filter(|(_, range, _)| len == 0 || !range.is_empty())
+                .collect();
             for (_, range, _) in group.iter() {
                 split_at.insert(range.start);
                 split_at.insert(range.end);
-- 
2.43.0


From 94f7337b0d4149924832a83cf5459385cfe8e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 10/16] fix: merge_adj reordered the elements between two
 mergeable pairs

---
 src/lib.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b28c6ab..22590fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2750,28 +2750,13 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    data.dedup_by(|next, this| {
+        let can_merge = this.can_merge(next);
+        if can_merge {
+            this.merge_right(next);
         }
-        i += 1;
-    }
-
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+        can_merge
+    });
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From 773d63b83c4c671fc5e8ac2748c9c2a34ff27f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 11/16] fix: bulk insertion into an empty tree panicked and
 left the root cache empty

---
 src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22590fe..e350312 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -721,6 +721,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -757,9 +758,11 @@ impl<B: BTreeTrait> BTree<B> {
     ///
     /// Returns (newly created subtree's root, height)
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
+        // leave room for later insertions
+        let max_child_size = MAX_CHILDREN_NUM - 2;
         let mut height = 0;
-        let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        let mut nodes = Vec::with_capacity(data.len() / max_child_size + 1);
+        for elem in data.into_iter().chunks(max_child_size).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -768,7 +771,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -785,13 +788,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
-            let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            let mut new_nodes = Vec::with_capacity(nodes.len() / max_child_size + 1);
+            for chunk in nodes.into_iter().chunks(max_child_size).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -805,10 +808,11 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
+                    let new_child = Child {
                         arena: ArenaIndex::Internal(child_idx),
                         cache,
                     };
+                    parent.children.push(new_child).unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From 1172056f3a9af8130d5a5b54fba7817e2a0471bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 12/16] fix: bulk insertion merged items into the wrong
 neighbour

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e350312..fbd2c18 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -602,7 +602,9 @@ impl<B: BTreeTrait> BTree<B> {
             .iter()
             .position(|x| x.arena.unwrap() == pos.leaf.0)
             .unwrap();
-        let left_neighbour = if leaf_slot == 0 {
+        let left_neighbour = if pos.offset > 0 {
+            Some(pos.leaf)
+        } else if leaf_slot == 0 {
             None
         } else {
             Some(parent.children[leaf_slot - 1].arena.unwrap().into())
@@ -746,7 +748,8 @@ impl<B: BTreeTrait> BTree<B> {
             inserted = i;
         }
 
-        let mut pos = new_pos.unwrap_or(cursor);
+        // the last leaf may have grown by merging above
+        let mut pos = new_pos.unwrap_or_else(|| self.end_cursor().unwrap());
         // TODO: PERF this can be optimized further
         for item in data.drain(inserted..).rev() {
             let (p, _) = self.insert_by_path(pos, item);
-- 
2.43.0


From ed7b96811bf052dc9e532b29d7a90ae6a013102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 13/16] fix: deleting an absent key from the ordered map
 removed a neighbour

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..7d3f04e 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From 6419b63e77e524a6b2539dea0f447dc3876ce542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 14/16] fix: deleting up to an inclusive usize::MAX overflowed
 instead of being clamped

---
 src/generic_impl/rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..ca53f4d 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -125,11 +125,11 @@ impl Rope {
 
         let start = match range.start_bound() {
             core::ops::Bound::Included(x) => *x,
-            core::ops::Bound::Excluded(x) => *x + 1,
+            core::ops::Bound::Excluded(x) => x.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&x) => x + 1,
+            core::ops::Bound::Included(&x) => x.saturating_add(1),
             core::ops::Bound::Excluded(&x) => x,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 3f6297d66b699e8267b4286fc6c983db9292a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 15/16] fix: clearing a rope kept a cursor into the old text

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index ca53f4d..f3b4c2b 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -241,6 +241,7 @@ impl Rope {
 
     pub fn clear(&mut self) {
         self.tree.clear();
+        self.cursor = None;
     }
 
     #[allow(unused)]
-- 
2.43.0


From 9c080c66eb9478e4739416d0abebb73ce7718b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:55 +0000
Subject: [PATCH 16/16] fix: trees of more than nine levels panicked when
 iterated, drained or updated

Paths held at most ten entries, which a tree of some 22 million appended
elements exceeds.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fbd2c18..81016a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -122,7 +122,9 @@ impl Idx {
     }
 }
 
-type NodePath = HeaplessVec<Idx, 10>;
+/// Long enough for any tree: half-full nodes give `2 * 6^12` elements on 14 levels,
+/// which is as many as there are arena slots.
+type NodePath = HeaplessVec<Idx, 16>;
 
 #[derive(Debug, Clone, PartialEq, Eq, Copy, Hash)]
 pub struct Cursor {
-- 
2.43.0

