From 59416a207bc63eadfa6d7b853b61ca316050c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 01/11] fix: keep same-ikey keys together when a leaf splits

calculate_split_point stopped inside a group of slots with equal ikeys when
the key being inserted sorted after the group, so the group straddled the two
leaves. Descent is by ikey alone: the keys left of the split became
unreachable, and inserting them again created a second entry.
---
 src/leaf24.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..339e401 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1220,8 +1220,10 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
                         split_pos -= 1;
                     }
                     std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
+                        // Insert goes right - keep the group whole on the left.
+                        // Descent is by ikey alone, so a group that straddles
+                        // the split would lose its left half.
+                        split_pos += 1;
                     }
                 }
             } else {
-- 
2.43.0


From b5be6618687ee6e5ffcf1c81c5515b6632776c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 02/11] fix: readers must not validate against a node that is
 being modified

The lookup and descent loops accepted a snapshot taken while a writer held the
node, because has_changed() ignores INSERTING_BIT and the version is only
advanced at unlock. A lookup could read a slot between clear_ksuf() and the
installation of the layer pointer (or an internode in the middle of a shift),
pass validation, and report an inserted key as absent.
---
 src/tree/generic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..2194c72 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -584,7 +584,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -742,7 +742,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
@@ -909,7 +909,7 @@ where
             }
 
             // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From 9a61b9c26deda8ed3608969a1563d859c659faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 03/11] fix: restart a sublayer insert from the sublayer, not
 the tree root

When the sibling walk exceeded its hop limit the insert restarted from the main
root with a key that had already been shifted into a sublayer, so the entry was
stored under a suffix of the key: the key itself was lost and another appeared.
---
 src/tree/generic.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 2194c72..a580c42 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1586,9 +1586,13 @@ where
             // B-link advance if needed
             let (leaf, exceeded_hop_limit) = self.advance_to_key_by_bound_generic(leaf, key, guard);
 
-            // If we exceeded the hop limit, re-traverse from root
+            // If we exceeded the hop limit, re-traverse from this layer's root.
+            // `key` has already been shifted past the layers above, so a
+            // sublayer must not restart from the root of the whole tree.
             if exceeded_hop_limit {
-                layer_root = self.load_root_ptr_generic(guard);
+                if !in_sublayer {
+                    layer_root = self.load_root_ptr_generic(guard);
+                }
                 continue;
             }
 
-- 
2.43.0


From a3e0bf4cf2a42c95187ef4280f3d4c9c3810f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 04/11] fix: is_empty() must not report an empty tree while the
 root leaf splits

A split freezes the root leaf's permutation, and a frozen permutation reads as
size 0, so is_empty() returned true for a full leaf. The root pointer was also
loaded twice, so a root leaf replaced by an internode in between was read as a
leaf.
---
 src/tree/generic.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index a580c42..ec8dac0 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -168,10 +168,23 @@ where
     #[must_use]
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
-        if self.root_is_leaf_generic() {
-            // SAFETY: root_is_leaf_generic confirmed this is a leaf
-            let leaf_ptr: *const L = self.root_ptr.load(AtomicOrdering::Acquire).cast();
-            unsafe { (*leaf_ptr).is_empty() }
+        use crate::leaf_trait::TreePermutation;
+
+        // Load the root once: a concurrent split may replace a root leaf with
+        // an internode between two loads.
+        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
+
+        // SAFETY: `root_ptr` always points to a valid node, and `NodeVersion`
+        // is the first field of both leaf and internode types.
+        #[expect(clippy::cast_ptr_alignment, reason = "proper alignment")]
+        let version: &NodeVersion = unsafe { &*(root.cast::<NodeVersion>()) };
+
+        if version.is_leaf() {
+            // SAFETY: is_leaf() confirmed this is a leaf
+            let leaf: &L = unsafe { &*root.cast::<L>() };
+
+            // A frozen permutation means the leaf is being split, so it has keys.
+            leaf.permutation_try().is_ok_and(|perm| perm.size() == 0)
         } else {
             // Internode implies at least one key
             false
@@ -225,27 +238,6 @@ where
             .map(|_| ())
     }
 
-    /// Check if the current root is a leaf node.
-    ///
-    /// # Safety
-    /// Reads the version field through a raw pointer. The `root_ptr` must
-    /// point to a valid node (guaranteed by construction).
-    #[inline(always)]
-    #[expect(
-        clippy::cast_ptr_alignment,
-        reason = "root_ptr points to L or L::Internode, both have NodeVersion \
-                  as first field with proper alignment"
-    )]
-    fn root_is_leaf_generic(&self) -> bool {
-        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
-
-        // SAFETY: `root_ptr` always points to a valid node.
-        // `NodeVersion` is the first field of both leaf and internode types.
-        let version_ptr: *const NodeVersion = root.cast::<NodeVersion>();
-
-        unsafe { (*version_ptr).is_leaf() }
-    }
-
     /// Get a mutable reference to the allocator.
     #[inline(always)]
     pub(crate) const fn allocator_mut(&mut self) -> &mut A {
-- 
2.43.0


From 3a4a5573cb54e4b6140f29266606bd60fd955eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 05/11] fix: publish shifted internode keys with Release

insert_key_and_child() stored the keys of a live internode with Relaxed
ordering. On a weakly ordered machine a reader could see a shifted key without
seeing the dirty version, validate the torn node against the stale version and
descend to the wrong child, so an inserted key was reported absent.
---
 src/internode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internode.rs b/src/internode.rs
index 48c37bb..707186b 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -439,16 +439,19 @@ impl<S: ValueSlot, const WIDTH: usize> InternodeNode<S, WIDTH> {
         // Shift keys and children to the right
         // Keys: ikey0[p..n] -> ikey0[p+1..n+1]
         // Children: child[p+1..n+1] -> child[p+2..n+2]
+        //
+        // Release, not Relaxed: a reader that sees a shifted key must also see
+        // the dirty version, or it validates a torn node against a stale one.
         for i in (p..n).rev() {
             let key: u64 = self.ikey0[i].load(RELAXED);
-            self.ikey0[i + 1].store(key, RELAXED);
+            self.ikey0[i + 1].store(key, WRITE_ORD);
 
             let child = self.child(i + 1);
             self.set_child(i + 2, child);
         }
 
         // Insert new key and child
-        self.ikey0[p].store(new_ikey, RELAXED);
+        self.ikey0[p].store(new_ikey, WRITE_ORD);
         self.set_child(p + 1, new_child);
 
         fence(WRITE_ORD);
-- 
2.43.0


From 4814ea9deb5714f90f22326390303748e48024ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 06/11] fix: empty a leaf slot with Release when its value
 moves away

take_leaf_value_ptr() used a Relaxed swap. On a weakly ordered machine a reader
could see the emptied slot without seeing the dirty version, validate against
the stale version and report an inserted key as absent.
---
 src/leaf24.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 339e401..74e7437 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -17,7 +17,7 @@ use std::ptr as StdPtr;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64};
 
 use crate::nodeversion::NodeVersion;
-use crate::ordering::{READ_ORD, RELAXED, WRITE_ORD};
+use crate::ordering::{CAS_SUCCESS, READ_ORD, RELAXED, WRITE_ORD};
 use crate::permuter24::{AtomicPermuter24, Permuter24};
 use crate::slot::ValueSlot;
 use crate::suffix::SuffixBag;
@@ -649,7 +649,9 @@ impl<S: ValueSlot> LeafNode24<S> {
     pub fn take_leaf_value_ptr(&self, slot: usize) -> *mut u8 {
         debug_assert!(slot < WIDTH_24, "take_leaf_value_ptr: slot out of bounds");
 
-        self.leaf_values[slot].swap(StdPtr::null_mut(), RELAXED)
+        // Release, not Relaxed: a reader that sees the null must also see the
+        // dirty version, or it validates the emptied slot against a stale one.
+        self.leaf_values[slot].swap(StdPtr::null_mut(), CAS_SUCCESS)
     }
 
     /// Check if a slot is empty (value pointer is null).
-- 
2.43.0


From 3909e27cd746f7ec6067eb79c13f633359b158aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 07/11] fix: never mutate a published suffix bag

assign_ksuf() appended to (or overwrote) the bag in place while readers, which
take no lock and validate the version only afterwards, were slicing it: a data
race on the Vec and its slot metadata, which could hand a reader a torn
offset/length. Publish a copy instead, as clear_ksuf() already does.
---
 src/leaf24.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 74e7437..afbdf90 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -401,21 +401,8 @@ impl<S: ValueSlot> LeafNode24<S> {
 
         let old_ptr: *mut SuffixBag<WIDTH_24> = self.ksuf.load(RELAXED);
 
-        // FAST PATH: Try in-place assignment if bag exists and has room.
-        // This avoids clone + box allocation + defer_retire in the common case.
-        // SAFETY: We hold the lock, so no concurrent writers. Readers use version
-        // validation and will retry if they see partial state.
-        if !old_ptr.is_null() {
-            // SAFETY: old_ptr is non-null and came from Box::into_raw.
-            // We hold the lock, so we can mutate the bag in place.
-            let bag: &mut SuffixBag<WIDTH_24> = unsafe { &mut *old_ptr };
-            if bag.try_assign_in_place(slot, suffix) {
-                self.keylenx[slot].store(KSUF_KEYLENX, WRITE_ORD);
-                return;
-            }
-        }
-
-        // SLOW PATH: Need to allocate a new bag (either first allocation or bag is full)
+        // Never mutate a published bag: readers access it without the lock, and
+        // version validation only happens after they have read its metadata.
         let mut new_bag: SuffixBag<WIDTH_24> = if old_ptr.is_null() {
             SuffixBag::new()
         } else {
-- 
2.43.0


From 30a04f964b28bb29844389a5c478e0ba1f1800d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 08/11] fix: load retirable pointers with the ordering seize's
 guards need

Values and suffix bags were loaded with Acquire. seize requires loads of
pointers that may be retired to go through Guard::protect, i.e. SeqCst:
where it has no process-wide barrier (no membarrier), an Acquire load may
be satisfied before the guard's entry is visible, and the reader then
dereferences a value that was already reclaimed.
---
 src/leaf24.rs   | 6 +++---
 src/ordering.rs | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index afbdf90..b2ae196 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -17,7 +17,7 @@ use std::ptr as StdPtr;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64};
 
 use crate::nodeversion::NodeVersion;
-use crate::ordering::{CAS_SUCCESS, READ_ORD, RELAXED, WRITE_ORD};
+use crate::ordering::{CAS_SUCCESS, PROTECT_ORD, READ_ORD, RELAXED, WRITE_ORD};
 use crate::permuter24::{AtomicPermuter24, Permuter24};
 use crate::slot::ValueSlot;
 use crate::suffix::SuffixBag;
@@ -349,7 +349,7 @@ impl<S: ValueSlot> LeafNode24<S> {
     #[must_use]
     #[inline(always)]
     pub fn ksuf_ptr(&self) -> *mut SuffixBag<WIDTH_24> {
-        self.ksuf.load(READ_ORD)
+        self.ksuf.load(PROTECT_ORD)
     }
 
     /// Check if this leaf has suffix storage allocated.
@@ -612,7 +612,7 @@ impl<S: ValueSlot> LeafNode24<S> {
     pub fn leaf_value_ptr(&self, slot: usize) -> *mut u8 {
         debug_assert!(slot < WIDTH_24, "leaf_value_ptr: slot out of bounds");
 
-        self.leaf_values[slot].load(READ_ORD)
+        self.leaf_values[slot].load(PROTECT_ORD)
     }
 
     /// Store leaf value pointer at the given slot.
diff --git a/src/ordering.rs b/src/ordering.rs
index 1306426..6be56ea 100644
--- a/src/ordering.rs
+++ b/src/ordering.rs
@@ -9,6 +9,12 @@ use std::sync::atomic::Ordering;
 /// Pairs with writer's Release stores.
 pub const READ_ORD: Ordering = Ordering::Acquire;
 
+/// Ordering for reading pointers that may be retired (values, suffix bags).
+/// This is what `seize`'s `Guard::protect` uses: it puts the load after the guard's entry in
+/// the order that the retiring thread's barrier takes part in. `Acquire` is not enough where
+/// `seize` has no process-wide barrier to rely on.
+pub const PROTECT_ORD: Ordering = Ordering::SeqCst;
+
 /// Ordering for writing node fields under lock.
 /// Pairs with reader's Acquire loads.
 pub const WRITE_ORD: Ordering = Ordering::Release;
-- 
2.43.0


From 06ac43f004c53e44fd8e00eec05992e5ae76b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 09/11] fix: a lookup that meets a marked next pointer must
 retry, not miss

---
 src/tree/generic.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index ec8dac0..0154dd8 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -613,8 +613,15 @@ where
                     }
 
                     let next_raw: *mut L = leaf.next_raw();
+                    if is_marked(next_raw) {
+                        // A split began after validation: the key may belong to
+                        // the right of this leaf, so its absence here settles nothing.
+                        leaf.wait_for_split();
+                        version = leaf.version().stable();
+                        continue 'search_loop;
+                    }
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
                             leaf_ptr = next_ptr;
@@ -778,8 +785,15 @@ where
 
                     // Check if key belongs to a right sibling via B-link
                     let next_raw: *mut L = leaf.next_raw();
+                    if is_marked(next_raw) {
+                        // A split began after validation: the key may belong to
+                        // the right of this leaf, so its absence here settles nothing.
+                        leaf.wait_for_split();
+                        version = leaf.version().stable();
+                        continue 'search_loop;
+                    }
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         // SAFETY: next_ptr is valid
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
-- 
2.43.0


From 2216658ce1c93acb48ad7270b4c57cf0d053eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 10/11] fix: copy only the live suffixes of a bag

Every suffix change clones the leaf's bag. The clone carried over the bytes of
suffixes that had been cleared by splits, so a leaf that keeps taking new long
keys in place of split-off ones grew its bag, and the cost of each insert,
without bound.
---
 src/suffix.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/suffix.rs b/src/suffix.rs
index a43e3c7..b7afbba 100644
--- a/src/suffix.rs
+++ b/src/suffix.rs
@@ -476,12 +476,22 @@ impl<const WIDTH: usize> Default for SuffixBag<WIDTH> {
 }
 
 impl<const WIDTH: usize> Clone for SuffixBag<WIDTH> {
-    #[inline(always)]
+    /// Copy the live suffixes.
+    ///
+    /// Bytes of cleared or replaced suffixes are left behind: a leaf clones its
+    /// bag on every suffix change, so copying them would let a leaf whose slots
+    /// are reused forever grow its bag forever.
     fn clone(&self) -> Self {
-        Self {
-            slots: self.slots,
-            data: self.data.clone(),
+        let live: usize = self.slots.iter().map(|meta| meta.len as usize).sum();
+        let mut bag = Self::with_capacity(live.max(INITIAL_CAPACITY));
+
+        for slot in 0..WIDTH {
+            if let Some(suffix) = self.get(slot) {
+                bag.assign(slot, suffix);
+            }
         }
+
+        bag
     }
 }
 
-- 
2.43.0


From af8b5cef066bf0c9a1bba3861bb9444b91265d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 11/11] fix: refuse a guard created by another tree

A lookup or insert under another tree's guard was accepted although that
guard does not protect this tree: the reference returned by get_ref could
outlive the value, in safe code.
---
 src/tree/generic.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0154dd8..0e0f897 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -155,6 +155,18 @@ where
         self.collector.enter()
     }
 
+    /// Refuse a guard that was not created by this tree.
+    ///
+    /// Such a guard does not protect this tree's nodes and values: they could be
+    /// reclaimed while it is active, and references tied to it would dangle.
+    #[inline(always)]
+    fn check_guard(&self, guard: &LocalGuard<'_>) {
+        assert!(
+            *guard.collector() == self.collector,
+            "attempted to use a guard that belongs to another tree"
+        );
+    }
+
     /// Get the number of keys in the tree.
     ///
     /// This is O(1) as we track the count incrementally.
@@ -450,9 +462,14 @@ where
     ///
     /// * `Some(Arc<V>)` - If the key was found
     /// * `None` - If the key was not found
+    ///
+    /// # Panics
+    /// If `guard` was created by another tree.
     #[must_use]
     #[inline(always)]
     pub fn get_with_guard(&self, key: &[u8], guard: &LocalGuard<'_>) -> Option<S::Output> {
+        self.check_guard(guard);
+
         let mut search_key: Key<'_> = Key::new(key);
         self.get_concurrent_generic(&mut search_key, guard)
     }
@@ -476,9 +493,14 @@ where
     ///
     /// * `Some(&V)` - A reference to the value, valid for the guard's lifetime
     /// * `None` - If the key was not found
+    ///
+    /// # Panics
+    /// If `guard` was created by another tree.
     #[must_use]
     #[inline(always)]
     pub fn get_ref<'g>(&self, key: &[u8], guard: &'g LocalGuard<'_>) -> Option<&'g S::Value> {
+        self.check_guard(guard);
+
         let mut search_key: Key<'_> = Key::new(key);
         self.get_ref_generic(&mut search_key, guard)
     }
@@ -1535,12 +1557,17 @@ where
     ///
     /// # Errors
     /// If insert fails.
+    ///
+    /// # Panics
+    /// If `guard` was created by another tree.
     pub fn insert_with_guard(
         &self,
         key: &[u8],
         value: S::Value,
         guard: &LocalGuard<'_>,
     ) -> Result<Option<S::Output>, InsertError> {
+        self.check_guard(guard);
+
         let mut key = Key::new(key);
         let output = S::into_output(value);
         self.insert_concurrent_generic(&mut key, output, guard)
-- 
2.43.0

