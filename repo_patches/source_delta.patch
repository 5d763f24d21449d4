From d257bdb8bb0b76e9479a2ae739e52b1233885f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 01/10] fix: don't resolve right-biased anchors whose character
 isn't known yet

Replica::resolve_anchor is documented to return None if the replica hasn't
integrated the insertion containing the anchor, but a right-biased anchor to
the very next character of an author would pass the version check and panic
(or resolve to a bogus offset).
---
 src/replica.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..70ea208 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -929,7 +929,21 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        // An anchor that's biased to the right is attached to the character
+        // *after* its offset, so unlike the ones biased to the left we can
+        // only resolve it if we also have that character.
+        let has_anchor = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(anchor.inner()),
+
+            AnchorBias::Right => {
+                let inner = anchor.inner();
+                inner.is_zero()
+                    || self.version_map.get(inner.replica_id())
+                        > inner.offset()
+            },
+        };
+
+        if has_anchor {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From dc95956110f7b7b5fe1ea73a06954d8299f9a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 02/10] fix: don't panic when an already backlogged edit is
 received again

Receiving the same out-of-order edit twice is documented to be a no-op for
integrated edits, but for backlogged ones it would panic.
---
 src/backlog.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..2777be5 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -32,9 +32,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
+    /// Does nothing if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -48,9 +46,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
+    /// Does nothing if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -97,15 +93,15 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
+    /// Inserts the insertion, doing nothing if it's already backlogged.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
+        let Err(offset) = self
             .insertions
             .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
+        else {
+            return;
+        };
 
         self.insertions.insert(offset, insertion);
     }
@@ -142,17 +138,14 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
+    /// Inserts the deletion, doing nothing if it's already backlogged.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
+        let Err(offset) = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        }) else {
+            return;
+        };
 
         self.deletions.insert(offset, deletion);
     }
-- 
2.43.0


From 502924a8de390ca5c5d043b29e6247bd846c60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 03/10] fix: remove an edit from the backlog when it's merged
 directly

If an edit was backlogged, became ready to be merged and was then received
again before draining the backlog it would be merged directly, leaving a stale
copy at the front of its author's backlog. That copy could never be merged, so
all the edits backlogged after it would be lost (and draining the backlog would
panic with debug assertions enabled).
---
 src/backlog.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 src/replica.rs |  4 ++++
 2 files changed, 44 insertions(+)

diff --git a/src/backlog.rs b/src/backlog.rs
index 2777be5..890a3ac 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -60,6 +60,46 @@ impl Backlog {
     pub fn new() -> Self {
         Self::default()
     }
+
+    /// Removes the given [`Deletion`] from the backlog, if it's there.
+    ///
+    /// The deletion must be the next one to be merged among the ones made by
+    /// its author, so it can only be at the front of their backlog.
+    #[inline]
+    pub fn remove_deletion(&mut self, deletion: &Deletion) {
+        let Some(backlog) = self.deletions.get_mut(&deletion.deleted_by())
+        else {
+            return;
+        };
+
+        if backlog
+            .deletions
+            .front()
+            .is_some_and(|first| first.deletion_ts() == deletion.deletion_ts())
+        {
+            backlog.deletions.pop_front();
+        }
+    }
+
+    /// Removes the given [`Insertion`] from the backlog, if it's there.
+    ///
+    /// The insertion must be the next one to be merged among the ones made by
+    /// its author, so it can only be at the front of their backlog.
+    #[inline]
+    pub fn remove_insertion(&mut self, insertion: &Insertion) {
+        let Some(backlog) = self.insertions.get_mut(&insertion.inserted_by())
+        else {
+            return;
+        };
+
+        if backlog
+            .insertions
+            .front()
+            .is_some_and(|first| first.start() == insertion.start())
+        {
+            backlog.insertions.pop_front();
+        }
+    }
 }
 
 /// Stores the backlogged [`Insertion`]s of a particular replica.
diff --git a/src/replica.rs b/src/replica.rs
index 70ea208..e49c9d1 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -715,6 +715,8 @@ impl Replica {
         if deletion.is_no_op() || self.has_merged_deletion(deletion) {
             Vec::new()
         } else if self.can_merge_deletion(deletion) {
+            // The deletion might've already been received and backlogged.
+            self.backlog.remove_deletion(deletion);
             self.merge_unchecked_deletion(deletion)
         } else {
             self.backlog.insert_deletion(deletion.clone());
@@ -774,6 +776,8 @@ impl Replica {
         if insertion.is_no_op() || self.has_merged_insertion(insertion) {
             None
         } else if self.can_merge_insertion(insertion) {
+            // The insertion might've already been received and backlogged.
+            self.backlog.remove_insertion(insertion);
             Some(self.merge_unchecked_insertion(insertion))
         } else {
             self.backlog.insert_insertion(insertion.clone());
-- 
2.43.0


From 6bd3ef923b3202133cfb43cbc5f1aee2d613782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 04/10] fix: don't overflow the stack when draining many no-op
 deletions

BackloggedDeletions::next() recursed once for every backlogged deletion whose
text had already been deleted by someone else.
---
 src/backlog.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 890a3ac..691afc0 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -231,24 +231,20 @@ impl Iterator for BackloggedDeletions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let deletions = self.current.as_mut()?;
-
-        let Some(first) = deletions.deletions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
-
-        if self.replica.can_merge_deletion(first) {
-            let first = deletions.deletions.pop_front().unwrap();
-            let ranges = self.replica.merge_unchecked_deletion(&first);
-            if ranges.is_empty() {
-                self.next()
-            } else {
-                Some(ranges)
+        loop {
+            let deletions = self.current.as_mut()?;
+
+            match deletions.deletions.front() {
+                Some(first) if self.replica.can_merge_deletion(first) => {
+                    let first = deletions.deletions.pop_front().unwrap();
+                    let ranges = self.replica.merge_unchecked_deletion(&first);
+                    if !ranges.is_empty() {
+                        return Some(ranges);
+                    }
+                },
+
+                _ => self.current = self.iter.next(),
             }
-        } else {
-            self.current = self.iter.next();
-            self.next()
         }
     }
 }
-- 
2.43.0


From 1b409eddf9489b456e27901ea8f1e7a15a8946cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 05/10] fix: yield all the backlogged insertions that become
 ready

BackloggedInsertions made a single pass over the authors (in hash map order),
so an insertion that only became ready because of an insertion yielded later in
the same pass was left in the backlog. If it was the last edit to be received
the replica would permanently diverge from its peers even though it had
received all the edits and drained its backlog.

Checking all the authors again also removes the need to alias the backlog
while merging.
---
 src/backlog.rs | 64 ++++++++++++++++++++++++++------------------------
 src/replica.rs |  5 ++++
 2 files changed, 38 insertions(+), 31 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 691afc0..b8b3a35 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -61,6 +61,12 @@ impl Backlog {
         Self::default()
     }
 
+    /// Removes the first backlogged [`Insertion`] made by the given replica.
+    #[inline]
+    fn pop_front_insertion(&mut self, id: ReplicaId) -> Option<Insertion> {
+        self.insertions.get_mut(&id)?.insertions.pop_front()
+    }
+
     /// Removes the given [`Deletion`] from the backlog, if it's there.
     ///
     /// The deletion must be the next one to be merged among the ones made by
@@ -259,30 +265,15 @@ impl core::iter::FusedIterator for BackloggedDeletions<'_> {}
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedInsertions<'a> {
     replica: &'a mut Replica,
-    current: Option<&'a mut InsertionsBacklog>,
-    iter: ReplicaIdMapValuesMut<'a, InsertionsBacklog>,
+
+    /// The author of the last insertion yielded by the iterator.
+    current: Option<ReplicaId>,
 }
 
 impl<'a> BackloggedInsertions<'a> {
     #[inline]
     pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
-        let backlog = replica.backlog_mut();
-
-        // We transmute the exclusive reference to the backlog into the same
-        // type to get around the borrow checker.
-        //
-        // SAFETY: this is safe because in the `Iterator` implementation we
-        // never access the backlog through the `Replica`, neither directly nor
-        // by calling any methods on `Replica` that would access the backlog.
-        let backlog = unsafe {
-            core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
-        };
-
-        let mut iter = backlog.insertions.values_mut();
-
-        let current = iter.next();
-
-        Self { replica, current, iter }
+        Self { replica, current: None }
     }
 }
 
@@ -291,21 +282,32 @@ impl Iterator for BackloggedInsertions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let insertions = self.current.as_mut()?;
+        let backlog = self.replica.backlog();
+
+        let is_ready = |id: &ReplicaId| {
+            backlog.insertions.get(id).is_some_and(|insertions| {
+                insertions.insertions.front().is_some_and(|first| {
+                    self.replica.can_merge_insertion(first)
+                })
+            })
+        };
 
-        let Some(first) = insertions.insertions.front() else {
-            self.current = self.iter.next();
-            return self.next();
+        // Merging an insertion can make the ones backlogged by any other
+        // author ready to be merged, so once the current author's insertions
+        // are exhausted we have to check all the other ones again.
+        let author = match self.current.filter(is_ready) {
+            Some(author) => author,
+            None => backlog.insertions.keys().copied().find(is_ready)?,
         };
 
-        if self.replica.can_merge_insertion(first) {
-            let first = insertions.insertions.pop_front().unwrap();
-            let edit = self.replica.merge_unchecked_insertion(&first);
-            Some((first.text().clone(), edit))
-        } else {
-            self.current = self.iter.next();
-            self.next()
-        }
+        self.current = Some(author);
+
+        let insertion =
+            self.replica.backlog_mut().pop_front_insertion(author)?;
+
+        let offset = self.replica.merge_unchecked_insertion(&insertion);
+
+        Some((insertion.text().clone(), offset))
     }
 }
 
diff --git a/src/replica.rs b/src/replica.rs
index e49c9d1..9a791b4 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -200,6 +200,11 @@ impl Replica {
         BackloggedInsertions::from_replica(self)
     }
 
+    #[inline]
+    pub(crate) fn backlog(&self) -> &Backlog {
+        &self.backlog
+    }
+
     #[inline]
     pub(crate) fn backlog_mut(&mut self) -> &mut Backlog {
         &mut self.backlog
-- 
2.43.0


From c54c10a3707fd7656cd51e9b96bcbf394a9aa85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 06/10] fix: don't overflow when decoding an invalid text range

Deserializing arbitrary bytes into an Insertion, a Deletion, a Text or an
EncodedReplica could overflow while adding a length to an offset, panicking
with overflow checks enabled and silently producing an inverted range without.
---
 src/backlog.rs  | 5 ++++-
 src/deletion.rs | 5 ++++-
 src/text.rs     | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index b8b3a35..239bf31 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -492,9 +492,12 @@ pub(crate) mod encode {
                 let (run_ts, new_buf) = RunTs::decode(new_buf)?;
                 let (lamport_ts, new_buf) = LamportTs::decode(new_buf)?;
 
+                let end =
+                    start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+
                 let insertion = Insertion::new(
                     anchor,
-                    Text::new(replica_id, start..start + len),
+                    Text::new(replica_id, start..end),
                     lamport_ts,
                     run_ts,
                 );
diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..ccc0b82 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -277,9 +277,12 @@ mod encode {
                     let (run_ts, buf) = RunTs::decode(buf)?;
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
                     let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                        InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/text.rs b/src/text.rs
index 554cf42..12c5d87 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,8 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end = start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From 3941d47028d4a6c2781a1da65bdf950717cf1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 07/10] fix: return an error when decoding an EncodedReplica
 with an invalid payload

DecodeError::InvalidData is documented to be returned when the protocol version
and the checksum are right and yet the data is invalid, but a leaf index, a
number of children or a number of leaves that's out of bounds would panic (or
abort when trying to allocate too much memory) instead.
---
 src/gtree.rs    | 11 +++++++++++
 src/run_tree.rs | 28 ++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..8388027 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -3689,6 +3689,7 @@ pub(crate) mod encode {
     pub(crate) enum InodeDecodeError {
         Bool(BoolDecodeError),
         Int(IntDecodeError),
+        TooManyChildren(usize),
     }
 
     impl From<BoolDecodeError> for InodeDecodeError {
@@ -3710,6 +3711,13 @@ pub(crate) mod encode {
             let err: &dyn core::fmt::Display = match self {
                 Self::Bool(err) => err,
                 Self::Int(err) => err,
+                Self::TooManyChildren(num) => {
+                    return write!(
+                        f,
+                        "Inode couldn't be decoded: it can't have {num} \
+                         children",
+                    );
+                },
             };
 
             write!(f, "Inode couldn't be decoded: {err}")
@@ -3731,6 +3739,9 @@ pub(crate) mod encode {
             let (num_children, buf) = usize::decode(buf)?;
             let (has_leaves, mut buf) = bool::decode(buf)?;
             let mut children = [NodeIdx::dangling(); N];
+            if num_children > N {
+                return Err(InodeDecodeError::TooManyChildren(num_children));
+            }
             for idx in &mut children[..num_children] {
                 let (node_idx, new_buf) = NodeIdx::decode(buf)?;
                 *idx = node_idx;
diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..2059f75 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -1185,6 +1185,8 @@ pub(crate) mod encode {
         Bool(BoolDecodeError),
         Inode(InodeDecodeError),
         Int(IntDecodeError),
+        LeafIdxOutOfBounds,
+        NotEnoughLeaves,
     }
 
     impl From<BoolDecodeError> for RunTreeDecodeError {
@@ -1215,6 +1217,8 @@ pub(crate) mod encode {
                 Self::Bool(err) => err,
                 Self::Inode(err) => err,
                 Self::Int(err) => err,
+                Self::LeafIdxOutOfBounds => &"leaf index out of bounds",
+                Self::NotEnoughLeaves => &"not enough leaves",
             };
 
             write!(f, "RunTree: couldn't be decoded: {err}")
@@ -1245,6 +1249,12 @@ pub(crate) mod encode {
 
             let mut ctx = RunTreeDecodeCtx::default();
 
+            // Every leaf takes up more than one byte, so if there are more
+            // leaves than bytes left in the buffer the data must be invalid.
+            if num_leaves > buf.len() as u64 {
+                return Err(RunTreeDecodeError::NotEnoughLeaves);
+            }
+
             let dummy_lnode =
                 Lnode::new(EditRun::dummy(), InodeIdx::dangling());
 
@@ -1434,21 +1444,27 @@ pub(crate) mod encode {
             let (leaf_idx, buf) = LeafIdx::<EditRun>::decode(buf)?;
             let (parent_idx, buf) = InodeIdx::decode(buf)?;
 
-            ctx.fragments.append(Fragment::new(len, leaf_idx));
-
             let temporal_start = ctx.temporal_offset;
 
-            ctx.temporal_offset += len;
+            let temporal_end = temporal_start
+                .checked_add(len)
+                .ok_or(IntDecodeError::Overflow)?;
 
-            let temporal_end = ctx.temporal_offset;
+            ctx.temporal_offset = temporal_end;
+
+            ctx.fragments.append(Fragment::new(len, leaf_idx));
 
             let text = Text::new(ctx.replica_id, temporal_start..temporal_end);
 
             let edit_run =
                 EditRun::new(text, ctx.run_ts, lamport_ts, is_deleted);
 
-            ctx.lnodes[leaf_idx.into_usize()] =
-                Lnode::new(edit_run, parent_idx);
+            let lnode = ctx
+                .lnodes
+                .get_mut(leaf_idx.into_usize())
+                .ok_or(RunTreeDecodeError::LeafIdxOutOfBounds)?;
+
+            *lnode = Lnode::new(edit_run, parent_idx);
 
             Ok(((), buf))
         }
-- 
2.43.0


From 40a07b0a99299d2b57725df720382b1b9f58a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 08/10] fix: don't wrap around when deleting a range that ends
 at usize::MAX

Replica::deleted(..=usize::MAX) is documented to panic because its end is out
of bounds, but with overflow checks disabled its end would wrap around to zero
and it'd silently be treated as a no-op.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..9f74c9e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -112,12 +112,12 @@ where
 
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        Bound::Excluded(&n) => n.saturating_add(1),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => n.saturating_add(1),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From d7622a5a54313dd91a6a8f7770eedd1ab7d53c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 09/10] fix: don't trust the size hint when deserializing an
 edit

---
 src/encode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4cc71ed..a9f349c 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -181,7 +181,9 @@ mod serde {
                         where
                             A: ::serde::de::SeqAccess<'de>,
                         {
-                            let size = seq.size_hint().unwrap_or(0);
+                            // The size hint comes from the input, so it can't
+                            // be trusted.
+                            let size = seq.size_hint().unwrap_or(0).min(4096);
                             let mut buf =
                                 ::alloc::vec::Vec::<u8>::with_capacity(size);
                             while let Some(byte) = seq.next_element()? {
-- 
2.43.0


From 1ab77cdc5500126fb11764f9bbe0adcde1b87306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:12 +0000
Subject: [PATCH 10/10] fix: don't mutate the Gtree through a shared reference

When merging a deletion, the runs that are deleted as a whole were modified
through a `&mut Gtree` transmuted from a `&Gtree` while an iterator was still
borrowing it. That is undefined behavior (both of Miri's aliasing models reject
it). Walk the runs by index instead, which needs no unsafe code.
---
 src/run_tree.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index 2059f75..de5433a 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -604,10 +604,14 @@ impl RunTree {
             }
         };
 
-        let mut runs = self.gtree.leaves::<true>(start_idx);
+        let mut next_idx = Some(start_idx);
 
         loop {
-            let (run_idx, run) = runs.next().unwrap();
+            let run_idx = next_idx.unwrap();
+
+            next_idx = self.gtree.next_leaf(run_idx);
+
+            let run = self.gtree.leaf(run_idx);
 
             if run_idx == end_idx {
                 if run.is_deleted {
@@ -661,11 +665,11 @@ impl RunTree {
                 } else {
                     let delete_up_to = deleted_up_to - run.start();
 
-                    let next_idx = self.delete_leaf_range(
+                    next_idx = Some(self.delete_leaf_range(
                         run_idx,
                         leaf_offset,
                         (0..delete_up_to).into(),
-                    );
+                    ));
 
                     let deletion_start =
                         if let DeletionState::Deleting(start) = state {
@@ -681,29 +685,14 @@ impl RunTree {
                     state = DeletionState::Skipping;
 
                     visible_offset += delete_up_to;
-
-                    runs = self.gtree.leaves::<true>(next_idx);
                 }
 
                 continue;
             }
 
-            // This is awful but I'm not sure it can be avoided. We
-            // transmute a shared reference to the Gtree to an exclusive
-            // one to modify it while we're iterating over it.
-            //
-            // SAFETY: this is safe because deleting a whole run doesn't
-            // modify the Gtree's structure at all (no heap allocations,
-            // etc), only the lengths of all the nodes from the run we're
-            // deleting up to the root.
-            let gtree = unsafe {
-                #[allow(mutable_transmutes)]
-                core::mem::transmute::<&Gtree, &mut Gtree>(&self.gtree)
-            };
-
-            gtree.with_leaf_mut(run_idx, EditRun::delete);
+            self.gtree.with_leaf_mut(run_idx, EditRun::delete);
 
-            gtree.remove_cursor();
+            self.gtree.remove_cursor();
 
             if !matches!(state, DeletionState::Deleting(_)) {
                 state = DeletionState::Deleting(visible_offset);
-- 
2.43.0

