From 2200a2d05b45984bded13d53aed2ad6f66e199a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 01/11] fix: reject the proof index u64::MAX instead of
 overflowing

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..f8c250c 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From f36ecdb8ab25f3c7347699a47f21a594591ae5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 02/11] fix: position navigation overflows i64 near the top of
 the index range

---
 src/common/position.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/common/position.rs b/src/common/position.rs
index 7b9ba75..36056bf 100644
--- a/src/common/position.rs
+++ b/src/common/position.rs
@@ -110,17 +110,13 @@ impl Position {
     /// The sibling position.
     /// A position shares the same parent and height as its sibling.
     pub fn sibling(self) -> Self {
-        let shift = 1 << (self.height() + 1);
-        let index = self.in_order_index() as i64 + shift * self.direction();
-        Self::from_in_order_index(index as u64)
+        self.offset(1 << (self.height() + 1), self.direction())
     }
 
     /// The parent position.
     /// The parent position has a height less 1 relative to this position.
     pub fn parent(self) -> Self {
-        let shift = 1 << self.height();
-        let index = self.in_order_index() as i64 + shift * self.direction();
-        Self::from_in_order_index(index as u64)
+        self.offset(1 << self.height(), self.direction())
     }
 
     /// The uncle position.
@@ -208,9 +204,19 @@ impl Position {
     /// current index.
     fn child(self, direction: i64) -> Self {
         assert!(self.is_node());
-        let shift = 1 << (self.height() - 1);
-        let index = self.in_order_index() as i64 + shift * direction;
-        Self::from_in_order_index(index as u64)
+        self.offset(1 << (self.height() - 1), direction)
+    }
+
+    /// The position that is `shift` indices away in the given direction.
+    /// In-order indices use the full `u64` range, so the offset is applied to
+    /// the unsigned index; a signed sum overflows near the top of the range.
+    fn offset(self, shift: u64, direction: i64) -> Self {
+        let index = if direction < 0 {
+            self.in_order_index() - shift
+        } else {
+            self.in_order_index() + shift
+        };
+        Self::from_in_order_index(index)
     }
 
     /// Orientation of the position index relative to its parent.
-- 
2.43.0


From 056b2cb83aa80dc6adfbf539771e060f3bc1f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 03/11] fix: deleting a sparse key that is not in the tree
 removes another leaf

---
 src/sparse/merkle_tree.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..e0bb835 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -106,13 +106,13 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
+        // Whether the key is in the tree is decided by the tree itself: descend
+        // towards the key and compare the leaf found there. The leaf's data is
+        // irrelevant to the descent.
+        let leaf_node = Node::create_leaf(key, &[]);
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+        let actual_leaf_node = &path_nodes[0];
+        if !actual_leaf_node.is_placeholder() && actual_leaf_node.leaf_key() == key {
             self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
-- 
2.43.0


From 9b0a94edf3c4d03e27f89566a61b2b87c669283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 04/11] fix: a sparse key equal to a node hash overwrites that
 node in storage

---
 src/sparse/merkle_tree.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index e0bb835..046c392 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -86,8 +86,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
-- 
2.43.0


From 253e0e77e68b5c1936e69f8db43b41361858e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 05/11] fix: load a sparse tree from the root of an empty tree

---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 046c392..029b27a 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root signifies an empty tree, which has no root node in
+            // storage.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 0d0b9a45440ec1e516239066b15c5d573ad50490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 06/11] fix: a failed sparse delete leaves the tree without its
 nodes

---
 src/sparse/merkle_tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 029b27a..cfded83 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -234,10 +234,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -290,6 +286,12 @@ where
 
         self.set_root_node(current_node);
 
+        // Remove the stale path only once the new path is in place. If storage
+        // fails at any point before, the previous tree is still intact.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 4f2ebfd68d9b8181252bb18e3012d2d02bb617cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 07/11] fix: a failed binary push drops every leaf of the tree

---
 src/binary/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index f8c250c..7fd76bc 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -295,10 +295,15 @@ where
     pub fn push(&mut self, data: &[u8]) -> Result<(), MerkleTreeError<StorageError>> {
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // The leaf is not in the tree: restore the peaks it was joined to.
+            self.head = previous_head;
+            return Err(err.into());
+        }
 
         self.leaves_count += 1;
 
-- 
2.43.0


From 61bef7f32811dcfa1627fb8c74e44b967fb11935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 08/11] fix: a failed sum tree push drops every leaf of the
 tree

---
 src/sum/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..51e4ce0 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -72,10 +72,15 @@ where
         let node = Node::create_leaf(fee, data);
         self.storage.insert(node.hash(), &node)?;
 
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // The leaf is not in the tree: restore the peaks it was joined to.
+            self.head = previous_head;
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 3d6e4c4e0a3d14953eaf76c38b53fd257ca0ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 09/11] fix: sum tree fee total wraps around without overflow
 checks

---
 src/sum/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sum/node.rs b/src/sum/node.rs
index 59cb079..8cf06db 100644
--- a/src/sum/node.rs
+++ b/src/sum/node.rs
@@ -32,7 +32,9 @@ impl Node {
         Self {
             height,
             hash: node_sum(lhs_fee, lhs_key, rhs_fee, rhs_key),
-            fee: lhs_fee + rhs_fee,
+            fee: lhs_fee
+                .checked_add(rhs_fee)
+                .expect("the total fee must fit in 64 bits"),
             left_child_key: Some(*lhs_key),
             right_child_key: Some(*rhs_key),
         }
-- 
2.43.0


From c00c7ec7cfe5b8b8c324f59945ed871e1466ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 10/11] fix: the load error of a binary proof names the leaf's
 index instead of its key

---
 src/binary/merkle_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 7fd76bc..9fce08b 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -90,10 +90,11 @@ where
 
         let root_position = self.root_position();
         let leaf_position = Position::from_leaf_index(proof_index);
+        let leaf_key = leaf_position.in_order_index();
         let primitive = self
             .storage
-            .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .get(&leaf_key)?
+            .ok_or(MerkleTreeError::LoadError(leaf_key))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0


From 58794ba709843809e619ec37a8ddd9e152d1cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 11/11] fix: give sparse tree errors a text

Bytes32 cannot be displayed, so that ChildError, and with it
sparse::MerkleTreeError, never implemented Display and Error although
both derive them.
---
 src/common/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/node.rs b/src/common/node.rs
index aed1f56..ee585db 100644
--- a/src/common/node.rs
+++ b/src/common/node.rs
@@ -29,7 +29,7 @@ pub type ChildResult<T: ParentNode> = Result<T, ChildError<T::Key, T::Error>>;
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum ChildError<Key, E> {
-    #[cfg_attr(feature = "std", error("Child with key {0} was not found in storage"))]
+    #[cfg_attr(feature = "std", error("Child with key {0:?} was not found in storage"))]
     ChildNotFound(Key),
     #[cfg_attr(feature = "std", error("Node is a leaf with no children"))]
     NodeIsLeaf,
-- 
2.43.0

