From f2ad6ab86c180eb5153b60237fab895c968b91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 01/12] fix: do not count a data node again when its leaf is
 already stored

insert_leaves added a reference to the data node every time an existing leaf
was inserted again, although remove releases the data node only once, when the
leaf itself goes.  Data of re-inserted leaves was never reclaimed.
---
 src/merkle_bit.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dca2bd1..e585aa5 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -447,17 +447,18 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
             leaf_node.set_references(1);
 
-            if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
-                data_node.set_references(references);
-            }
-
             if let Some(n) = self.db.get_node(leaf_node_location)? {
+                // The existing leaf already holds a reference to its data node
                 let references = n.get_references() + 1;
                 leaf_node.set_references(references);
+            } else {
+                if let Some(n) = self.db.get_node(data_node_location)? {
+                    let references = n.get_references() + 1;
+                    data_node.set_references(references);
+                }
+                self.db.insert(data_node_location, data_node)?;
             }
 
-            self.db.insert(data_node_location, data_node)?;
             self.db.insert(leaf_node_location, leaf_node)?;
 
             nodes.push(leaf_node_location);
-- 
2.43.0


From 0b37b31e3a29964543ad1f5159aaf895562c9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 02/12] fix: do not reference a leaf twice when its value is
 unchanged

Inserting a key with the value it already has under the previous root counted
the leaf once in insert_leaves and once more in traverse_tree, so removing both
roots left the leaf and its data behind.
---
 src/merkle_bit.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index e585aa5..85597a0 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -269,22 +269,15 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 NodeVariant::Branch(n) => n,
                 NodeVariant::Leaf(n) => {
                     let key = n.get_key();
-                    let mut update = false;
 
-                    // Check if we are updating an existing value
-                    if let Some(loc) = key_map.get(key) {
-                        update = loc == &location;
-                        if !update {
-                            continue;
-                        }
+                    // Check if we are updating an existing value.  The leaf being inserted has
+                    // already been stored and referenced, even if it is the same as this one.
+                    if key_map.contains_key(key) {
+                        continue;
                     }
 
                     self.insert_leaf(&location)?;
 
-                    if update {
-                        continue;
-                    }
-
                     let tree_ref = TreeRef::new(*key, location, 1, 1);
                     proof_nodes.push(tree_ref);
                     continue;
-- 
2.43.0


From 762d1017b6a515175d1812483d0fae538aeaae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 03/12] fix: keep the references of a branch that is inserted
 again

merge_nodes stored every branch it built with a reference count of one, also
when that branch already existed and was shared with other roots.  Removing one
of those roots then destroyed nodes that the others still needed.  Share the
existing branch instead, and give back the references to its children.
---
 src/merkle_bit.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 85597a0..eeffca0 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -566,9 +566,18 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             }
 
             let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
-            branch_node.set_references(1);
-
-            self.db.insert(branch_node_location, branch_node)?;
+            if let Some(existing) = self.db.get_node(branch_node_location)? {
+                // The branch is already stored and holds references to its children.  Share it, and
+                // give back the references to the children which were taken to build this one.
+                self.db.batch_write()?;
+                branch_node.set_references(existing.get_references() + 1);
+                self.db.insert(branch_node_location, branch_node)?;
+                self.release_node(&tree_ref_location)?;
+                self.release_node(&next_tree_ref_location)?;
+            } else {
+                branch_node.set_references(1);
+                self.db.insert(branch_node_location, branch_node)?;
+            }
 
             {
                 tree_refs[lookahead_tree_ref_pointer].key = tree_ref_key;
@@ -585,6 +594,16 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(Some(root))
     }
 
+    /// Gives back one reference to a node which is still referenced from elsewhere.
+    fn release_node(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
+        if let Some(mut node) = self.db.get_node(*location)? {
+            let references = node.get_references().saturating_sub(1);
+            node.set_references(references);
+            self.db.insert(*location, node)?;
+        }
+        Ok(())
+    }
+
     /// Remove all items with less than 1 reference under the given root.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
-- 
2.43.0


From d7981a10eec17234b77012f4feee6230e60e6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 04/12] fix: decode the arrays that the serde formats encode

Array is serialized as a sequence but was deserialized as a byte string, which
only bincode accepts: with json, cbor, yaml, pickle and ron no branch or leaf
could be decoded after having been encoded.  Deserialize it as a sequence of
exactly N bytes.
---
 src/lib.rs | 535 +++++++++++++++++++++++++++--------------------------
 1 file changed, 275 insertions(+), 260 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6655a89..43298a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,260 +1,275 @@
-// Clippy configurations
-#![warn(
-    clippy::all,
-    clippy::restriction,
-    clippy::pedantic,
-    clippy::nursery,
-    clippy::cargo
-)]
-#![allow(clippy::integer_arithmetic)]
-#![allow(clippy::indexing_slicing)]
-#![allow(clippy::cast_possible_truncation)]
-#![allow(clippy::implicit_return)]
-#![allow(clippy::else_if_without_else)]
-#![allow(clippy::module_name_repetitions)]
-#![allow(clippy::mod_module_files)]
-#![allow(clippy::separated_literal_suffix)]
-#![allow(clippy::blanket_clippy_restriction_lints)]
-#![forbid(unsafe_code)]
-
-//! # Merkle Binary Indexed Tree
-//! ## Introduction
-//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
-//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
-//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
-//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
-//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
-//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
-//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
-//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
-//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
-//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
-//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
-//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
-//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
-//!
-//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
-//! later used to access the inserted items.
-//!
-//! ## Internal Structure
-//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
-//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
-//!
-//! A `Branch` node contains first a `split_index`
-//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
-//! that makes this a *sparse* merkle tree.  It then contains pointers
-//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
-//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
-//! a `count` of the nodes under that branch.
-//!
-//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
-//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
-//! accessing data information if data should be retrieved.
-//!
-//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
-//! and the only restriction is that the data must be serializable and deserializable.
-//!
-//! To illustrate these concepts, please refer to the diagram below:
-//!
-//! ```text
-//!                                                 ----------------------
-//!                                 branch  --->    | split_index: usize |
-//!                                   |             | zero: [u8]         |
-//!       ----------------           / \            | one:  [u8]         |
-//!       | key: [u8]    |          /   \           | count: u64         |
-//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
-//!       ----------------         |                ----------------------
-//!                                |
-//!                                V
-//!                              data
-//!                                |
-//!                                V
-//!                         ------------------
-//!                         | value: Vec<u8> |
-//!                         ------------------
-//! ```
-//!
-//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
-//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
-
-#[cfg(feature = "serde")]
-use serde::de::{Error, Visitor};
-#[cfg(feature = "serde")]
-use serde::ser::SerializeSeq;
-#[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer};
-#[cfg(feature = "serde")]
-use serde::{Serialize, Serializer};
-#[cfg(feature = "serde")]
-use std::array::IntoIter;
-#[cfg(feature = "serde")]
-use std::cmp::min;
-#[cfg(feature = "serde")]
-use std::fmt::Formatter;
-#[cfg(feature = "serde")]
-use std::ops::{Deref, DerefMut, Index, IndexMut};
-#[cfg(feature = "serde")]
-use std::slice::{Iter, SliceIndex};
-
-/// Defines constants for the tree.
-pub mod constants;
-/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
-pub mod hash_tree;
-/// Contains the actual operations of inserting, getting, and removing items from a tree.
-pub mod merkle_bit;
-/// Contains the traits necessary for tree operations
-pub mod traits;
-/// Contains a collection of structs for representing locations within the tree.
-pub mod tree;
-/// Contains a collection of structs for implementing tree databases.
-pub mod tree_db;
-/// Contains a collection of structs for implementing hashing functions in the tree.
-pub mod tree_hasher;
-/// Contains a collection of useful structs and functions for tree operations.
-pub mod utils;
-
-#[cfg(feature = "rocksdb")]
-/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
-pub mod rocks_tree;
-
-/// Alias for a fixed sized array
-#[cfg(not(any(feature = "serde")))]
-pub type Array<const N: usize> = [u8; N];
-
-/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
-/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
-#[cfg(feature = "serde")]
-#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
-pub struct Array<const N: usize>([u8; N]);
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Array<N> {
-    /// Produces an iterator through the underlying array.
-    #[inline]
-    pub fn iter(&self) -> Iter<u8> {
-        self.0.iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Default for Array<N> {
-    #[inline]
-    fn default() -> Self {
-        Self([0; N])
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<[u8; N]> for Array<N> {
-    #[inline]
-    fn from(array: [u8; N]) -> Self {
-        Self(array)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<Array<N>> for [u8; N] {
-    #[inline]
-    fn from(array: Array<N>) -> Self {
-        array.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> IntoIterator for Array<N> {
-    type Item = u8;
-    type IntoIter = IntoIter<u8, N>;
-
-    #[inline]
-    fn into_iter(self) -> Self::IntoIter {
-        self.0.into_iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> AsRef<[u8]> for Array<N> {
-    #[inline]
-    fn as_ref(&self) -> &[u8] {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Deref for Array<N> {
-    type Target = [u8; N];
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> DerefMut for Array<N> {
-    #[inline]
-    fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
-    type Output = Idx::Output;
-
-    #[inline]
-    fn index(&self, index: Idx) -> &Self::Output {
-        &self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
-    #[inline]
-    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
-        &mut self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Serialize for Array<N> {
-    #[inline]
-    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(N))?;
-        for e in self.iter() {
-            seq.serialize_element(e)?;
-        }
-        seq.end()
-    }
-}
-
-#[cfg(feature = "serde")]
-/// Visitor for deserializing `Array<N>`s.
-struct ArrayVisitor<const N: usize>;
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
-    type Value = Array<N>;
-
-    #[inline]
-    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
-        formatter.write_str("an unsigned integer from 0 to 255")
-    }
-
-    #[inline]
-    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
-        let mut value = Array::default();
-        for i in 0..(min(N, v.len())) {
-            value[i] = v[i];
-        }
-
-        Ok(value)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Deserialize<'de> for Array<N> {
-    #[inline]
-    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ArrayVisitor)
-    }
-}
+// Clippy configurations
+#![warn(
+    clippy::all,
+    clippy::restriction,
+    clippy::pedantic,
+    clippy::nursery,
+    clippy::cargo
+)]
+#![allow(clippy::integer_arithmetic)]
+#![allow(clippy::indexing_slicing)]
+#![allow(clippy::cast_possible_truncation)]
+#![allow(clippy::implicit_return)]
+#![allow(clippy::else_if_without_else)]
+#![allow(clippy::module_name_repetitions)]
+#![allow(clippy::mod_module_files)]
+#![allow(clippy::separated_literal_suffix)]
+#![allow(clippy::blanket_clippy_restriction_lints)]
+#![forbid(unsafe_code)]
+
+//! # Merkle Binary Indexed Tree
+//! ## Introduction
+//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
+//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
+//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
+//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
+//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
+//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
+//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
+//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
+//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
+//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
+//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
+//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
+//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
+//!
+//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
+//! later used to access the inserted items.
+//!
+//! ## Internal Structure
+//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
+//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
+//!
+//! A `Branch` node contains first a `split_index`
+//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
+//! that makes this a *sparse* merkle tree.  It then contains pointers
+//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
+//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
+//! a `count` of the nodes under that branch.
+//!
+//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
+//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
+//! accessing data information if data should be retrieved.
+//!
+//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
+//! and the only restriction is that the data must be serializable and deserializable.
+//!
+//! To illustrate these concepts, please refer to the diagram below:
+//!
+//! ```text
+//!                                                 ----------------------
+//!                                 branch  --->    | split_index: usize |
+//!                                   |             | zero: [u8]         |
+//!       ----------------           / \            | one:  [u8]         |
+//!       | key: [u8]    |          /   \           | count: u64         |
+//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
+//!       ----------------         |                ----------------------
+//!                                |
+//!                                V
+//!                              data
+//!                                |
+//!                                V
+//!                         ------------------
+//!                         | value: Vec<u8> |
+//!                         ------------------
+//! ```
+//!
+//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
+//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
+
+#[cfg(feature = "serde")]
+use serde::de::{Error, SeqAccess, Visitor};
+#[cfg(feature = "serde")]
+use serde::ser::SerializeSeq;
+#[cfg(feature = "serde")]
+use serde::{Deserialize, Deserializer};
+#[cfg(feature = "serde")]
+use serde::{Serialize, Serializer};
+#[cfg(feature = "serde")]
+use std::array::IntoIter;
+#[cfg(feature = "serde")]
+use std::cmp::min;
+#[cfg(feature = "serde")]
+use std::fmt::Formatter;
+#[cfg(feature = "serde")]
+use std::ops::{Deref, DerefMut, Index, IndexMut};
+#[cfg(feature = "serde")]
+use std::slice::{Iter, SliceIndex};
+
+/// Defines constants for the tree.
+pub mod constants;
+/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
+pub mod hash_tree;
+/// Contains the actual operations of inserting, getting, and removing items from a tree.
+pub mod merkle_bit;
+/// Contains the traits necessary for tree operations
+pub mod traits;
+/// Contains a collection of structs for representing locations within the tree.
+pub mod tree;
+/// Contains a collection of structs for implementing tree databases.
+pub mod tree_db;
+/// Contains a collection of structs for implementing hashing functions in the tree.
+pub mod tree_hasher;
+/// Contains a collection of useful structs and functions for tree operations.
+pub mod utils;
+
+#[cfg(feature = "rocksdb")]
+/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
+pub mod rocks_tree;
+
+/// Alias for a fixed sized array
+#[cfg(not(any(feature = "serde")))]
+pub type Array<const N: usize> = [u8; N];
+
+/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
+/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
+#[cfg(feature = "serde")]
+#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
+pub struct Array<const N: usize>([u8; N]);
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Array<N> {
+    /// Produces an iterator through the underlying array.
+    #[inline]
+    pub fn iter(&self) -> Iter<u8> {
+        self.0.iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Default for Array<N> {
+    #[inline]
+    fn default() -> Self {
+        Self([0; N])
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<[u8; N]> for Array<N> {
+    #[inline]
+    fn from(array: [u8; N]) -> Self {
+        Self(array)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<Array<N>> for [u8; N] {
+    #[inline]
+    fn from(array: Array<N>) -> Self {
+        array.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> IntoIterator for Array<N> {
+    type Item = u8;
+    type IntoIter = IntoIter<u8, N>;
+
+    #[inline]
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> AsRef<[u8]> for Array<N> {
+    #[inline]
+    fn as_ref(&self) -> &[u8] {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Deref for Array<N> {
+    type Target = [u8; N];
+
+    #[inline]
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> DerefMut for Array<N> {
+    #[inline]
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
+    type Output = Idx::Output;
+
+    #[inline]
+    fn index(&self, index: Idx) -> &Self::Output {
+        &self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
+    #[inline]
+    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
+        &mut self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Serialize for Array<N> {
+    #[inline]
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        let mut seq = serializer.serialize_seq(Some(N))?;
+        for e in self.iter() {
+            seq.serialize_element(e)?;
+        }
+        seq.end()
+    }
+}
+
+#[cfg(feature = "serde")]
+/// Visitor for deserializing `Array<N>`s.
+struct ArrayVisitor<const N: usize>;
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
+    type Value = Array<N>;
+
+    #[inline]
+    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
+        formatter.write_str("an unsigned integer from 0 to 255")
+    }
+
+    #[inline]
+    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+        let mut value = Array::default();
+        for i in 0..(min(N, v.len())) {
+            value[i] = v[i];
+        }
+
+        Ok(value)
+    }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        for i in 0..N {
+            value[i] = seq
+                .next_element()?
+                .ok_or_else(|| Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(Error::invalid_length(N + 1, &self));
+        }
+
+        Ok(value)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Deserialize<'de> for Array<N> {
+    #[inline]
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_seq(ArrayVisitor)
+    }
+}
-- 
2.43.0


From 364a072140dbc4d790f6058166544f775e42a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 05/12] fix: apply the same depth limit in get_one and
 inclusion proofs as in get

get_one and generate_inclusion_proof counted the data node as one more level of
the tree, so a leaf at exactly the permitted depth could be inserted and read
with get, but neither read with get_one nor proven.
---
 src/merkle_bit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index eeffca0..705b985 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -686,7 +686,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut found_leaf = false;
         let mut depth = 0;
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // The data node of a leaf is not a level of the tree
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
@@ -831,7 +832,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut depth = 0;
 
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // The data node of a leaf is not a level of the tree
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
-- 
2.43.0


From 5c3406c0ec1f2b28c86b38634941b8ff2f9673fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 06/12] fix: do not allocate by the depth limit when generating
 a proof

generate_inclusion_proof reserved memory for as many elements as the depth
limit allows, which panics with a capacity overflow for a tree that was opened
with a practically unlimited depth.
---
 src/merkle_bit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 705b985..cef3868 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -678,10 +678,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         root: &Array<N>,
         key: Array<N>,
     ) -> BinaryMerkleTreeResult<Vec<(Array<N>, bool)>> {
-        let mut nodes = VecDeque::with_capacity(self.depth);
+        let mut nodes = VecDeque::with_capacity(1);
         nodes.push_front(*root);
 
-        let mut proof = Vec::with_capacity(self.depth);
+        let mut proof = Vec::new();
 
         let mut found_leaf = false;
         let mut depth = 0;
-- 
2.43.0


From 3d26b7502c97a83fc2c2f680c1dac2eb94c3b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 07/12] fix: report a branch with an impossible split index
 instead of panicking

check_descendants indexed the key with the split index read from the database,
so a corrupt branch made every operation on it panic.  Return the same error
that choose_zero reports for a bit beyond the key.
---
 src/utils/tree_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 3e4ecac..10055e8 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -88,10 +88,14 @@ pub fn check_descendants<'keys, const N: usize>(
         let mut descendant = true;
         for j in (min_split_index..branch_split_index).step_by(8) {
             let byte = j >> 3_usize;
-            if branch_key[byte] == key[byte] {
+            let (branch_byte, key_byte) = match (branch_key.get(byte), key.get(byte)) {
+                (Some(&b), Some(&k)) => (b, k),
+                _ => return Err(Exception::new("Designated bit exceeds key length")),
+            };
+            if branch_byte == key_byte {
                 continue;
             }
-            let xor_key: u8 = branch_key[byte] ^ key[byte];
+            let xor_key: u8 = branch_byte ^ key_byte;
             let split_bit = (byte << 3_usize) + 7 - usize::try_from(fast_log_2(xor_key))?;
             if split_bit < branch_split_index {
                 descendant = false;
-- 
2.43.0


From e6da3d8f842b158e0722f7a1fadc6cdbd5d57b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 08/12] fix: reject an insert with bad arguments before storing
 anything

Duplicate keys and an unknown previous root were only noticed after the leaves
had been stored and referenced, which left nodes behind that no root leads to
and that no removal reclaims.
---
 src/merkle_bit.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index cef3868..266e8fc 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -200,6 +200,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             value_map.insert(key, value);
         }
 
+        if value_map.len() != keys.len() {
+            return Err(Exception::new(
+                "Attempted to insert item with duplicate keys",
+            ));
+        }
+
+        self.check_root(previous_root)?;
+
         keys.sort_unstable();
 
         let nodes = self.insert_leaves(keys, &value_map)?;
@@ -221,6 +229,16 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(new_root)
     }
 
+    /// Checks that the root to insert onto exists, before anything is stored.
+    fn check_root(&self, previous_root: Option<&Array<N>>) -> BinaryMerkleTreeResult<()> {
+        if let Some(root) = previous_root {
+            if self.db.get_node(*root)?.is_none() {
+                return Err(Exception::new("Could not find root"));
+            }
+        }
+        Ok(())
+    }
+
     /// Traverses the tree and searches for nodes to include in the merkle proof.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
@@ -897,6 +915,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         key: &Array<N>,
         value: &M::Value,
     ) -> BinaryMerkleTreeResult<Array<N>> {
+        self.check_root(previous_root)?;
+
         let mut value_map = HashMap::new();
         value_map.insert(*key, value);
 
-- 
2.43.0


From 4f6100dc7cafe62f44e040d88bbdca5bb3d77294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 09/12] fix: compare every bit before a branch's split when
 looking for its descendants

---
 src/utils/tree_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 10055e8..0c9de47 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -86,7 +86,9 @@ pub fn check_descendants<'keys, const N: usize>(
     for (i, k) in keys.iter().enumerate() {
         let key = k.as_ref();
         let mut descendant = true;
-        for j in (min_split_index..branch_split_index).step_by(8) {
+        // Whole bytes from the one with the first difference to the one with the last bit before
+        // the split
+        for j in ((min_split_index & !7_usize)..branch_split_index).step_by(8) {
             let byte = j >> 3_usize;
             let (branch_byte, key_byte) = match (branch_key.get(byte), key.get(byte)) {
                 (Some(&b), Some(&k)) => (b, k),
-- 
2.43.0


From c5e25fdac9f9eba48817de007fee366e28f5e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 10/12] fix: refuse an array given as bytes of another length

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 43298a1..5af5b01 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,8 +88,6 @@ use serde::{Serialize, Serializer};
 #[cfg(feature = "serde")]
 use std::array::IntoIter;
 #[cfg(feature = "serde")]
-use std::cmp::min;
-#[cfg(feature = "serde")]
 use std::fmt::Formatter;
 #[cfg(feature = "serde")]
 use std::ops::{Deref, DerefMut, Index, IndexMut};
@@ -242,8 +240,12 @@ impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
 
     #[inline]
     fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+        if v.len() != N {
+            return Err(Error::invalid_length(v.len(), &self));
+        }
+
         let mut value = Array::default();
-        for i in 0..(min(N, v.len())) {
+        for i in 0..N {
             value[i] = v[i];
         }
 
-- 
2.43.0


From dc6bd34c5e6859cfb2a0a62e4f767bce43179444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 11/12] fix: write what is queued for RocksDB before deleting

A failed insert leaves its writes queued. A deletion takes effect at once, so
the queue was written back after it: a leaf came back without its data, and the
same key and value inserted again could not be read.
---
 src/tree_db/rocksdb.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_db/rocksdb.rs b/src/tree_db/rocksdb.rs
index 4766fda..3658ce8 100644
--- a/src/tree_db/rocksdb.rs
+++ b/src/tree_db/rocksdb.rs
@@ -66,6 +66,8 @@ impl<const N: usize> Database<N, TreeNode<N>> for RocksDB<N> {
 
     #[inline]
     fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
+        // Deletions take effect at once, so whatever was queued before must not be written after them.
+        self.batch_write()?;
         Ok(self.db.delete(key)?)
     }
 
-- 
2.43.0


From c5b694e5e6195377c51d9f4afd93f85b3b4ca317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 12/12] fix: give src/lib.rs its line endings back, which the
 repairs of its decoding had changed

---
 src/lib.rs | 554 ++++++++++++++++++++++++++---------------------------
 1 file changed, 277 insertions(+), 277 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5af5b01..603ef6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,277 +1,277 @@
-// Clippy configurations
-#![warn(
-    clippy::all,
-    clippy::restriction,
-    clippy::pedantic,
-    clippy::nursery,
-    clippy::cargo
-)]
-#![allow(clippy::integer_arithmetic)]
-#![allow(clippy::indexing_slicing)]
-#![allow(clippy::cast_possible_truncation)]
-#![allow(clippy::implicit_return)]
-#![allow(clippy::else_if_without_else)]
-#![allow(clippy::module_name_repetitions)]
-#![allow(clippy::mod_module_files)]
-#![allow(clippy::separated_literal_suffix)]
-#![allow(clippy::blanket_clippy_restriction_lints)]
-#![forbid(unsafe_code)]
-
-//! # Merkle Binary Indexed Tree
-//! ## Introduction
-//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
-//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
-//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
-//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
-//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
-//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
-//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
-//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
-//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
-//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
-//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
-//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
-//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
-//!
-//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
-//! later used to access the inserted items.
-//!
-//! ## Internal Structure
-//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
-//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
-//!
-//! A `Branch` node contains first a `split_index`
-//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
-//! that makes this a *sparse* merkle tree.  It then contains pointers
-//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
-//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
-//! a `count` of the nodes under that branch.
-//!
-//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
-//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
-//! accessing data information if data should be retrieved.
-//!
-//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
-//! and the only restriction is that the data must be serializable and deserializable.
-//!
-//! To illustrate these concepts, please refer to the diagram below:
-//!
-//! ```text
-//!                                                 ----------------------
-//!                                 branch  --->    | split_index: usize |
-//!                                   |             | zero: [u8]         |
-//!       ----------------           / \            | one:  [u8]         |
-//!       | key: [u8]    |          /   \           | count: u64         |
-//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
-//!       ----------------         |                ----------------------
-//!                                |
-//!                                V
-//!                              data
-//!                                |
-//!                                V
-//!                         ------------------
-//!                         | value: Vec<u8> |
-//!                         ------------------
-//! ```
-//!
-//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
-//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
-
-#[cfg(feature = "serde")]
-use serde::de::{Error, SeqAccess, Visitor};
-#[cfg(feature = "serde")]
-use serde::ser::SerializeSeq;
-#[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer};
-#[cfg(feature = "serde")]
-use serde::{Serialize, Serializer};
-#[cfg(feature = "serde")]
-use std::array::IntoIter;
-#[cfg(feature = "serde")]
-use std::fmt::Formatter;
-#[cfg(feature = "serde")]
-use std::ops::{Deref, DerefMut, Index, IndexMut};
-#[cfg(feature = "serde")]
-use std::slice::{Iter, SliceIndex};
-
-/// Defines constants for the tree.
-pub mod constants;
-/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
-pub mod hash_tree;
-/// Contains the actual operations of inserting, getting, and removing items from a tree.
-pub mod merkle_bit;
-/// Contains the traits necessary for tree operations
-pub mod traits;
-/// Contains a collection of structs for representing locations within the tree.
-pub mod tree;
-/// Contains a collection of structs for implementing tree databases.
-pub mod tree_db;
-/// Contains a collection of structs for implementing hashing functions in the tree.
-pub mod tree_hasher;
-/// Contains a collection of useful structs and functions for tree operations.
-pub mod utils;
-
-#[cfg(feature = "rocksdb")]
-/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
-pub mod rocks_tree;
-
-/// Alias for a fixed sized array
-#[cfg(not(any(feature = "serde")))]
-pub type Array<const N: usize> = [u8; N];
-
-/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
-/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
-#[cfg(feature = "serde")]
-#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
-pub struct Array<const N: usize>([u8; N]);
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Array<N> {
-    /// Produces an iterator through the underlying array.
-    #[inline]
-    pub fn iter(&self) -> Iter<u8> {
-        self.0.iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Default for Array<N> {
-    #[inline]
-    fn default() -> Self {
-        Self([0; N])
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<[u8; N]> for Array<N> {
-    #[inline]
-    fn from(array: [u8; N]) -> Self {
-        Self(array)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<Array<N>> for [u8; N] {
-    #[inline]
-    fn from(array: Array<N>) -> Self {
-        array.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> IntoIterator for Array<N> {
-    type Item = u8;
-    type IntoIter = IntoIter<u8, N>;
-
-    #[inline]
-    fn into_iter(self) -> Self::IntoIter {
-        self.0.into_iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> AsRef<[u8]> for Array<N> {
-    #[inline]
-    fn as_ref(&self) -> &[u8] {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Deref for Array<N> {
-    type Target = [u8; N];
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> DerefMut for Array<N> {
-    #[inline]
-    fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
-    type Output = Idx::Output;
-
-    #[inline]
-    fn index(&self, index: Idx) -> &Self::Output {
-        &self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
-    #[inline]
-    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
-        &mut self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Serialize for Array<N> {
-    #[inline]
-    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(N))?;
-        for e in self.iter() {
-            seq.serialize_element(e)?;
-        }
-        seq.end()
-    }
-}
-
-#[cfg(feature = "serde")]
-/// Visitor for deserializing `Array<N>`s.
-struct ArrayVisitor<const N: usize>;
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
-    type Value = Array<N>;
-
-    #[inline]
-    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
-        formatter.write_str("an unsigned integer from 0 to 255")
-    }
-
-    #[inline]
-    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
-        if v.len() != N {
-            return Err(Error::invalid_length(v.len(), &self));
-        }
-
-        let mut value = Array::default();
-        for i in 0..N {
-            value[i] = v[i];
-        }
-
-        Ok(value)
-    }
-
-    #[inline]
-    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
-        let mut value = Array::default();
-        for i in 0..N {
-            value[i] = seq
-                .next_element()?
-                .ok_or_else(|| Error::invalid_length(i, &self))?;
-        }
-        if seq.next_element::<u8>()?.is_some() {
-            return Err(Error::invalid_length(N + 1, &self));
-        }
-
-        Ok(value)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Deserialize<'de> for Array<N> {
-    #[inline]
-    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_seq(ArrayVisitor)
-    }
-}
+// Clippy configurations
+#![warn(
+    clippy::all,
+    clippy::restriction,
+    clippy::pedantic,
+    clippy::nursery,
+    clippy::cargo
+)]
+#![allow(clippy::integer_arithmetic)]
+#![allow(clippy::indexing_slicing)]
+#![allow(clippy::cast_possible_truncation)]
+#![allow(clippy::implicit_return)]
+#![allow(clippy::else_if_without_else)]
+#![allow(clippy::module_name_repetitions)]
+#![allow(clippy::mod_module_files)]
+#![allow(clippy::separated_literal_suffix)]
+#![allow(clippy::blanket_clippy_restriction_lints)]
+#![forbid(unsafe_code)]
+
+//! # Merkle Binary Indexed Tree
+//! ## Introduction
+//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
+//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
+//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
+//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
+//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
+//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
+//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
+//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
+//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
+//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
+//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
+//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
+//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
+//!
+//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
+//! later used to access the inserted items.
+//!
+//! ## Internal Structure
+//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
+//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
+//!
+//! A `Branch` node contains first a `split_index`
+//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
+//! that makes this a *sparse* merkle tree.  It then contains pointers
+//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
+//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
+//! a `count` of the nodes under that branch.
+//!
+//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
+//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
+//! accessing data information if data should be retrieved.
+//!
+//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
+//! and the only restriction is that the data must be serializable and deserializable.
+//!
+//! To illustrate these concepts, please refer to the diagram below:
+//!
+//! ```text
+//!                                                 ----------------------
+//!                                 branch  --->    | split_index: usize |
+//!                                   |             | zero: [u8]         |
+//!       ----------------           / \            | one:  [u8]         |
+//!       | key: [u8]    |          /   \           | count: u64         |
+//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
+//!       ----------------         |                ----------------------
+//!                                |
+//!                                V
+//!                              data
+//!                                |
+//!                                V
+//!                         ------------------
+//!                         | value: Vec<u8> |
+//!                         ------------------
+//! ```
+//!
+//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
+//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
+
+#[cfg(feature = "serde")]
+use serde::de::{Error, SeqAccess, Visitor};
+#[cfg(feature = "serde")]
+use serde::ser::SerializeSeq;
+#[cfg(feature = "serde")]
+use serde::{Deserialize, Deserializer};
+#[cfg(feature = "serde")]
+use serde::{Serialize, Serializer};
+#[cfg(feature = "serde")]
+use std::array::IntoIter;
+#[cfg(feature = "serde")]
+use std::fmt::Formatter;
+#[cfg(feature = "serde")]
+use std::ops::{Deref, DerefMut, Index, IndexMut};
+#[cfg(feature = "serde")]
+use std::slice::{Iter, SliceIndex};
+
+/// Defines constants for the tree.
+pub mod constants;
+/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
+pub mod hash_tree;
+/// Contains the actual operations of inserting, getting, and removing items from a tree.
+pub mod merkle_bit;
+/// Contains the traits necessary for tree operations
+pub mod traits;
+/// Contains a collection of structs for representing locations within the tree.
+pub mod tree;
+/// Contains a collection of structs for implementing tree databases.
+pub mod tree_db;
+/// Contains a collection of structs for implementing hashing functions in the tree.
+pub mod tree_hasher;
+/// Contains a collection of useful structs and functions for tree operations.
+pub mod utils;
+
+#[cfg(feature = "rocksdb")]
+/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
+pub mod rocks_tree;
+
+/// Alias for a fixed sized array
+#[cfg(not(any(feature = "serde")))]
+pub type Array<const N: usize> = [u8; N];
+
+/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
+/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
+#[cfg(feature = "serde")]
+#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
+pub struct Array<const N: usize>([u8; N]);
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Array<N> {
+    /// Produces an iterator through the underlying array.
+    #[inline]
+    pub fn iter(&self) -> Iter<u8> {
+        self.0.iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Default for Array<N> {
+    #[inline]
+    fn default() -> Self {
+        Self([0; N])
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<[u8; N]> for Array<N> {
+    #[inline]
+    fn from(array: [u8; N]) -> Self {
+        Self(array)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<Array<N>> for [u8; N] {
+    #[inline]
+    fn from(array: Array<N>) -> Self {
+        array.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> IntoIterator for Array<N> {
+    type Item = u8;
+    type IntoIter = IntoIter<u8, N>;
+
+    #[inline]
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> AsRef<[u8]> for Array<N> {
+    #[inline]
+    fn as_ref(&self) -> &[u8] {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Deref for Array<N> {
+    type Target = [u8; N];
+
+    #[inline]
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> DerefMut for Array<N> {
+    #[inline]
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
+    type Output = Idx::Output;
+
+    #[inline]
+    fn index(&self, index: Idx) -> &Self::Output {
+        &self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
+    #[inline]
+    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
+        &mut self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Serialize for Array<N> {
+    #[inline]
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        let mut seq = serializer.serialize_seq(Some(N))?;
+        for e in self.iter() {
+            seq.serialize_element(e)?;
+        }
+        seq.end()
+    }
+}
+
+#[cfg(feature = "serde")]
+/// Visitor for deserializing `Array<N>`s.
+struct ArrayVisitor<const N: usize>;
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
+    type Value = Array<N>;
+
+    #[inline]
+    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
+        formatter.write_str("an unsigned integer from 0 to 255")
+    }
+
+    #[inline]
+    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+        if v.len() != N {
+            return Err(Error::invalid_length(v.len(), &self));
+        }
+
+        let mut value = Array::default();
+        for i in 0..N {
+            value[i] = v[i];
+        }
+
+        Ok(value)
+    }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        for i in 0..N {
+            value[i] = seq
+                .next_element()?
+                .ok_or_else(|| Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(Error::invalid_length(N + 1, &self));
+        }
+
+        Ok(value)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Deserialize<'de> for Array<N> {
+    #[inline]
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_seq(ArrayVisitor)
+    }
+}
-- 
2.43.0

