From 1d15d5ef10886c155c57121840abcf7ecc6520d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 01/14] fix: do not drop nodes in `forget` while they are
 mutably borrowed

`forget` (hence every `IntoIter` drop) deallocated each node from inside the
`visit_from_leaves_mut` callback, while the `&mut Node` argument was live.
This is undefined behaviour and breaks the safety contract of
`Dropper::drop_node`.
---
 src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..2b185e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -451,15 +451,20 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn forget(&mut self) {
 		use storage::Dropper;
-		let mut dropper = self.nodes.start_dropping();
 
-		self.visit_from_leaves_mut(|id, node| unsafe {
+		// The nodes are only dropped once no reference to them exists anymore.
+		let mut ids = Vec::new();
+		self.visit_from_leaves_mut(|id, node| {
 			node.forget();
-			if let Some(dropper) = &mut dropper {
-				dropper.drop_node(id);
-			}
+			ids.push(id);
 		});
 
+		if let Some(mut dropper) = self.nodes.start_dropping() {
+			for id in ids {
+				unsafe { dropper.drop_node(id) }
+			}
+		}
+
 		self.root = None;
 		self.len = 0;
 		self.nodes = S::default();
-- 
2.43.0


From 3ea64a66a9b617af8e49ce48489ac2a7c899d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 02/14] fix: detach the nodes before dropping the items in
 `clear`

When the destructor of an item panicked in `clear`, the tree still referred to
the nodes already dropped, and dropped them again on unwinding (use after
free, double drop).
---
 src/lib.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b185e0..98812d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -472,13 +472,23 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// The nodes are detached from the tree first, so that they cannot be
+		// reached anymore if the destructor of an item panics.
+		let root = self.root.take();
+		let nodes = std::mem::take(&mut self.nodes);
 		self.len = 0;
-		self.nodes = S::default();
+
+		if let Some(root_id) = root {
+			if let Some(mut dropper) = nodes.start_dropping() {
+				unsafe {
+					nodes
+						.get(root_id)
+						.visit_from_leaves(&nodes, |id| dropper.drop_node(id));
+					dropper.drop_node(root_id)
+				}
+			}
+		}
 	}
 
 	#[cfg(debug_assertions)]
-- 
2.43.0


From 37ef4b0f2b2563db6134928e03cc3de415fb6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 03/14] fix: do not drop moved out items when `IntoIter::drop`
 panics

If the destructor of a remaining item panicked, `forget` was skipped and the
tree then dropped every item again, including those already yielded.
---
 src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98812d1..4b5292e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -905,7 +905,19 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Forgets the (moved out) items of the tree, even if the destructor of
+		/// one of the remaining items panics.
+		struct ForgetOnDrop<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<'a, T, S: Storage<T>> Drop for ForgetOnDrop<'a, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget();
+			}
+		}
+
+		let guard = ForgetOnDrop(self);
+		for item in &mut *guard.0 {
+			drop(item)
+		}
 	}
 }
-- 
2.43.0


From 311bd2f5359bcc6304b30c2cc9b2dd7bcf413c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 04/14] fix: treat the offset before the first item as
 unoccupied

`get_at` and `get_mut_at` (internal nodes) and `remove_at` panicked on the valid
address preceding the first item of a node instead of returning `None`.
---
 src/node/internal.rs | 4 ++--
 src/node/mod.rs      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..448f0bd 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,7 +276,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
+		match self.other_children.get(offset.value()?) {
 			Some(b) => Some(&b.item),
 			None => None,
 		}
@@ -284,7 +284,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
+		match self.other_children.get_mut(offset.value()?) {
 			Some(b) => Some(&mut b.item),
 			None => None,
 		}
diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..1b23590 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -418,15 +418,15 @@ impl<T, S: Storage<T>> Node<T, S> {
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
 			Node::Internal(node) => {
-				if offset < node.item_count() {
-					let left_child_index = offset.unwrap();
+				let left_child_index = offset.value()?;
+				if left_child_index < node.item_count() {
 					Some(Err(node.child_id(left_child_index)))
 				} else {
 					None
 				}
 			}
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if offset.value()? < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From 59fdb428294d33c460b2e45d30bee3a38bb5529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 05/14] fix: `previous_item_address` on the address before the
 first item of a node

It panicked instead of returning the address of the item located before the
node.
---
 src/storage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..2032ff6 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -132,8 +132,7 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match addr.offset.value().and_then(|i| node.child_id_opt(i)) {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From 943ad653a4bbb480e652e3b28be61b21d6079da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:33 +0000
Subject: [PATCH 06/14] fix: `normalize` the address before the first item of a
 node

This out-of-node-bounds address was returned unchanged instead of being mapped
to the next item.
---
 src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 2032ff6..9a95656 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -81,6 +81,10 @@ pub unsafe trait Storage<T>: Default {
 	///
 	/// Input address's node must not have been deallocated.
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
+		if addr.offset.is_before() {
+			return self.next_item_address(addr);
+		}
+
 		loop {
 			let node = self.get(addr.node);
 			if addr.offset >= node.item_count() {
-- 
2.43.0


From 5332bec334ef21dbfa3d71cbe2eb56254d7ba7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:51 +0000
Subject: [PATCH 07/14] fix: `next_item_address` past the last item of an
 internal node

The address following the last child of an internal node was mapped to the
first item of that last child, which precedes the address. Same for
`next_item_or_back_address`.
---
 src/storage.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 9a95656..d6e79fa 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -224,7 +224,11 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			Some(std::cmp::Ordering::Equal) => {
+				// past the last item (and child) of the node.
+				return self.normalize(addr);
+			}
+			None => (),
 		}
 
 		// let original_addr_shifted = addr;
@@ -325,7 +329,11 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			Some(std::cmp::Ordering::Equal) => {
+				// past the last item (and child) of the node.
+				return self.normalize(addr).or(Some(addr));
+			}
+			None => (),
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 8aea2a9e6224d4231da4fda2cfa72988c81977fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:51 +0000
Subject: [PATCH 08/14] fix: `pop_right` returned the offset following the
 popped item

It is documented (and used by the rebalancing code) as the offset of the
popped item.
---
 src/node/internal.rs | 3 +--
 src/node/leaf.rs     | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 448f0bd..9aa3ebc 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,10 +441,9 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
 			let last = self.other_children.pop().unwrap();
 			Ok(RightBranch {
-				offset: offset.into(),
+				offset: self.other_children.len().into(),
 				item: last.item,
 				child: last.child,
 			})
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..bd0cd1b 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,9 +200,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
 			let item = self.items.pop().unwrap();
-			Ok((offset.into(), item))
+			Ok((self.items.len().into(), item))
 		}
 	}
 
-- 
2.43.0


From 05ebfbe7d7c034db146815462ec0487e31bc75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:51 +0000
Subject: [PATCH 09/14] fix: search in an empty node

`binary_search_min` accessed the first item before checking that there is one,
so looking up or inserting a key in an empty leaf panicked.
---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From aeea7982b8f96661e8681ce412d3e60b5e231d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 10/14] fix: do not drop array items twice if a destructor
 panics in Array::clear

---
 src/utils/array.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5df799a..9299871 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -147,10 +147,12 @@ impl<T, const N: usize> Array<T, N> {
 	}
 
 	pub fn clear(&mut self) {
-		for i in 0..self.len {
+		// The items are detached first, so that they are not dropped again if
+		// the destructor of one of them panics.
+		let len = std::mem::take(&mut self.len);
+		for i in 0..len {
 			unsafe { self.buffer[i].assume_init_drop() };
 		}
-		self.len = 0;
 	}
 }
 
-- 
2.43.0


From 16a2151522990bd81ee21c1b89188e7769296aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 11/14] fix: reject out of bounds ranges in Array::drain

---
 src/utils/array.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 9299871..f4e53c6 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -131,6 +131,7 @@ impl<T, const N: usize> Array<T, N> {
 		};
 
 		let len = self.len;
+		assert!(end <= len, "cannot drain out of bounds");
 
 		if start < end {
 			self.len -= end - start;
-- 
2.43.0


From 2b259d622124c8d99fc508321cd3885c0d2fc096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 12/14] fix: keep the array sound when an Array::drain is
 forgotten or panics

---
 src/utils/array.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index f4e53c6..91a04a8 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -134,7 +134,9 @@ impl<T, const N: usize> Array<T, N> {
 		assert!(end <= len, "cannot drain out of bounds");
 
 		if start < end {
-			self.len -= end - start;
+			// Only the items before the drained range are left in the array
+			// until the drain is complete, in case it is leaked.
+			self.len = start;
 		}
 
 		Drain {
@@ -144,6 +146,7 @@ impl<T, const N: usize> Array<T, N> {
 			back: end,
 			buffer: &mut self.buffer,
 			len,
+			array_len: &mut self.len,
 		}
 	}
 
@@ -239,6 +242,7 @@ pub struct Drain<'a, T, const N: usize> {
 	back: usize,
 	buffer: &'a mut [MaybeUninit<T>; N],
 	len: usize,
+	array_len: &'a mut usize,
 }
 
 impl<'a, T, const N: usize> Drain<'a, T, N> {
@@ -249,7 +253,8 @@ impl<'a, T, const N: usize> Drain<'a, T, N> {
 				self.start += 1;
 			}
 
-			self.end = self.start
+			self.end = self.start;
+			*self.array_len = self.start
 		}
 	}
 }
-- 
2.43.0


From 899592d5852be54aa7f36a3e5f0c7d5b179cac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 13/14] fix: Array::drain bounds overflow at the end of the
 range of usize

---
 src/utils/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 91a04a8..67bf488 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -121,12 +121,12 @@ impl<T, const N: usize> Array<T, N> {
 		let start = match range.start_bound() {
 			Bound::Unbounded => 0,
 			Bound::Included(i) => *i,
-			Bound::Excluded(i) => *i + 1,
+			Bound::Excluded(i) => i.checked_add(1).expect("cannot drain out of bounds"),
 		};
 
 		let end = match range.end_bound() {
 			Bound::Unbounded => self.len,
-			Bound::Included(i) => *i + 1,
+			Bound::Included(i) => i.checked_add(1).expect("cannot drain out of bounds"),
 			Bound::Excluded(i) => *i,
 		};
 
-- 
2.43.0


From d4411ef751b1b02730142cdd1cc0a35345e720be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 14/14] fix: escape the text of items in DOT labels

---
 src/node/internal.rs |  7 ++++++-
 src/node/leaf.rs     |  2 +-
 src/utils/mod.rs     | 30 ++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 9aa3ebc..1c041a9 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -473,7 +473,12 @@ impl<T, S: Storage<T>> Internal<T, S> {
 	{
 		write!(f, "<c0> |")?;
 		for (i, branch) in self.other_children.iter().enumerate() {
-			write!(f, "{{{}|<c{}>}} |", branch.item, i + 1)?;
+			write!(
+				f,
+				"{{{}|<c{}>}} |",
+				crate::utils::DotText(&branch.item),
+				i + 1
+			)?;
 		}
 
 		Ok(())
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index bd0cd1b..40face4 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -260,7 +260,7 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		T: std::fmt::Display,
 	{
 		for item in &self.items {
-			write!(f, "{{{}}}|", item)?;
+			write!(f, "{{{}}}|", crate::utils::DotText(item))?;
 		}
 
 		Ok(())
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8593fad..25b5f34 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -51,3 +51,33 @@ pub fn binary_search_min<T, Q: ?Sized>(
 		Some((i, eq))
 	}
 }
+
+/// Text to write in a DOT record label, without its special characters being
+/// interpreted as part of the graph.
+#[cfg(feature = "dot")]
+pub struct DotText<'a, T>(pub &'a T);
+
+#[cfg(feature = "dot")]
+impl<'a, T: std::fmt::Display> std::fmt::Display for DotText<'a, T> {
+	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+		use std::fmt::Write;
+
+		struct Escape<'a, 'b>(&'a mut std::fmt::Formatter<'b>);
+
+		impl<'a, 'b> Write for Escape<'a, 'b> {
+			fn write_str(&mut self, s: &str) -> std::fmt::Result {
+				for c in s.chars() {
+					if matches!(c, '"' | '\\' | '{' | '}' | '|' | '<' | '>') {
+						self.0.write_char('\\')?
+					}
+
+					self.0.write_char(c)?
+				}
+
+				Ok(())
+			}
+		}
+
+		write!(Escape(f), "{}", self.0)
+	}
+}
-- 
2.43.0

