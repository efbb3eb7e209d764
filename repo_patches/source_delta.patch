From 167b2bcefc80409e4890e8ae042feff6ae26931c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 01/10] fix: BTreeSet::is_subset must accept equal sets

---
 src/btree/btree_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 8676567..505f7b2 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -125,7 +125,7 @@ impl<T, const N: usize> BTreeSet<T, N> {
         T: Ord,
     {
         self.is_empty()
-            || (self.len() < other.len()
+            || (self.len() <= other.len()
                 && self.difference(other).next().is_none())
     }
 
-- 
2.43.0


From db68fff987196e9fc547c5d4a5c14305fc63320a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 02/10] fix: fixed::BTreeMap iterators return entries from the
 back in next_back

---
 src/btree/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 30a6f5a..5a272c4 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1169,7 +1169,7 @@ where
                 Err(arc) => Some(Descend(Leased(arc))),
             }
         } else if self.next_elem_x < self.end_elems {
-            self.next_elem_x -= 1;
+            self.end_elems -= 1;
             let kv = match &mut self.n {
                 Owned(n) => unsafe {
                     let k = n.elems.keys[self.end_elems].assume_init_read();
@@ -1285,7 +1285,7 @@ impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
     fn next_back(&mut self) -> Option<Self::Item> {
         use IterAction::*;
         while let Some(w) = self.work.back_mut() {
-            match w.next() {
+            match w.next_back() {
                 Some(Return(kv)) => {
                     self.len -= 1;
                     return Some(kv);
-- 
2.43.0


From 084b69e0023ac7764da98470720fc7de59d610a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 03/10] fix: fixed::IntoIter must not drop elements twice when
 a destructor panics

---
 src/btree/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 5a272c4..14afbba 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1218,21 +1218,27 @@ impl<K, V> Drop for NodeIntoIter<K, V> {
         // if we don't own the node, we don't need to clean it up
         let OwnedOrLeased::Owned(n) = &mut self.n else { return; };
 
+        // Disown the contents before running any element's destructor: if one
+        // panics, the node's own drop must not visit the slots again.
+        let kids = n.kids.take().map(|mut kids| {
+            kids.len = 0;
+            kids
+        });
+        n.elems.len = 0;
+
         for i in self.next_elem_x..self.end_elems {
             unsafe {
                 n.elems.keys[i].assume_init_drop();
                 n.elems.vals[i].assume_init_drop();
             }
         }
-        n.elems.len = 0;
 
-        let Some(mut kids) = n.kids.take() else { return; };
+        let Some(mut kids) = kids else { return; };
         for i in self.next_kid_x..self.end_kids {
             unsafe {
                 kids.keys[i].assume_init_drop();
             }
         }
-        kids.len = 0;
     }
 }
 
-- 
2.43.0


From 922d990b321c0b293237960ab552ff1287518331 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 04/10] fix: fixed::BTreeMap nodes must not reference
 uninitialized slots or write through a too-short slice

---
 src/btree/core.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 14afbba..b13225b 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -114,7 +114,7 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     // get the keys as a slice
     fn keys(&self) -> &[K] {
         unsafe {
-            let keys: *const K = self.keys[0].assume_init_ref();
+            let keys = self.keys.as_ptr() as *const K;
             std::slice::from_raw_parts(keys, self.len as usize)
         }
     }
@@ -122,7 +122,7 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     // get the keys as a mutable slice
     fn keys_mut(&mut self) -> &mut [K] {
         unsafe {
-            let keys: *mut K = self.keys[0].assume_init_mut();
+            let keys = self.keys.as_mut_ptr() as *mut K;
             std::slice::from_raw_parts_mut(keys, self.len as usize)
         }
     }
@@ -131,11 +131,11 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     fn elems_mut(&mut self) -> (&mut [K], &mut [V]) {
         (
             unsafe {
-                let keys: *mut K = self.keys[0].assume_init_mut();
+                let keys = self.keys.as_mut_ptr() as *mut K;
                 std::slice::from_raw_parts_mut(keys, self.len as usize)
             },
             unsafe {
-                let vals: *mut V = self.vals[0].assume_init_mut();
+                let vals = self.vals.as_mut_ptr() as *mut V;
                 std::slice::from_raw_parts_mut(vals, self.len as usize)
             },
         )
@@ -190,14 +190,14 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
 
     fn vals(&self) -> &[V] {
         unsafe {
-            let vals: *const V = self.vals[0].assume_init_ref();
+            let vals = self.vals.as_ptr() as *const V;
             std::slice::from_raw_parts(vals, self.len as usize)
         }
     }
 
     fn vals_mut(&mut self) -> &mut [V] {
         unsafe {
-            let vals: *mut V = self.vals[0].assume_init_mut();
+            let vals = self.vals.as_mut_ptr() as *mut V;
             std::slice::from_raw_parts_mut(vals, self.len as usize)
         }
     }
@@ -609,12 +609,12 @@ impl<K, V> Node<K, V> {
         let rhs_len = rhs_n.elems.len();
 
         unsafe {
-            let lhs_keys = lhs_mut.elems.keys_mut().as_mut_ptr();
-            let rhs_keys = rhs_n.elems.keys_mut().as_mut_ptr();
+            let lhs_keys = lhs_mut.elems.keys.as_mut_ptr();
+            let rhs_keys = rhs_n.elems.keys.as_mut_ptr();
             copy(rhs_keys, lhs_keys.add(lhs_len), rhs_len);
 
-            let lhs_vals = lhs_mut.elems.vals_mut().as_mut_ptr();
-            let rhs_vals = rhs_n.elems.vals_mut().as_mut_ptr();
+            let lhs_vals = lhs_mut.elems.vals.as_mut_ptr();
+            let rhs_vals = rhs_n.elems.vals.as_mut_ptr();
             copy(rhs_vals, lhs_vals.add(lhs_len), rhs_len);
 
             lhs_mut.elems.len += rhs_len as InlineVecLen;
-- 
2.43.0


From f9c8c110275c4abe0de3886de61e3fdfe59d4af5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 05/10] fix: exact-size iterators report their length in
 size_hint

---
 src/avl.rs             | 16 ++++++++++++++++
 src/avl/avl_set.rs     |  8 ++++++++
 src/btree.rs           | 12 ++++++++++++
 src/btree/btree_set.rs |  8 ++++++++
 src/btree/core.rs      |  4 ++++
 5 files changed, 48 insertions(+)

diff --git a/src/avl.rs b/src/avl.rs
index e0b793a..e6070f0 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1961,6 +1961,10 @@ impl<Node: IterNode> Iterator for InnerIter<Node> {
             }
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<Node: IterNode> DoubleEndedIterator for InnerIter<Node> {
@@ -2026,6 +2030,10 @@ impl<'a, K, V> Iterator for Iter<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
@@ -2072,6 +2080,10 @@ impl<'a, K: Clone, V: Clone> Iterator for IterMut<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<'a, K: Clone, V: Clone> DoubleEndedIterator for IterMut<'a, K, V> {
@@ -2217,6 +2229,10 @@ impl<K: Clone, V: Clone> Iterator for IntoIter<K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Clone, V: Clone> DoubleEndedIterator for IntoIter<K, V> {
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 888aff1..a598928 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -448,6 +448,10 @@ impl<'a, T> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 crate::make_set_op_iter!(Difference, Iter<'a, T>, 0b100);
@@ -473,6 +477,10 @@ impl<T: Clone> Iterator for IntoIter<T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Clone + Ord> std::ops::BitAnd for &AvlSet<K> {
diff --git a/src/btree.rs b/src/btree.rs
index 982216e..85e1c18 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -1422,6 +1422,10 @@ impl<'a, K, V, const N: usize> Iterator for Iter<'a, K, V, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for Iter<'a, K, V, N> {
@@ -1490,6 +1494,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref mut v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for IterMut<'a, K, V, N>
@@ -1752,6 +1760,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<K, V, const N: usize> DoubleEndedIterator for IntoIter<K, V, N>
diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 505f7b2..bda42d9 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -373,6 +373,10 @@ impl<'a, T, const N: usize> Iterator for Iter<'a, T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<'a, T, const N: usize> DoubleEndedIterator for Iter<'a, T, N> {
@@ -407,6 +411,10 @@ impl<T: Clone, const N: usize> Iterator for IntoIter<T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<T: Clone, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
diff --git a/src/btree/core.rs b/src/btree/core.rs
index b13225b..7878a0f 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1285,6 +1285,10 @@ impl<E, N, NI: NodeIterator<E, N>> Iterator for InnerIter<E, N, NI> {
 
         None
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
-- 
2.43.0


From 120e7430d99217e5d648dfb8dce6b99ee24f22e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 06/10] fix: AvlMap::retain visits entries in ascending key
 order

---
 src/avl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index e6070f0..6d556eb 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -705,11 +705,12 @@ where
     };
 
     let (left, left_len) = retain(root.left.clone(), f);
+    let mut v = root.val.clone();
+    let keep = f(&root.key, &mut v);
     let (right, right_len) = retain(root.right.clone(), f);
     let len = left_len + right_len;
-    let mut v = root.val.clone();
 
-    if f(&root.key, &mut v) {
+    if keep {
         (join(left, root.key.clone(), v, right), len + 1)
     } else {
         (join2(left, None, right), len)
-- 
2.43.0


From 6bf942c32f0233fe55d9dbf87ce195749f63de23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/10] fix: AvlMap length stays consistent when user code
 panics in retain, append or split_off

---
 src/avl.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index 6d556eb..bfc8ff7 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1001,9 +1001,11 @@ impl<K, V> AvlMap<K, V> {
         K: Ord + Clone,
         V: Clone,
     {
-        self.root = union(self.root.take(), other.root.take());
-        self.len = len(&self.root);
+        let (lhs, rhs) = (self.root.take(), other.root.take());
+        self.len = 0; // stay consistent if a comparison panics
         other.len = 0;
+        self.root = union(lhs, rhs);
+        self.len = len(&self.root);
     }
 
     /// Drops all elements from the map.
@@ -1763,7 +1765,9 @@ impl<K, V> AvlMap<K, V> {
         V: Clone,
         F: FnMut(&K, &mut V) -> bool,
     {
-        let (root, len) = retain(self.root.take(), &mut f);
+        let root = self.root.take();
+        self.len = 0; // stay consistent if the predicate panics
+        let (root, len) = retain(root, &mut f);
         self.root = root;
         self.len = len;
     }
@@ -1788,10 +1792,12 @@ impl<K, V> AvlMap<K, V> {
         Q: Ord + ?Sized,
         V: Clone,
     {
-        let (lhs, orig_kv, mut rhs) = split(self.root.take(), key);
+        let root = self.root.take();
+        let orig_len = std::mem::replace(&mut self.len, 0); // if cmp panics
+        let (lhs, orig_kv, mut rhs) = split(root, key);
 
         let len_lhs = len(&lhs);
-        let len_rhs = self.len - len_lhs;
+        let len_rhs = orig_len - len_lhs;
 
         self.len = len_lhs;
         self.root = lhs;
-- 
2.43.0


From 0b8cca117ebbcd02f2b241c500e6077c4b161187 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 08/10] fix: deserializing a map with a huge size hint must not
 overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84fc0eb..bdc16c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,7 @@ mod serde {
 
                     Ok(MAP::make_half(scratch))
                 } else {
-                    let lf_len = (len + 1) / 2; // left gets big half for mid pt
+                    let lf_len = len - len / 2; // left gets big half for mid pt
                     let rt_len = len - lf_len;
                     let lhs =
                         build_map_by_halves::<MAP, M>(access, lf_len, scratch)?;
-- 
2.43.0


From 7f612652341f10e5bf1a3a2373c035503e4eba63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 09/10] fix: AvlSet length stays consistent when the predicate
 of retain panics

---
 src/avl/avl_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index a598928..87f357c 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -352,6 +352,7 @@ impl<T> AvlSet<T> {
         }
 
         let Some(mut root) = self.map.root.take() else { return; };
+        self.map.len = 0; // stay consistent if the predicate panics
         Arc::make_mut(&mut root);
         let Ok(root) = Arc::try_unwrap(root) else { panic!("try_unwrap fail?") };
         let mut acc = AvlMap::new();
-- 
2.43.0


From 531d15c0e4d56a88d70a5fe32892507e5fb2c1fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 10/10] fix: range_mut iterator must not claim the whole map's
 length in its size hint

---
 src/avl.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/avl.rs b/src/avl.rs
index bfc8ff7..e2c454f 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1696,7 +1696,9 @@ impl<K, V> AvlMap<K, V> {
             }
         }
 
-        InnerIter::<IterMutNode<'_, K, V>> { work, len }
+        RangeMut {
+            iter: InnerIter { work, len },
+        }
     }
 
     /// Removes the entry for the given key and returns the unmapped value.
@@ -2131,6 +2133,30 @@ impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> {
 
 impl<'a, K, V> FusedIterator for Range<'a, K, V> {}
 
+struct RangeMut<'a, K: Clone, V: Clone> {
+    iter: InnerIter<IterMutNode<'a, K, V>>,
+}
+
+impl<'a, K: Clone, V: Clone> Iterator for RangeMut<'a, K, V> {
+    type Item = (&'a K, &'a mut V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.iter.next()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (0, Some(self.iter.len()))
+    }
+}
+
+impl<'a, K: Clone, V: Clone> DoubleEndedIterator for RangeMut<'a, K, V> {
+    fn next_back(&mut self) -> Option<Self::Item> {
+        self.iter.next_back()
+    }
+}
+
+impl<'a, K: Clone, V: Clone> FusedIterator for RangeMut<'a, K, V> {}
+
 trait IntoItem<K, V> {
     type Item;
 
-- 
2.43.0

