From 9e5914a8dbadcdbd72a4fcf0dec6cd11315c720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 01/19] fix: keep element order when pop_front moves the tail
 buffer to the head

Popping from the front with only the tail buffer left reversed the remaining
elements.
---
 src/pvec/tree.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..8fb71f0 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -536,11 +536,8 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From e5b90f3ea70a4b9dfc20be632a32a375443d581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 02/19] fix: keep operand order when concatenating onto a
 taller tree

With the left operand shorter than the right one the operands were swapped.
---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 8fb71f0..d639f10 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 666706758e3ba0e74e758383006c6eb3b9caff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 03/19] fix: account for the head buffer when popping from the
 back of a tree

pop_back counted head-buffer elements as tree elements: it returned None,
a wrong element, or left the length out of step with the contents.
---
 src/pvec/tree.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index d639f10..a956b6c 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -461,9 +461,21 @@ impl<T: Clone> RRBTree<T> {
             return None;
         }
 
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            // Only the head buffer holds elements.
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((
+                Self {
+                    root: self.root.clone(),
+                    tail: self.tail.clone(),
+                    head: new_head,
+                    height: self.height,
+                    len: self.len - 1,
+                },
+                popped,
+            ));
         }
 
         let last_tree_index = tree_size - 1;
-- 
2.43.0


From 7b3f30d8ac1c6b938460fbf2aa03bd7beabc241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 04/19] fix: never store an empty leaf as a child of a branch
 node

An empty leaf left behind as first or last child made later pops skip the
whole tree.
---
 src/pvec/node.rs |  2 ++
 src/pvec/tree.rs | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..9610c2d 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -213,6 +213,7 @@ impl<T: Clone> RRBNode<T> {
 
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
         match self {
+            RRBNode::Leaf { elements } if elements.is_empty() => leaf.as_ref().clone(),
             RRBNode::Leaf { .. } => {
                 let self_size = self.calculate_size();
                 let leaf_size = leaf.calculate_size();
@@ -329,6 +330,7 @@ impl<T: Clone> RRBNode<T> {
 
     pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
         match self {
+            RRBNode::Leaf { elements } if elements.is_empty() => leaf.as_ref().clone(),
             RRBNode::Leaf { .. } => {
                 let leaf_size = leaf.calculate_size();
                 let self_size = self.calculate_size();
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index a956b6c..0855468 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -306,11 +306,17 @@ impl<T: Clone> RRBTree<T> {
             right_for_merge = right_for_merge.push_head_to_tree();
         }
 
-        let merged_root = Self::concat_nodes(
-            &left_for_merge.root,
-            &right_for_merge.root,
-            self.height.max(other.height),
-        );
+        let merged_root = if left_for_merge.root.calculate_size() == 0 {
+            right_for_merge.root.as_ref().clone()
+        } else if right_for_merge.root.calculate_size() == 0 {
+            left_for_merge.root.as_ref().clone()
+        } else {
+            Self::concat_nodes(
+                &left_for_merge.root,
+                &right_for_merge.root,
+                self.height.max(other.height),
+            )
+        };
 
         Self {
             root: Arc::new(merged_root),
-- 
2.43.0


From e0f239ef2cfbfa06c0f10336082cb4b967e3cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 05/19] fix: find the split path from the nodes, not from the
 recorded height

After concatenation the recorded height can be smaller than the depth of the
path to an element; splitting then cut the wrong child.
---
 src/pvec/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 0855468..6ebad85 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -771,7 +771,9 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        // Follow the nodes themselves: concatenation and popping can leave paths
+        // of different lengths below one root.
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From 07a2000a18ff8de0b61501ea65ee22f38dc9fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 06/19] fix: do not elevate an empty tree when concatenating

Wrapping an empty root in branches left an empty first child, after which
pop_front returned None on a non-empty vector.
---
 src/pvec/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 6ebad85..e495391 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -338,6 +338,11 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn elevate_tree(tree: &Self, target_height: usize) -> Self {
+        if tree.root.calculate_size() == 0 {
+            // Nothing to elevate: wrapping an empty leaf would leave an empty child.
+            return tree.clone();
+        }
+
         let mut current_root = tree.root.clone();
         let mut current_height = tree.height;
 
-- 
2.43.0


From e4cc7849fb87a508e0a449f70129c25e304977dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 07/19] fix: compare, order and hash persistent vectors by
 their elements

The derived implementations looked at the internal representation and the
generation counter, so equal vectors built differently were unequal.
---
 src/pvec/core.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..488e571 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -977,6 +979,37 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Equality, ordering and hashing look at the elements only: the internal shape
+// depends on how a vector was built.
+impl<T: Clone + PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().eq(other.iter())
+    }
+}
+
+impl<T: Clone + Eq> Eq for PersistentVector<T> {}
+
+impl<T: Clone + PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.iter().partial_cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter().cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for item in self.iter() {
+            item.hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From a23c9643cea19dda4103bdd5491db83cd38b3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 08/19] fix: let concurrent and plain-thread runs of an async
 IO wait for its one result

---
 src/datatypes/io.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..4471901 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -780,10 +780,11 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
                 return cached_result.clone();
             }
 
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
+            // Held until the result is published, so that a concurrent run waits for it.
+            let mut future_slot = future_once.lock().unwrap();
+            if let Some(f) = future_slot.take() {
                 let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
+                    .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
                     }))
                     .unwrap();
-- 
2.43.0


From 8dd876d96b6cbc10e1ba2331b3b10bdc9e3afe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 09/19] fix: Choice bind and join keep results after an empty
 first result

---
 src/datatypes/choice.rs | 122 ++++++----------------------------------
 1 file changed, 18 insertions(+), 104 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..e4ad52e 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,11 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
+        // The first value produced becomes the primary value, even when the
+        // original primary produced none.
+        Choice {
+            values: self.values.iter().flat_map(|v| f(v).values).collect(),
         }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1458,9 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
+        Choice {
+            values: self.values.into_iter().flat_map(|v| f(v).values).collect(),
         }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
     }
 
     #[inline]
@@ -1514,33 +1469,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
+        Choice {
+            values: self
+                .values
+                .iter()
+                .flat_map(|v| Into::<Self::Output<U>>::into(v.clone()).values)
+                .collect(),
         }
-
-        Choice::new(first, alternatives)
     }
 
     #[inline]
@@ -1549,34 +1484,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
+        Choice {
+            values: self
+                .values
+                .into_iter()
+                .flat_map(|v| Into::<Self::Output<U>>::into(v).values)
+                .collect(),
         }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
     }
 }
 
-- 
2.43.0


From 23026adc7bb61a15a48e1d94cecfdf1e2602196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 10/19] fix: combine_n_owned combines exactly n copies

---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From cc640583591c4ee35b000075f751d95385457627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 11/19] fix: collecting validations keeps a failure that
 carries no errors

---
 src/datatypes/validated/core.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..62637b4 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,21 +1547,20 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
-        let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
-            (Vec::new(), SmallVec::<[E; 8]>::new()),
-            |(mut values, mut errors), item| {
+        let (values, errors): (Vec<_>, Option<SmallVec<[E; 8]>>) = iter.fold(
+            (Vec::new(), None),
+            |(mut values, mut errors): (_, Option<SmallVec<[E; 8]>>), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => errors.get_or_insert_default().extend(es),
                 }
                 (values, errors)
             },
         );
 
-        if errors.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
-            Validated::Invalid(errors)
+        match errors {
+            None => Validated::Valid(C::from_iter(values)),
+            Some(errors) => Validated::Invalid(errors),
         }
     }
 
@@ -1595,18 +1594,22 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut any_invalid = false;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    any_invalid = true;
+                    acc.extend_owned(es)
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
+        if any_invalid {
             Validated::Invalid(acc.into_inner())
+        } else {
+            Validated::Valid(C::from_iter(values))
         }
     }
 
-- 
2.43.0


From 5bb8fb0c604535b9ecba229a77f4ab003530e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 12/19] fix: combining lifted state effects keeps the later
 state

---
 src/transformers/state_t.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transformers/state_t.rs b/src/transformers/state_t.rs
index 3345176..4f26565 100644
--- a/src/transformers/state_t.rs
+++ b/src/transformers/state_t.rs
@@ -488,9 +488,9 @@ where
                 StateT::Pure(c)
             },
             (StateT::LiftM(m1), StateT::LiftM(m2)) => {
-                let combiner: StateCombiner<S, A, B, C> = Box::new(move |(s1, a), (_, b)| {
+                let combiner: StateCombiner<S, A, B, C> = Box::new(move |(_, a), (s2, b)| {
                     let f_clone = f.clone();
-                    (s1, f_clone(a, b))
+                    (s2, f_clone(a, b))
                 });
                 StateT::LiftM(combine_fn(m1.clone(), m2.clone(), combiner))
             },
-- 
2.43.0


From ae71a3fb00309b0e083c3a6b059df657ff62815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 13/19] fix: reader transformer bind no longer duplicates the
 bound value

---
 src/transformers/reader_t.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..18f7454 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -952,13 +952,7 @@ where
             let f_clone = f.clone();
             let e_clone = e.clone();
 
-            M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
-                f_clone(a_value).run_reader(e_clone.clone())
-            })
+            M::bind::<B, _>(&ma, move |a: &A| f_clone(a.clone()).run_reader(e_clone.clone()))
         })
     }
 
-- 
2.43.0


From 83a7ae7f0ec986384391b1263a53fb23ecf8c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 14/19] fix: recovering in an error pipeline drops the
 recovered error's contexts

---
 src/error/context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/error/context.rs b/src/error/context.rs
index 7964dc6..1be6203 100644
--- a/src/error/context.rs
+++ b/src/error/context.rs
@@ -275,9 +275,12 @@ impl<T, E> ErrorPipeline<T, E> {
     where
         F: FnOnce(E) -> Result<T, E>,
     {
+        let result = self.result.or_else(recovery);
+        // The contexts described the error that was just recovered from.
+        let pending_contexts = if result.is_ok() { SmallVec::new() } else { self.pending_contexts };
         ErrorPipeline {
-            result: self.result.or_else(recovery),
-            pending_contexts: self.pending_contexts,
+            result,
+            pending_contexts,
         }
     }
 
-- 
2.43.0


From 9844b7961c1a4827eaf5c2d7a99d7818e875d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 15/19] fix: Identity::try_value and try_into_value return None
 instead of panicking on valueless containers

---
 src/datatypes/choice.rs           | 10 ++++++++++
 src/datatypes/either.rs           | 10 ++++++++++
 src/datatypes/maybe.rs            | 10 ++++++++++
 src/datatypes/validated/traits.rs | 10 ++++++++++
 src/datatypes/wrapper/first.rs    | 10 ++++++++++
 src/datatypes/wrapper/last.rs     | 10 ++++++++++
 6 files changed, 60 insertions(+)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index e4ad52e..835f30e 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1314,6 +1314,16 @@ impl<T: Clone> Identity for Choice<T> {
             .next()
             .expect("Cannot get value from an empty Choice")
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.first()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.values.into_iter().next()
+    }
 }
 
 impl<T: Clone> Functor for Choice<T> {
diff --git a/src/datatypes/either.rs b/src/datatypes/either.rs
index 06266d3..8ffc928 100644
--- a/src/datatypes/either.rs
+++ b/src/datatypes/either.rs
@@ -1082,6 +1082,16 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
             Either::Right(r) => r,
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.into_iter().next()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.right_option()
+    }
 }
 
 /// Implementation of `MonadPlus` for `Either`, which provides zero and plus operations.
diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 300066f..010c78e 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1420,6 +1420,16 @@ impl<T> Identity for Maybe<T> {
     fn into_value(self) -> Self::Source {
         self.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.as_option()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.to_option()
+    }
 }
 
 impl<T> Default for Maybe<T> {
diff --git a/src/datatypes/validated/traits.rs b/src/datatypes/validated/traits.rs
index e654ee9..c459b5c 100644
--- a/src/datatypes/validated/traits.rs
+++ b/src/datatypes/validated/traits.rs
@@ -651,6 +651,16 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
             _ => panic!("Cannot extract value from invalid Validated"),
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.into_value().ok()
+    }
 }
 
 /// # Examples for `Foldable` on `Validated`
diff --git a/src/datatypes/wrapper/first.rs b/src/datatypes/wrapper/first.rs
index 4d041da..11628c1 100644
--- a/src/datatypes/wrapper/first.rs
+++ b/src/datatypes/wrapper/first.rs
@@ -381,6 +381,16 @@ impl<T: Clone> Identity for First<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for First<T> {
diff --git a/src/datatypes/wrapper/last.rs b/src/datatypes/wrapper/last.rs
index 49436c7..95aef28 100644
--- a/src/datatypes/wrapper/last.rs
+++ b/src/datatypes/wrapper/last.rs
@@ -400,6 +400,16 @@ impl<T: Clone> Identity for Last<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for Last<T> {
-- 
2.43.0


From 49068ceb81b80f2c0c099aea57abe96d4170c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 16/19] fix: applying or zipping two pure async values calls
 the function when run, not when built

---
 src/datatypes/async_monad.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/datatypes/async_monad.rs b/src/datatypes/async_monad.rs
index edb36f3..fef89c8 100644
--- a/src/datatypes/async_monad.rs
+++ b/src/datatypes/async_monad.rs
@@ -788,10 +788,18 @@ impl<A: Send + Sync + 'static> AsyncM<A> {
         F: Fn(A) -> B + Clone + Send + Sync + 'static,
         A: Clone,
     {
-        // Ultra-fast path: Pure + Pure → direct apply
+        // Fast path: Pure + Pure → direct apply, still only when the computation runs
         if let (AsyncMInner::Pure(v), AsyncMInner::Pure(f)) = (&self.inner, &mf.inner) {
-            let result = (**f).clone()((**v).clone());
-            return AsyncM::pure(result);
+            let v = Arc::clone(v);
+            let f = Arc::clone(f);
+            return AsyncM {
+                inner: AsyncMInner::Effect(Arc::new(move || {
+                    let v = Arc::clone(&v);
+                    let f = Arc::clone(&f);
+                    async move { (*f)((*v).clone()) }.boxed()
+                })),
+                _phantom: PhantomData,
+            };
         }
 
         let self_inner = self.inner.clone();
@@ -1116,10 +1124,19 @@ impl<A: Send + Sync + 'static> AsyncM<A> {
         C: Send + Sync + Clone + 'static,
         A: Clone,
     {
-        // Ultra-fast path: Pure + Pure → direct combine
+        // Fast path: Pure + Pure → direct combine, still only when the computation runs
         if let (AsyncMInner::Pure(a), AsyncMInner::Pure(b)) = (&self.inner, &other.inner) {
-            let result = f.clone()((**a).clone(), (**b).clone());
-            return AsyncM::pure(result);
+            let a = Arc::clone(a);
+            let b = Arc::clone(b);
+            return AsyncM {
+                inner: AsyncMInner::Effect(Arc::new(move || {
+                    let a = Arc::clone(&a);
+                    let b = Arc::clone(&b);
+                    let f = f.clone();
+                    async move { f((*a).clone(), (*b).clone()) }.boxed()
+                })),
+                _phantom: PhantomData,
+            };
         }
 
         AsyncM {
-- 
2.43.0


From 4a0d407c8deaa81014b1dfe95e7423d20705e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 17/19] fix: Validated::invalid_many no longer reserves the
 iterator's upper size bound

---
 src/datatypes/validated/core.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index 62637b4..9dc784a 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -714,18 +714,8 @@ impl<E: Clone, A: Clone> Validated<E, A> {
                     Validated::Invalid(vec)
                 }
             },
-            Some(upper_bound) => {
-                // Upper bound available
-                if upper_bound <= 4 {
-                    Validated::Invalid(iter.collect())
-                } else {
-                    let mut vec = SmallVec::with_capacity(upper_bound);
-                    vec.extend(iter);
-                    Validated::Invalid(vec)
-                }
-            },
-            None => {
-                // No upper bound - use lower bound or default
+            _ => {
+                // The upper bound may be far too large (or absent) - use the lower bound or default
                 if lower <= 4 {
                     Validated::Invalid(iter.collect())
                 } else {
-- 
2.43.0


From 7ad8442b9955dc5b3daf66cbf8a6faa956f6b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 18/19] fix: keep persistent vector trees within their height

Leaves pushed beside a full root, and heights measured along the first
child only, let trees grow far taller than their size needs; splitting and
concatenating again and again overflowed the stack.
---
 src/pvec/node.rs |  44 ++++++++++++++++++++
 src/pvec/tree.rs | 106 +++++++++++++++++++++++++----------------------
 2 files changed, 100 insertions(+), 50 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 9610c2d..b5ba752 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -211,6 +211,50 @@ impl<T: Clone> RRBNode<T> {
         }
     }
 
+    /// Adds a leaf at the front or at the back, as deep down as a node that may
+    /// be `height` levels tall has room for it. Returns `None` if it would have
+    /// to become taller.
+    pub fn push_leaf_within(
+        &self, leaf: &Arc<RRBNode<T>>, height: usize, front: bool,
+    ) -> Option<Self> {
+        let push_here = || {
+            if front {
+                self.push_front_leaf(leaf.clone())
+            } else {
+                self.push_leaf(leaf.clone())
+            }
+        };
+
+        match self {
+            RRBNode::Leaf { elements } if elements.is_empty() => Some(push_here()),
+            _ if height == 0 => None,
+            RRBNode::Leaf { .. } => Some(push_here()),
+            RRBNode::Branch { children, sizes } => {
+                let index = if front {
+                    0
+                } else {
+                    children.len().saturating_sub(1)
+                };
+                if let Some(new_child) = children
+                    .get(index)
+                    .and_then(|child| child.push_leaf_within(leaf, height - 1, front))
+                {
+                    let new_size = new_child.calculate_size();
+                    let mut new_children = children.clone();
+                    new_children[index] = Arc::new(new_child);
+                    Some(RRBNode::Branch {
+                        children: new_children,
+                        sizes: Self::update_size_table_after_update(sizes, index, new_size),
+                    })
+                } else if children.len() < BRANCHING_FACTOR {
+                    Some(push_here())
+                } else {
+                    None
+                }
+            },
+        }
+    }
+
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
         match self {
             RRBNode::Leaf { elements } if elements.is_empty() => leaf.as_ref().clone(),
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index e495391..406d92d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -227,8 +227,12 @@ impl<T: Clone> RRBTree<T> {
             elements: self.tail.clone(),
         };
 
-        let new_root = self.root.push_leaf(Arc::new(tail_leaf));
-        let new_height = Self::calculate_height(&Arc::new(new_root.clone()));
+        let tail_leaf = Arc::new(tail_leaf);
+        let (new_root, new_height) =
+            match self.root.push_leaf_within(&tail_leaf, self.height, false) {
+                Some(new_root) => (new_root, self.height),
+                None => (self.root.push_leaf(tail_leaf), self.height + 1),
+            };
 
         Self {
             root: Arc::new(new_root),
@@ -265,8 +269,12 @@ impl<T: Clone> RRBTree<T> {
             elements: self.head.clone(),
         };
 
-        let new_root = self.root.push_front_leaf(Arc::new(head_leaf));
-        let new_height = Self::calculate_height(&Arc::new(new_root.clone()));
+        let head_leaf = Arc::new(head_leaf);
+        let (new_root, new_height) = match self.root.push_leaf_within(&head_leaf, self.height, true)
+        {
+            Some(new_root) => (new_root, self.height),
+            None => (self.root.push_front_leaf(head_leaf), self.height + 1),
+        };
 
         Self {
             root: Arc::new(new_root),
@@ -306,27 +314,42 @@ impl<T: Clone> RRBTree<T> {
             right_for_merge = right_for_merge.push_head_to_tree();
         }
 
+        let taller = left_for_merge.height.max(right_for_merge.height);
         let merged_root = if left_for_merge.root.calculate_size() == 0 {
             right_for_merge.root.as_ref().clone()
         } else if right_for_merge.root.calculate_size() == 0 {
             left_for_merge.root.as_ref().clone()
         } else {
-            Self::concat_nodes(
-                &left_for_merge.root,
-                &right_for_merge.root,
-                self.height.max(other.height),
-            )
+            Self::concat_nodes(&left_for_merge.root, &right_for_merge.root, taller)
+        };
+        let merged_height = match &merged_root {
+            RRBNode::Leaf { .. } => taller,
+            // two leaves may have become a branch
+            RRBNode::Branch { .. } => taller.max(1),
         };
 
         Self {
             root: Arc::new(merged_root),
             tail: right_for_merge.tail.clone(),
             head: left_for_merge.head.clone(),
-            height: self.height.max(other.height),
+            height: merged_height,
             len: self.len + other.len,
         }
     }
 
+    /// Drops root levels that hold a single child, so that concatenating parts
+    /// of a tree again does not make it taller.
+    fn with_lowest_root(mut self) -> Self {
+        loop {
+            let only_child = match self.root.as_ref() {
+                RRBNode::Branch { children, .. } if children.len() == 1 => children[0].clone(),
+                _ => return self,
+            };
+            self.root = only_child;
+            self.height = self.height.saturating_sub(1);
+        }
+    }
+
     fn concat_different_height(&self, other: &Self, left_higher: bool) -> Self {
         if left_higher {
             let elevated_other = Self::elevate_tree(other, self.height);
@@ -415,7 +438,15 @@ impl<T: Clone> RRBTree<T> {
                 {
                     let next_height = height.saturating_sub(1);
                     let merged_middle = Self::concat_nodes(left_last, right_first, next_height);
-                    new_children.push(Arc::new(merged_middle));
+                    match (left_last.as_ref(), merged_middle) {
+                        // two leaves that do not fit into one stay at this level
+                        (RRBNode::Leaf { .. }, RRBNode::Branch { children, .. })
+                            if matches!(right_first.as_ref(), RRBNode::Leaf { .. }) =>
+                        {
+                            new_children.extend(children);
+                        },
+                        (_, merged_middle) => new_children.push(Arc::new(merged_middle)),
+                    }
                 }
 
                 for i in 1..right_children.len() {
@@ -621,8 +652,20 @@ impl<T: Clone> RRBTree<T> {
         let (left_root, right_root) = self.split_tree_at(tree_index);
 
         (
-            Self::from_head_and_root(self.head.clone(), left_root),
-            Self::from_root_and_tail(right_root, self.tail.clone()),
+            Self::from_head_and_tree_and_tail(
+                self.head.clone(),
+                left_root,
+                SmallVec::new(),
+                self.height,
+            )
+            .with_lowest_root(),
+            Self::from_head_and_tree_and_tail(
+                SmallVec::new(),
+                right_root,
+                self.tail.clone(),
+                self.height,
+            )
+            .with_lowest_root(),
         )
     }
 
@@ -858,30 +901,6 @@ impl<T: Clone> RRBTree<T> {
         }
     }
 
-    fn from_head_and_root(head: SmallVec<[T; LEAF_CAPACITY]>, root: Arc<RRBNode<T>>) -> Self {
-        let tree_size = root.calculate_size();
-        let height = Self::calculate_height(&root);
-        Self {
-            root,
-            tail: SmallVec::new(),
-            head: head.clone(),
-            height,
-            len: head.len() + tree_size,
-        }
-    }
-
-    fn from_root_and_tail(root: Arc<RRBNode<T>>, tail: SmallVec<[T; LEAF_CAPACITY]>) -> Self {
-        let tree_size = root.calculate_size();
-        let height = Self::calculate_height(&root);
-        Self {
-            root,
-            tail: tail.clone(),
-            head: SmallVec::new(),
-            height,
-            len: tree_size + tail.len(),
-        }
-    }
-
     fn split_head_at(
         &self, index: usize,
     ) -> (SmallVec<[T; LEAF_CAPACITY]>, SmallVec<[T; LEAF_CAPACITY]>) {
@@ -897,17 +916,4 @@ impl<T: Clone> RRBTree<T> {
         let right = SmallVec::from_iter(self.tail.iter().skip(index).cloned());
         (left, right)
     }
-
-    fn calculate_height(node: &Arc<RRBNode<T>>) -> usize {
-        match node.as_ref() {
-            RRBNode::Leaf { .. } => 0,
-            RRBNode::Branch { children, .. } => {
-                if let Some(first_child) = children.first() {
-                    1 + Self::calculate_height(first_child)
-                } else {
-                    0
-                }
-            },
-        }
-    }
 }
-- 
2.43.0


From 5f0aa4a02d9f2e9cc0f0e5ceaf6f442fbcc926f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:44 +0000
Subject: [PATCH 19/19] fix: a panicking computation no longer disables the
 memoizer

---
 src/datatypes/wrapper/memoizer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/wrapper/memoizer.rs b/src/datatypes/wrapper/memoizer.rs
index f3ec6fc..5f9abc4 100644
--- a/src/datatypes/wrapper/memoizer.rs
+++ b/src/datatypes/wrapper/memoizer.rs
@@ -77,7 +77,7 @@
 //! ```
 use std::collections::HashMap;
 use std::hash::Hash;
-use std::sync::RwLock;
+use std::sync::{PoisonError, RwLock};
 
 /// Thread-safe memoizer for pure functions.
 ///
@@ -198,15 +198,16 @@ where
     where
         F: FnOnce(&K) -> V,
     {
+        // A computation that panics leaves the cache as it was, so a poisoned lock is usable.
         // Try to read from cache first
         {
-            let cache = self.cache.read().unwrap();
+            let cache = self.cache.read().unwrap_or_else(PoisonError::into_inner);
             if let Some(v) = cache.get(&key) {
                 return v.clone();
             }
         }
         // Not found, compute and insert
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         // Double-check in case another thread inserted
         if let Some(v) = cache.get(&key) {
             return v.clone();
@@ -252,7 +253,7 @@ where
     /// assert_eq!(value, 126);
     /// ```
     pub fn clear(&self) {
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         cache.clear();
     }
 }
-- 
2.43.0

