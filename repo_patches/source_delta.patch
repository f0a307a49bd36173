From 34851d1e0ee16800b35298589e005620d59d122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 01/27] fix: number gradient segments from the front of the
 array

Segment i receives the contributions for elements [32*i, 32*i+32), but
rchunks_mut numbers the chunks from the back, so gradients of matrix
products with more than 32 elements ended up in the wrong places.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From 3b28828324954e1c4bb6b5674e82681e172247ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 02/27] fix: scale the gradient of sum by the incoming gradient

The derivative of sum ignored the gradient flowing into it, so anything
applied to a sum (negation, subtraction, scaling, ...) was dropped.
---
 src/tensor/autograd/jvp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..1f51649 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -74,6 +74,10 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
+    let mut array = Vec::with_capacity(length_2 * length_1);
+    for &grad in grads[0].array.iter() {
+        array.extend(std::iter::repeat(grad).take(length_1));
+    }
+    let raw_tensor = RawTensor::new(array, vec![length_2, length_1]);
     vec![RcTensor::from_raw(raw_tensor)]
 }
-- 
2.43.0


From 379f316d715b197e096a24266f8d23706d99a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 03/27] fix: do not pre-seed a gradient on the result of sum

The scalar returned by sum started with a gradient of ones in the shape
of the summed tensor; later backward passes accumulated onto it.
---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From d96dd6a16d53a835020cec37bf1e1f3a8cb0c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 04/27] fix: seed backward with a 1x1 jacobian

The derivative rules expect a two-dimensional incoming jacobian; with the
scalar seed, backward directly on a one-element abs or matrix product
panicked.
---
 src/tensor/rc_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..cb0df9a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new(vec![T::one()], vec![1, 1])])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 848d6eeff37ec783c33d53a0a53e9b8fe34036df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 05/27] fix: make the derivative of dot composable

It multiplied the incoming 1x1 jacobian element-wise with the operand,
which panics unless the shapes happen to match, and handed a gradient that
is not a jacobian to the operands' own derivatives.
---
 src/tensor/functional/misc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..1e0c65b 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -368,8 +368,10 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
     );
     let (left, right) = (inputs[0].clone(), inputs[1].clone());
     let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
+    // the jacobian of a dot product is a single row
+    let row = |t: RcTensor<T>| RcTensor::new(t.array.clone(), vec![1, t.count()]);
+    let left_jvp = jacobian.bmm(&row(right));
+    let right_jvp = jacobian.bmm(&row(left));
     vec![left_jvp, right_jvp]
 }
 
-- 
2.43.0


From 5fc597949312630e15808ffaed0ab47cc006684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 06/27] fix: update gradients atomically

The old gradient was read under one lock and the sum stored under another,
so concurrent backward passes over a shared tensor lost contributions.
---
 src/tensor/raw_tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..704db4b 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -305,11 +305,13 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
+        // hold the write lock throughout, so that concurrent updates cannot overwrite each other
+        let mut guard = self.grad.write().unwrap();
+        let new_grad = match guard.as_ref() {
             None => Some(grad),
             Some(other_grad) => Some(other_grad + &grad),
         };
-        *self.grad.write().unwrap() = new_grad;
+        *guard = new_grad;
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From 8f74381bc320ee72e00f62cb66fad2f99579e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 07/27] fix: differentiate the matrix product of a batch

bmm accepts a batch of matrices on the left and records a derivative for
it, but the derivative read the batch as a matrix and panicked.
---
 src/tensor/functional/misc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 1e0c65b..767e1c8 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -226,6 +226,14 @@ pub(crate) fn bmm_jvp<T: Numeric>(
         jacobians.len()
     );
 
+    // a batch of matrices times a matrix is one product with all the rows stacked
+    let inputs = if inputs[0].shape().len() == 3 {
+        let shape = inputs[0].shape();
+        let stacked = RcTensor::new(inputs[0].array.clone(), vec![shape[0] * shape[1], shape[2]]);
+        vec![stacked, inputs[1].clone()]
+    } else {
+        inputs
+    };
     assert_eq!(
         inputs[0].shape()[1],
         inputs[1].shape()[0],
-- 
2.43.0


From f346e18526138f27ae2d6da05e21883b90af28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 08/27] fix: do not block rayon workers on contributions that
 are not yet computed

The accumulators of bmm_jvp waited for messages of tasks that could be
queued behind them, so backward deadlocked when called from inside a small
rayon pool.
---
 src/tensor/functional/misc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 767e1c8..bc158f3 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -263,9 +263,9 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
         let left_split_writer_ref = &mut left_split_writer;
         let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
@@ -329,6 +329,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // Only accumulate once every contribution was sent: a worker that waits for contributions
+    // which are still queued behind it on the same thread would wait forever.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From 4b4ce907cf9d7225e7472325e247533979ce7e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 09/27] fix: refuse matrix products of more than three
 dimensions

With leading dimensions of size 1 they silently dropped rows.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index bc158f3..13a7332 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -55,7 +55,7 @@ where
 {
     // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From 3d7dda4606285c41ef8197b318e188a69f5a75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 10/27] fix: take the dot product of views over the elements of
 the view

---
 src/tensor/functional/misc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 13a7332..8d222ac 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,10 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    // for views, tensor() is the whole underlying tensor
+    let (left, right) = (left.to_tensor(), right.to_tensor());
+    for i in 0..left.array.len() {
+        result += left.array[i] * right.array[i];
     }
     RawTensor {
         array: vec![result],
-- 
2.43.0


From 953e2aeb92475eb372e1fcae3f2d29e81bd0ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 11/27] fix: scalar multiplication of a view uses the elements
 of the view

It returned a tensor of the view's shape holding all the elements of the
underlying tensor.
---
 src/tensor/tensor_like.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..1845bdb 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +74,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 5f8c361e7406c24733ca30e8e3d2ca3fd97d020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 12/27] fix: return an error for a bad index into a view
 instead of panicking

---
 src/tensor/tensor_view.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..7a3d25d 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -127,8 +127,7 @@ where
     fn get(&self, index: IndexType) -> Result<&T, String> {
         let idx = self
             .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
+            .global_index(index, Some(&self.view.offset))?;
         Ok(&self.tensor.array[idx])
     }
 
-- 
2.43.0


From 1bbe25b9542ad614a96103fcadd247d39779f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 13/27] fix: slice a view relative to the view

The ranges were applied to the underlying tensor.
---
 src/tensor/tensor_view.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 7a3d25d..7a17a2c 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -136,6 +136,15 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
+        assert_eq!(offset.len(), self.view.offset.len());
+        let offset = offset
+            .iter()
+            .zip(self.view.offset.iter())
+            .map(|(inner, outer)| {
+                assert!(inner.end <= outer.end - outer.start);
+                SliceRange::new(outer.start + inner.start, outer.start + inner.end)
+            })
+            .collect();
         TensorView::new(self.tensor(), offset)
     }
 
-- 
2.43.0


From d8ce919f417b444fdd326d731c5c3aaf25f17447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 14/27] fix: make reshaped views readable

A reshaped view kept the ranges and the layout of the original shape, so
most of its elements could not be read, or other elements were returned.
---
 src/tensor/tensor_view.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 7a17a2c..5fd25a5 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -68,14 +68,14 @@ where
             self.view.shape.iter().product::<usize>(),
             shape.iter().product::<usize>()
         );
-        TensorView {
-            tensor: self.tensor.clone(),
-            view: View {
-                shape,
-                offset: self.view.offset.clone(),
-            }
-            .into(),
-        }
+        // elements of the view are in general not contiguous in the underlying tensor
+        let tensor = RcTensor::new(self.to_tensor().array.clone(), shape);
+        let offset = tensor
+            .shape()
+            .iter()
+            .map(|&dim| SliceRange::new(0, dim))
+            .collect();
+        TensorView::new(tensor, offset)
     }
 }
 
-- 
2.43.0


From 06d2056a31b7f172984dc9e9a53b1001ef1f9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 15/27] fix: iterate over no index of an empty tensor

Iterators yielded a first index even if some dimension is 0, so summing,
copying or adding empty tensors and views panicked.
---
 src/tensor/functional/element_wise_ops.rs | 2 +-
 src/tensor/utils.rs                       | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..729b5a7 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -269,7 +269,7 @@ fn max_shape(left_shape: &[usize], right_shape: &[usize]) -> Vec<usize> {
         .rev()
     {
         let dim = match pair {
-            Both(&l, &r) => max(l, r),
+            Both(&l, &r) => if l == 1 { r } else { l },
             Left(&l) => l,
             Right(&r) => r,
         };
diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..7eea8b4 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -25,7 +25,7 @@ where
         ElementIterator {
             index: vec![0; tensor_like.deref().shape().len()],
             tensor_like: tensor_like.clone(),
-            first: true,
+            first: !tensor_like.deref().shape().contains(&0),
         }
     }
 }
@@ -78,8 +78,8 @@ impl IndexIterator {
     pub fn new(dimensions: Vec<usize>) -> IndexIterator {
         IndexIterator {
             index: vec![0; dimensions.len()],
+            first: !dimensions.contains(&0),
             dimensions,
-            first: true,
         }
     }
 }
@@ -99,6 +99,9 @@ impl Iterator for IndexIterator {
 }
 
 pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], shape: V) -> bool {
+    if shape.contains(&0) {
+        return false;
+    }
     let mut carry = 1;
     for i in (0..index.len()).rev() {
         let v = index[i];
-- 
2.43.0


From 027795455a52e9f8e7ab3a84656ce135e9db7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 16/27] fix: broadcast dimensions of one of a view when
 indexing it

---
 src/tensor/utils.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 7eea8b4..53917ca 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -182,9 +182,14 @@ pub(in crate::tensor) fn global_index(
     shape: &[usize],
     offset: Option<&Vec<SliceRange>>,
 ) -> Result<usize, String> {
+    // coordinates are judged by the dimensions of the view, if there is one
+    let view_dim = |i: usize| match offset {
+        Some(range_vec) => range_vec[i].end - range_vec[i].start,
+        None => shape[i],
+    };
     if index.len() < shape.len() {
-        for &dim in &shape[..shape.len() - index.len()] {
-            if dim > 1 {
+        for dim in (0..shape.len() - index.len()).map(view_dim) {
+            if dim != 1 {
                 return Err(format!(
                     "shapes do not match: self.shape={:?}, index={:?}
                     Need index to be at least as long as shape.
@@ -196,24 +201,15 @@ pub(in crate::tensor) fn global_index(
     }
     let mut global_idx = 0;
     let mut multiplier = 1;
+    // the coordinates that are missing at the front are those of dimensions of one
+    let reversed_index = index.iter().rev().copied().chain(std::iter::repeat(0));
     // TODO: consider turning this into a fold operation.
-    for (i, (&dim, &idx_dim)) in shape.iter().rev().zip(index.iter().rev()).enumerate() {
+    for (i, (&dim, idx_dim)) in shape.iter().rev().zip(reversed_index).enumerate() {
         // Fix the indexing.  We need to have all the reverses index may be shorter than shape.
         let i = shape.len() - i - 1;
-        let shaped_dim;
-        let shifted_idx;
-        if dim == 1 {
-            // we pick the 0th element during broadcasting
-            continue;
-        }
-        if let Some(range_vec) = offset {
-            // println!("setting offset: {:?}", range_vec.clone());
-            shaped_dim = range_vec[i].end - range_vec[i].start;
-            shifted_idx = range_vec[i].start + idx_dim;
-        } else {
-            shaped_dim = dim;
-            shifted_idx = idx_dim;
-        }
+        let shaped_dim = view_dim(i);
+        // we pick the 0th element during broadcasting
+        let idx_dim = if shaped_dim == 1 { 0 } else { idx_dim };
         if shaped_dim <= idx_dim {
             return Err(format!(
                     "Trying to index too far into the view!
@@ -221,12 +217,16 @@ pub(in crate::tensor) fn global_index(
                     index is: {:?}
                     Offest: {:?}
                     the {i}-th position is out-of-bounds!
-                    shaped_dim={shaped_dim}, shifted_idx={shifted_idx}, dim={dim}, idx_dim={idx_dim}",
+                    shaped_dim={shaped_dim}, dim={dim}, idx_dim={idx_dim}",
                     shape,
                     index,
                     offset,
                 ));
         }
+        let shifted_idx = match offset {
+            Some(range_vec) => range_vec[i].start + idx_dim,
+            None => idx_dim,
+        };
 
         if dim <= shifted_idx {
             return Err(format!(
-- 
2.43.0


From 9f09072954238b8b5b35cb8a042606bf5aa97c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 17/27] fix: differentiate the product of tensors

---
 src/tensor/functional/element_wise_ops.rs | 31 +++++++++++++++++-
 src/tensor/rc_tensor.rs                   | 38 +++++++++++++++++------
 2 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index 729b5a7..7e8de32 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -198,6 +198,29 @@ pub(crate) fn add_jvp<T: Numeric>(tensors: TensorList<T>, grads: TensorList<T>)
     generic_binop_jvp(left, right, grad, |_l, _r| T::one())
 }
 
+/// Element wise product of tensors of the same shape, or of a scalar and a tensor.
+pub(crate) fn mul<T: Numeric>(left: RcTensor<T>, right: RcTensor<T>) -> RcTensor<T> {
+    let mut raw_tensor = left.deref() * &right;
+    raw_tensor.grad_fn = Some(Derivative::new(
+        vec![left, right],
+        mul_jvp,
+        format!("mul, file: {}, line: {}", file!(), line!(),),
+    ));
+    RcTensor::from_raw(raw_tensor)
+}
+
+fn mul_jvp<T: Numeric>(tensors: TensorList<T>, grads: TensorList<T>) -> TensorList<T> {
+    assert!(tensors.len() == 2);
+    assert!(grads.len() == 1);
+    let (left, right) = (&tensors[0], &tensors[1]);
+    let grad = &grads[0];
+    let left_jvp =
+        generic_binop_jvp(left.clone(), right.clone(), grad.clone(), |_l, r| r)[0].clone();
+    let right_jvp =
+        generic_binop_jvp(left.clone(), right.clone(), grad.clone(), |l, _r| l)[1].clone();
+    vec![left_jvp, right_jvp]
+}
+
 fn generic_binop_jvp<T: Numeric>(
     left: RcTensor<T>,
     right: RcTensor<T>,
@@ -269,7 +292,13 @@ fn max_shape(left_shape: &[usize], right_shape: &[usize]) -> Vec<usize> {
         .rev()
     {
         let dim = match pair {
-            Both(&l, &r) => if l == 1 { r } else { l },
+            Both(&l, &r) => {
+                if l == 1 {
+                    r
+                } else {
+                    l
+                }
+            }
             Left(&l) => l,
             Right(&r) => r,
         };
diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cb0df9a..bb227a2 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -344,31 +344,49 @@ where
     }
 }
 
-impl<T, U, V> Mul<U> for RcTensor<T>
+impl<T, V> Mul<&V> for RcTensor<T>
 where
     T: Numeric,
-    U: Deref<Target = V> + Clone + std::fmt::Debug,
     V: TensorLike<Elem = T>,
 {
     type Output = RcTensor<T>;
 
-    fn mul(self, right: U) -> Self::Output {
-        let raw_tensor = self.0.deref().mul(right);
-        RcTensor::from_raw(raw_tensor)
+    fn mul(self, right: &V) -> Self::Output {
+        functional::mul(self, right.to_tensor())
+    }
+}
+
+impl<T> Mul<RcTensor<T>> for RcTensor<T>
+where
+    T: Numeric,
+{
+    type Output = RcTensor<T>;
+
+    fn mul(self, right: RcTensor<T>) -> Self::Output {
+        functional::mul(self, right)
     }
 }
 
-impl<T, U, V> Mul<U> for &RcTensor<T>
+impl<T, V> Mul<&V> for &RcTensor<T>
 where
     T: Numeric,
-    U: Deref<Target = V> + Clone + std::fmt::Debug,
     V: TensorLike<Elem = T>,
 {
     type Output = RcTensor<T>;
 
-    fn mul(self, right: U) -> Self::Output {
-        let raw_tensor = self.0.deref().mul(right);
-        RcTensor::from_raw(raw_tensor)
+    fn mul(self, right: &V) -> Self::Output {
+        functional::mul(self.clone(), right.to_tensor())
+    }
+}
+
+impl<T> Mul<RcTensor<T>> for &RcTensor<T>
+where
+    T: Numeric,
+{
+    type Output = RcTensor<T>;
+
+    fn mul(self, right: RcTensor<T>) -> Self::Output {
+        functional::mul(self.clone(), right)
     }
 }
 
-- 
2.43.0


From 7e5e1d15c6537d6fd1ab3b052bbedcd8e3103e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 18/27] fix: make the parameters of an sgd step leaves

---
 src/optim/sgd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..e5158fb 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -33,7 +33,8 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .params()
         .iter()
         .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
+            // the new parameters are leaves: they must not keep the graph of the old ones
+            let new = (p.clone() - &step_size * p.grad()).deep_clone();
             new.zero_grad();
             new
         })
-- 
2.43.0


From 1873c7ef236f943ea9e0d0db7fd7676e8be4f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 19/27] fix: keep no history in accumulated gradients

---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 704db4b..df6d64b 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -309,7 +309,8 @@ where
         let mut guard = self.grad.write().unwrap();
         let new_grad = match guard.as_ref() {
             None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
+            // keep the sum only, not the history of how it was accumulated
+            Some(other_grad) => Some(RcTensor::from_raw(functional::add_raw(other_grad, &grad))),
         };
         *guard = new_grad;
     }
-- 
2.43.0


From ede2e49ebe0dbd858c828a223dcc8e2c09ca747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 20/27] fix: keep the gradient usable after a refused update

---
 src/tensor/raw_tensor.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index df6d64b..9c60eac 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -2,7 +2,7 @@ use std::cmp::PartialEq;
 use std::convert::From;
 use std::{
     ops::{Add, Deref, Index, Mul, Neg, Sub},
-    sync::RwLock,
+    sync::{Arc, RwLock},
 };
 
 use super::autograd::Derivative;
@@ -305,14 +305,26 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        // hold the write lock throughout, so that concurrent updates cannot overwrite each other
-        let mut guard = self.grad.write().unwrap();
-        let new_grad = match guard.as_ref() {
-            None => Some(grad),
-            // keep the sum only, not the history of how it was accumulated
-            Some(other_grad) => Some(RcTensor::from_raw(functional::add_raw(other_grad, &grad))),
-        };
-        *guard = new_grad;
+        // A panic while the lock is held would make the gradient unusable, so add outside of it, and
+        // start over if another update came in between.
+        loop {
+            let old = self.grad.read().unwrap().clone();
+            let new = match old.as_ref() {
+                None => grad.clone(),
+                // keep the sum only, not the history of how it was accumulated
+                Some(other_grad) => RcTensor::from_raw(functional::add_raw(other_grad, &grad)),
+            };
+            let mut guard = self.grad.write().unwrap();
+            let unchanged = match (guard.as_ref(), old.as_ref()) {
+                (None, None) => true,
+                (Some(current), Some(old)) => Arc::ptr_eq(&current.0, &old.0),
+                _ => false,
+            };
+            if unchanged {
+                *guard = Some(new);
+                return;
+            }
+        }
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From a568c2184d5f903a3aab6e07932a500375a4b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 21/27] fix: refuse shapes whose element count overflows

In a release build the count wrapped around, so a list of two elements was
accepted for the shape [2^63 + 1, 2] (and a view reshaped to it); in a debug
build an empty tensor with two huge dimensions could not be made or indexed.
---
 src/tensor/raw_tensor.rs  | 17 +++--------------
 src/tensor/tensor_view.rs | 11 ++++-------
 src/tensor/utils.rs       | 18 ++++++++++++++++++
 3 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 9c60eac..d70d14e 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -138,13 +138,8 @@ where
     }
 
     pub(in crate::tensor) fn new_empty(shape: Vec<usize>) -> RawTensor<T> {
-        let mut total = 1;
-        for &dim in shape.iter() {
-            total *= dim;
-        }
-
         RawTensor {
-            array: Vec::with_capacity(total),
+            array: Vec::with_capacity(element_count(&shape)),
             shape,
             ..Default::default()
         }
@@ -159,10 +154,7 @@ where
                 ..Default::default()
             };
         }
-        let mut total = 1;
-        for &dim in shape.iter() {
-            total *= dim;
-        }
+        let total = element_count(&shape);
 
         let mut tensor = RawTensor {
             array: Vec::with_capacity(total),
@@ -184,10 +176,7 @@ where
     }
 
     pub fn new(array: Vec<T>, shape: Vec<usize>) -> RawTensor<T> {
-        let mut len = 1;
-        for dim in shape.iter() {
-            len *= dim;
-        }
+        let len = element_count(&shape);
         assert_eq!(
             len,
             array.len(),
diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 5fd25a5..6bd236a 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::ElementIterator;
+use crate::tensor::utils::{element_count, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -64,10 +64,7 @@ where
     }
 
     pub fn reshape(&self, shape: Vec<usize>) -> Self {
-        assert_eq!(
-            self.view.shape.iter().product::<usize>(),
-            shape.iter().product::<usize>()
-        );
+        assert_eq!(element_count(&self.view.shape), element_count(&shape));
         // elements of the view are in general not contiguous in the underlying tensor
         let tensor = RcTensor::new(self.to_tensor().array.clone(), shape);
         let offset = tensor
@@ -110,7 +107,7 @@ where
     }
 
     fn to_tensor(&self) -> RcTensor<T> {
-        let mut array = Vec::with_capacity(self.view.shape.iter().product());
+        let mut array = Vec::with_capacity(self.count());
         for elem in ElementIterator::new(self) {
             array.push(elem);
         }
@@ -132,7 +129,7 @@ where
     }
 
     fn count(&self) -> usize {
-        self.view.shape.iter().product()
+        element_count(&self.view.shape)
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53917ca..e899bfb 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -98,6 +98,17 @@ impl Iterator for IndexIterator {
     }
 }
 
+/// The number of elements of a tensor with this shape.
+pub(in crate::tensor) fn element_count(shape: &[usize]) -> usize {
+    if shape.contains(&0) {
+        return 0;
+    }
+    shape
+        .iter()
+        .try_fold(1, |count: usize, &dim| count.checked_mul(dim))
+        .expect("a tensor of this shape has too many elements")
+}
+
 pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], shape: V) -> bool {
     if shape.contains(&0) {
         return false;
@@ -199,6 +210,13 @@ pub(in crate::tensor) fn global_index(
             }
         }
     }
+    // no index is valid here, and the sizes of the other dimensions may have no product
+    if shape.contains(&0) {
+        return Err(format!(
+            "there are no elements! shape={:?}, index={:?}",
+            shape, index,
+        ));
+    }
     let mut global_idx = 0;
     let mut multiplier = 1;
     // the coordinates that are missing at the front are those of dimensions of one
-- 
2.43.0


From 966ac691c5cabed477172e082791f4082ab7d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 22/27] fix: propagate no gradient through operations on empty
 tensors

---
 src/tensor/functional/element_wise_ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index 7e8de32..911e620 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -249,6 +249,13 @@ jacobians are not matrix multipliable",
     };
     let right_jvp_shape = vec![dim_0, right.count()];
     let left_jvp_shape = vec![dim_0, left.count()];
+    if diag_length == 0 {
+        // the result has no elements, so nothing flows back
+        return vec![
+            RcTensor::new_with_filler(left_jvp_shape, T::zero()),
+            RcTensor::new_with_filler(right_jvp_shape, T::zero()),
+        ];
+    }
 
     //    dbg!(&left.shape(), &right.shape(), &diag_shape, &broadcast_shape);
     let mut array = Vec::with_capacity(diag_length);
@@ -400,6 +407,9 @@ pub(crate) fn generic_unary_jvp<T: Numeric>(
         grad.shape()[0]
     };
     let jvp_shape = vec![dim_0, diag_length];
+    if diag_length == 0 {
+        return vec![RcTensor::new_with_filler(jvp_shape, T::zero())];
+    }
 
     let mut array = Vec::with_capacity(diag_length);
     let mut idx = vec![0; tensor.shape().len()];
-- 
2.43.0


From 395211cdb7168d1a5a698a7b8584c58d6d134a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 23/27] fix: compute the dot product of shared tensors and
 views

---
 src/tensor/rc_tensor.rs   | 4 ++--
 src/tensor/tensor_view.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index bb227a2..1a605fa 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -162,12 +162,12 @@ where
         self.0.zero_grad();
     }
 
-    fn dot<U, V>(&self, _other: U) -> RcTensor<Self::Elem>
+    fn dot<U, V>(&self, other: U) -> RcTensor<Self::Elem>
     where
         U: Deref<Target = V> + std::fmt::Debug + Clone,
         V: TensorLike<Elem = Self::Elem>,
     {
-        todo!()
+        functional::dot(self, &other.to_tensor())
     }
 
     fn shape(&self) -> Self::ShapeReturn<'_> {
diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 6bd236a..6021574 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -89,12 +89,12 @@ where
     type SumType = Scalar<Self::Elem>;
     type GradType = RcTensor<T>;
 
-    fn dot<U, V>(&self, _other: U) -> RcTensor<Self::Elem>
+    fn dot<U, V>(&self, other: U) -> RcTensor<Self::Elem>
     where
         U: Deref<Target = V> + std::fmt::Debug + Clone,
         V: TensorLike<Elem = Self::Elem>,
     {
-        todo!()
+        functional::dot_no_derivative(self, other)
     }
 
     fn shape(&self) -> Self::ShapeReturn<'_> {
-- 
2.43.0


From eecbf4e22d92546d50975a4b017487c49d3cd903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 24/27] fix: build a tensor from an empty list

---
 src/tensor/raw_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index d70d14e..87579dd 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -100,7 +100,7 @@ where
 
         let array = arrays.into_iter().flat_map(|arr| arr.into_iter()).collect();
         let mut shape = vec![shapes.len()];
-        shape.extend_from_slice(&shapes[0]); // TODO: make this more by chaining iterators before so that we have shapes[0] is a dummy value
+        shape.extend(shapes.first().into_iter().flatten()); // TODO: make this more by chaining iterators before so that we have shapes[0] is a dummy value
         let shape = shape;
         RawTensor {
             array,
-- 
2.43.0


From b440f3a8ad89fdf314bcb39daa8516e24e4be7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 25/27] fix: pass the gradient of a tensor on once instead of
 once per path

---
 src/tensor/autograd/jvp.rs | 68 +++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 1f51649..2b211e3 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,3 +1,7 @@
+use std::collections::HashMap;
+use std::sync::Arc;
+
+use crate::tensor::functional;
 use crate::tensor::numeric::*;
 
 use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
@@ -25,28 +29,60 @@ impl<T: Numeric> Derivative<T> {
     }
 
     /// Computes the product outer_grads @ JVP(self.input)
-    /// Recursively expanding the JVP of the input with the chain rule
+    /// Expanding the JVP of the input with the chain rule
     /// e.g. for f(g(h(x))), jvp(1.0) = jvp(1.0 * f'(g(h(x))))
+    ///
+    /// A tensor which is used several times passes its gradient on once, when it is complete: following
+    /// every use on its own would take exponentially long.
     pub fn compute_jvp(&self, outer_grads: Vec<RcTensor<T>>) {
         // f(g(h(x))) how do i set x.grad if we are now computing f'
         // grad = f'(g(hx)) g'(h(x)) h'(x)
         // f(g(h(x), z)) how do i set x.grad if we are now computing f'
-        let self_grads = (self.jacobian_vector_product)(self.inputs.clone(), outer_grads);
-        //        dbg!(self_grads.len(), self.inputs.len(), &self.debug_info);
-        //        // dbg!(&self.inputs);
-        for (grad, input) in self_grads.iter().zip(self.inputs.iter()) {
-            //            //            dbg!(&grad, &input, &self.debug_info);
-            debug_assert_eq!(
-                grad.count(),
-                input.count(),
-                "grad and input must have the same number of elements"
-            );
-            let shaped_grad = RcTensor::new(grad.0.array.clone(), input.shape().to_vec());
-            input.update_grad(shaped_grad);
-            if let Some(d) = input.grad_fn.as_ref() {
-                d.compute_jvp(vec![grad.clone()]);
+        let mut uses = HashMap::new();
+        let mut pending = vec![self];
+        while let Some(derivative) = pending.pop() {
+            for input in derivative.inputs.iter() {
+                let count = uses.entry(Arc::as_ptr(&input.0)).or_insert(0);
+                *count += 1;
+                if *count == 1 {
+                    pending.extend(input.grad_fn.as_ref());
+                }
+            }
+        }
+        let mut incomplete: HashMap<_, RcTensor<T>> = HashMap::new();
+        let mut complete = vec![(self, outer_grads)];
+        while let Some((derivative, outer_grads)) = complete.pop() {
+            let self_grads =
+                (derivative.jacobian_vector_product)(derivative.inputs.clone(), outer_grads);
+            //        dbg!(self_grads.len(), self.inputs.len(), &self.debug_info);
+            //        // dbg!(&self.inputs);
+            for (grad, input) in self_grads.iter().zip(derivative.inputs.iter()) {
+                //            //            dbg!(&grad, &input, &self.debug_info);
+                debug_assert_eq!(
+                    grad.count(),
+                    input.count(),
+                    "grad and input must have the same number of elements"
+                );
+                let shaped_grad = RcTensor::new(grad.0.array.clone(), input.shape().to_vec());
+                input.update_grad(shaped_grad);
+                if let Some(d) = input.grad_fn.as_ref() {
+                    let key = Arc::as_ptr(&input.0);
+                    let total = match incomplete.remove(&key) {
+                        None => grad.clone(),
+                        Some(other_grad) => {
+                            RcTensor::from_raw(functional::add_raw(&other_grad, grad))
+                        }
+                    };
+                    let count = uses.get_mut(&key).unwrap();
+                    *count -= 1;
+                    if *count == 0 {
+                        complete.push((d, vec![total]));
+                    } else {
+                        incomplete.insert(key, total);
+                    }
+                }
+                //            dbg!(&input);
             }
-            //            dbg!(&input);
         }
     }
 }
-- 
2.43.0


From 5ab55d954d4dd885c8fbb5df1549817efc750887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 26/27] fix: drop a long chain of operations without recursion

---
 src/tensor/autograd/jvp.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 2b211e3..cfdc5f7 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -87,6 +87,21 @@ impl<T: Numeric> Derivative<T> {
     }
 }
 
+impl<T: Numeric> Drop for Derivative<T> {
+    /// Drops the graph without recursion: a long chain of operations would overflow the stack.
+    fn drop(&mut self) {
+        let mut pending = std::mem::take(&mut self.inputs);
+        while let Some(tensor) = pending.pop() {
+            // the last one to let go of a tensor takes its inputs over
+            if let Some(mut raw_tensor) = Arc::into_inner(tensor.0) {
+                if let Some(derivative) = raw_tensor.grad_fn.as_mut() {
+                    pending.append(&mut derivative.inputs);
+                }
+            }
+        }
+    }
+}
+
 /// When used for making a jacobian_vector_product function
 /// left ought to be the gradient passed in and right is the computed jacobian
 pub(in crate::tensor) fn jvp_from_full_jacobians<T: Numeric>(
-- 
2.43.0


From 0109bec5d4f98084db083e2340c66e084b5b005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 27/27] fix: refuse a parameter list of the wrong length before
 changing a module

---
 src/nn/feed_foward.rs | 2 ++
 src/nn/linear.rs      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/nn/feed_foward.rs b/src/nn/feed_foward.rs
index 69f311a..767e6c7 100644
--- a/src/nn/feed_foward.rs
+++ b/src/nn/feed_foward.rs
@@ -38,6 +38,8 @@ impl<T: Numeric, const N: usize> Module<T> for Mlp<T, N> {
     }
 
     fn update_params(&mut self, new_params: TensorList<T>) {
+        // a layer has weights and a bias
+        assert_eq!(new_params.len(), 2 * self.layers.len());
         let mut param_iter = new_params.into_iter().rev();
         for i in (0..self.layers.len()).rev() {
             let bias = param_iter.next().unwrap();
diff --git a/src/nn/linear.rs b/src/nn/linear.rs
index b3a9892..4661560 100644
--- a/src/nn/linear.rs
+++ b/src/nn/linear.rs
@@ -55,6 +55,7 @@ impl<T: Numeric> Module<T> for Linear<T> {
         vec![self.weights.clone(), self.bias.clone()]
     }
     fn update_params(&mut self, mut new_params: TensorList<T>) {
+        assert_eq!(new_params.len(), 2);
         self.bias = new_params.remove(1);
         self.weights = new_params.remove(0);
     }
-- 
2.43.0

