From 936a37ee3ce23f285796ddbe182c8e1a8bda2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:19 +0000
Subject: [PATCH 01/21] fix: reshaping a zero-dimensional array no longer
 panics

reshape read the stride of the last axis, which a scalar does not have.
---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From edf50eb577d571baa4fbe6bbff8b112ce6ddc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:19 +0000
Subject: [PATCH 02/21] fix: consuming reshape keeps the allocation's capacity

view(), reshape(), squeeze(), unsqueeze() and the transposes that consume an owned
array set the capacity of the result to 0, so its buffer was never released.
---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 8b47d2bcb343ad430f9ddc142816434f1afb35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:45 +0000
Subject: [PATCH 03/21] fix: broadcast views no longer claim to be contiguous
 or uniformly strided

A zero stride was accepted for an axis of any length, so views that repeat elements took
the code paths meant for plain buffers and read past the end of their storage.
---
 src/ndarray/iterator/collapse_contiguous.rs | 6 +++++-
 src/ndarray/slice.rs                        | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..4d3b635 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,8 +81,12 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
+    // the zero strides of leading axes may only be ignored if those axes have a single element
+    let mut is_padding = true;
+
     for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
+        is_padding = is_padding && stride[i - 1] == 0 && shape[i - 1] == 1;
+        if !is_padding && stride[i - 1] != shape[i] * stride[i] {
             return None;
         }
     }
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..94bca53 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // a stride of 0 repeats one element, which is contiguous only if there is just one
+            if stride == 1 || (stride == 0 && shape.iter().product::<usize>() == 1) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From 4faf9fc4ba6dbc8d189c989ddbeff921e5cd179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:41 +0000
Subject: [PATCH 04/21] fix: in-place arithmetic on a non-contiguous view
 updates the view's elements

The kernels store their results contiguously, so an in-place operation on a strided view
overwrote its source's neighbouring elements (and memory past the source).
---
 src/ndarray/assign_ops.rs | 60 +++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..33dc4f6 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -10,8 +10,17 @@ use paste::paste;
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Overwrites the elements of this array with those of `source`, which has the same shape.
+    fn assign_elements(&mut self, source: &NdArray<'_, T>) {
+        for (dst, value) in self.flatiter_ptr().zip(source.flatiter()) {
+            unsafe { *dst = value };
+        }
+    }
+}
+
 macro_rules! define_binary_iop {
-    ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
+    ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $symbol:tt, $method:ident ) => {
         paste! {
             impl<T: RawDataType + $binary_op_trait> $iop_trait<NdArray<'_, T>> for NdArray<'_, T> {
                 fn [<$method _assign>](&mut self, rhs: NdArray<'_, T>) {
@@ -25,23 +34,18 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
-                    if rhs.shape() == self.shape() {
+                    let rhs = rhs.broadcast_to(&self.shape);
+
+                    // the kernels write their output contiguously
+                    if self.is_contiguous() {
                         unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
                                                              rhs.ptr(), &rhs.stride(),
                                                              self.mut_ptr(), self.shape());
                         }
-                    }
-                    
-                    // right-hand term needs broadcasting
-                    else {
-                        let rhs = rhs.broadcast_to(&self.shape);
-                        
-                        unsafe {
-                        <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
-                                                         rhs.ptr(), &rhs.stride(),
-                                                         self.mut_ptr(), self.shape());
-                        }
+                    } else {
+                        let result = &*self $symbol &rhs;
+                        self.assign_elements(&result);
                     }
                 }
             }
@@ -52,9 +56,15 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
-                    unsafe {
-                        <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
-                                                                     rhs, self.mut_ptr());
+                    // the kernels write their output contiguously
+                    if self.is_contiguous() {
+                        unsafe {
+                            <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
+                                                                         rhs, self.mut_ptr());
+                        }
+                    } else {
+                        let result = &*self $symbol rhs;
+                        self.assign_elements(&result);
                     }
                 }
             }
@@ -62,12 +72,12 @@ macro_rules! define_binary_iop {
     };
 }
 
-define_binary_iop!(BinaryOpAdd, AddAssign, +=, add);
-define_binary_iop!(BinaryOpSub, SubAssign, -=, sub);
-define_binary_iop!(BinaryOpMul, MulAssign, *=, mul);
-define_binary_iop!(BinaryOpDiv, DivAssign, /=, div);
-define_binary_iop!(BinaryOpRem, RemAssign, %=, rem);
-define_binary_iop!(BinaryOpBitAnd, BitAndAssign, &=, bitand);
-define_binary_iop!(BinaryOpBitOr, BitOrAssign, |=, bitor);
-define_binary_iop!(BinaryOpShl, ShlAssign, <<=, shl);
-define_binary_iop!(BinaryOpShr, ShrAssign, >>=, shr);
+define_binary_iop!(BinaryOpAdd, AddAssign, +=, +, add);
+define_binary_iop!(BinaryOpSub, SubAssign, -=, -, sub);
+define_binary_iop!(BinaryOpMul, MulAssign, *=, *, mul);
+define_binary_iop!(BinaryOpDiv, DivAssign, /=, /, div);
+define_binary_iop!(BinaryOpRem, RemAssign, %=, %, rem);
+define_binary_iop!(BinaryOpBitAnd, BitAndAssign, &=, &, bitand);
+define_binary_iop!(BinaryOpBitOr, BitOrAssign, |=, |, bitor);
+define_binary_iop!(BinaryOpShl, ShlAssign, <<=, <<, shl);
+define_binary_iop!(BinaryOpShr, ShrAssign, >>=, >>, shr);
-- 
2.43.0


From 5c69babd3a3879c8fa8d50602522026d82771b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 05/21] fix: element indexing checks every index against its
 axis

Only the flat offset was compared with the buffer length: out-of-range indices read or
wrote other elements, and valid indices into diagonals of views were refused.
---
 src/ndarray/index_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..afce1a4 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -12,20 +12,20 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
             .map(|(idx, stride)| idx * stride)
             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
+        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
         let i: usize = index.iter().zip(self.stride.iter())
                             .map(|(idx, stride)| idx * stride)
                             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, len)| idx < len), "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From 95297301e1827e1b9138d2550ff04848691eac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 06/21] fix: slicing rejects ranges and indices outside the
 axis

Out-of-range slices returned views of memory beyond the array.
---
 src/ndarray/slice.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 94bca53..07f044b 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -39,10 +39,17 @@ fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
 }
 
 
+fn check_slice_bounds(index: &impl Indexer, axis_length: usize) {
+    let length = index.indexed_length(axis_length);
+    assert!(length <= axis_length && index.index_of_first_element() <= axis_length - length,
+            "slice is out of bounds for axis of length {axis_length}");
+}
+
 impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
     {
         let axis = axis.as_absolute(self.ndims());
+        check_slice_bounds(&index, self.shape[axis]);
 
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
@@ -88,6 +95,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            check_slice_bounds(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
                 let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
-- 
2.43.0


From 5b7bbdfc86bbec6c65324bfb490347f7a52ac9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:14 +0000
Subject: [PATCH 07/21] fix: fill, zero and element assignment refuse read-only
 views

Broadcast views are documented as read-only but only in-place arithmetic honoured that.
---
 src/ndarray/fill.rs       | 2 ++
 src/ndarray/index_impl.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..eef2ca1 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -16,6 +17,7 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index afce1a4..c4ed55b 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -19,6 +20,7 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
         let i: usize = index.iter().zip(self.stride.iter())
-- 
2.43.0


From 6713ef6c5d3685edfcaafa03be8da223266d97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 08/21] fix: iterating over several axes wraps at the end of
 each axis

NdIterator advanced one position past an axis before carrying into the next one, so nditer
over more than one axis yielded wrong elements and read outside the array.
---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..3f8b2c8 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] != self.shape[i] - 1 {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From 5db6fc24c40cb2414812fe255b8c604f276841d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 09/21] fix: views and scalar sums no longer expose or reset
 their source's gradient

---
 src/autograd/identity_backwards.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/autograd/identity_backwards.rs b/src/autograd/identity_backwards.rs
index 7f65f9b..27ebd0f 100644
--- a/src/autograd/identity_backwards.rs
+++ b/src/autograd/identity_backwards.rs
@@ -1,10 +1,26 @@
-use crate::gradient_function::GradientFunction;
-use crate::{FloatDataType, Tensor};
+use crate::gradient_function::{GradientFuncTrait, GradientFunction};
+use crate::{call_next_backward, FloatDataType, NdArray, Tensor};
+use std::cell::RefCell;
+use std::rc::Rc;
 
-pub(crate) struct IdentityBackwards {}
+/// Backwards function for operations that pass the gradient through unchanged.
+///
+/// This is a node of its own (rather than the source's node) so that the gradient of the source
+/// is not exposed as, or reset through, the gradient of the derived tensor.
+pub(crate) struct IdentityBackwards<T: FloatDataType> {
+    next_function: GradientFunction<T>,
+}
+
+impl<T: FloatDataType> GradientFuncTrait<T> for IdentityBackwards<T> {
+    fn backward(&mut self, grad: &NdArray<T>) {
+        call_next_backward!(grad, self.next_function);
+    }
+}
 
-impl IdentityBackwards {
-    pub(crate) fn new<T: FloatDataType>(tensor: &Tensor<T>) -> GradientFunction<T> {
-        tensor.grad_fn()
+impl<T: FloatDataType> IdentityBackwards<T> {
+    pub(crate) fn new(tensor: &Tensor<T>) -> GradientFunction<T> {
+        Rc::new(RefCell::new(Self {
+            next_function: tensor.grad_fn(),
+        }))
     }
 }
-- 
2.43.0


From 4517175a82dd99e8895b0550dabd600a66aa4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:50 +0000
Subject: [PATCH 10/21] fix: backward through reshape accepts gradients of any
 layout

---
 src/autograd/reshape_backwards.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..9b1dfe1 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -11,7 +11,8 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
+        // the incoming gradient may be laid out in a way that cannot be reshaped without a copy
+        call_next_backward!(grad.clone().reshape(&self.shape),
                             self.next_function);
     }
 }
-- 
2.43.0


From 0202728730e1e86cb2ff9ef36c146a6ad9443291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:50 +0000
Subject: [PATCH 11/21] fix: backward_with may be given a view of a leaf's own
 gradient

---
 src/tensor/autograd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd.rs b/src/tensor/autograd.rs
index 06ac769..4cccf5c 100644
--- a/src/tensor/autograd.rs
+++ b/src/tensor/autograd.rs
@@ -153,7 +153,8 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
         let gradient = gradient.as_ref();
         assert_eq!(gradient.shape(), self.shape());
 
-        self.grad_fn.borrow_mut().backward(gradient);
+        // the caller may pass a view of a leaf's gradient, which this pass is about to modify
+        self.grad_fn.borrow_mut().backward(&gradient.clone());
     }
 
     /// Computes the gradient of the `self` with respect to its leaf tensors.
-- 
2.43.0


From f0d1e9afd0f3497bc637f9b50314d13e284b3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:52 +0000
Subject: [PATCH 12/21] fix: consuming reshape of a shared, non-contiguous
 tensor keeps its element order

---
 src/tensor/reshape.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..0150e9e 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -3,6 +3,7 @@ use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
 use crate::{AxisType, Reshape, StridedMemory, Tensor, TensorDataType};
 use crate::identity_backwards::IdentityBackwards;
+use std::rc::Rc;
 
 
 impl<'a, T: TensorDataType> Reshape<T> for &'a Tensor<'a, T> {
@@ -100,7 +101,12 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        let result = if Rc::strong_count(&self.array) == 1 && !self.is_view() {
+            self.into_ndarray().reshaped_view(shape, stride)
+        } else {
+            // a copy may be laid out differently, so apply the shape and stride before copying
+            self.array.as_ref().reshaped_view(shape, stride).clone()
+        };
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From 7aab710c757ca337c05995523da5c29994f95ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:52 +0000
Subject: [PATCH 13/21] fix: arrays taken from a tensor view no longer refer to
 storage that may be dropped

---
 src/tensor/methods.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..9c43ac6 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -34,13 +34,19 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        if self.array.is_view() {
+            // the returned array may outlive the storage this view refers to
+            return Rc::new(self.detach());
+        }
+
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
     pub fn into_ndarray(self) -> NdArray<'static, T> {
         match Rc::try_unwrap(self.array) {
-            Ok(result) => { result }
+            // the returned array may outlive the storage a view refers to
+            Ok(result) => { if result.is_view() { result.clone() } else { result } }
             Err(rc) => { (*rc).clone() }
         }
     }
-- 
2.43.0


From b963e829cfd65e6cbcea9677f36778115fc290ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 14/21] fix: rand::<f32> no longer rounds up to 1

---
 src/common/random.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..68cfb99 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -51,9 +51,10 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(0.0, 1.0);
+        // sampled in `T`: rounding an `f64` below 1 to `f32` could give 1
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
+            .map(|_| uniform.sample(&mut rng))
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From 5f5e76a574efe18d1a05f49e02f234833ab9221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:46 +0000
Subject: [PATCH 15/21] fix: randint draws every integer in [low, high) equally
 often and never high

---
 src/common/random.rs | 14 +++++++++++---
 src/util/dtype.rs    |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 68cfb99..4075009 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,6 +1,6 @@
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -106,9 +106,17 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low.to_float(), high.to_float());
+        // Sampled in `T`, which is exact for integers. For floats, rounding the bounds up and the
+        // samples down makes every whole number in the range equally likely.
+        assert!(low.ceil() < high.ceil(), "randint: there must be an integer between low and high");
+        let uniform = Uniform::new_inclusive(low.ceil(), high.ceil());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| loop {
+                let sample = uniform.sample(&mut rng).floor();
+                if sample < high {
+                    break sample;
+                }
+            })
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..86302c7 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -42,7 +42,7 @@ impl RawDataType for f64 {}
 
 impl RawDataType for bool {}
 
-pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
+pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool> + SampleUniform
 + Sum + Product + SubAssign + Sub<Output=Self> + Div<Output=Self> + MulAdd<Output=Self> + DotProduct
 + ReduceSum + ReduceProduct + ReduceMin + ReduceMax + ReduceMinMagnitude + ReduceMaxMagnitude
 + BinaryOpAdd + BinaryOpSub + BinaryOpMul
@@ -150,7 +150,7 @@ impl IntegerDataType for i64 {}
 impl IntegerDataType for i128 {}
 impl IntegerDataType for isize {}
 
-pub trait FloatDataType: NumericDataType + Float + From<f32> + SampleUniform + Neg<Output=Self>
+pub trait FloatDataType: NumericDataType + Float + From<f32> + Neg<Output=Self>
 + SumOfProductsType + MatrixOps + BinaryOpDiv + UnaryOps {}
 
 impl FloatDataType for f32 {}
-- 
2.43.0


From 0412a97530ec93debfa50a0682571b51d536e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:46 +0000
Subject: [PATCH 16/21] fix: uniform returns for ranges that are narrow
 compared to their bounds

---
 src/common/random.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 4075009..5ad6ce9 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -78,9 +78,18 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low, high);
+        assert!(low < high, "uniform: low must be less than high");
+
+        // `Uniform::new(low, high)` does not return in practical time if the range is narrow
+        // compared to its bounds, so sample from the closed range and leave out `high`.
+        let uniform = Uniform::new_inclusive(low, high);
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
+            .map(|_| loop {
+                let sample = uniform.sample(&mut rng);
+                if sample < high {
+                    break sample;
+                }
+            })
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From 3c8a16fa02f40dbb1f0220a13041c992e32b55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:03 +0000
Subject: [PATCH 17/21] fix: einsum's performance warning no longer panics when
 standard error fails

---
 src/linalg/einsum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..3aadb00 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -1,4 +1,5 @@
 use crate::dtype::{NumericDataType, RawDataType};
+use std::io::{stderr, Write};
 use crate::iterator::collapse_contiguous::has_uniform_stride;
 use crate::iterator::multi_flat_index_generator::MultiFlatIndexGenerator;
 use crate::linalg::specialized_einsum::*;
@@ -341,7 +342,8 @@ where
     // check if the output can be generated by only reshaping the ndarray
 
     if n_operands == 1 && reshape_shape_and_stride_for_einsum(operands[0], &operand_labels[0], output_dims, output_labels).is_some() {
-        eprintln!("\x1b[33mredstone warning: use einsum_view() or reshape() to improve performance for this operation\x1b[0m");
+        // `eprintln!` would panic if standard error cannot be written to
+        let _ = writeln!(stderr(), "\x1b[33mredstone warning: use einsum_view() or reshape() to improve performance for this operation\x1b[0m");
     }
 
 
-- 
2.43.0


From bc83db60e70ae015acb1a05cad032b91aa2d7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:05 +0000
Subject: [PATCH 18/21] fix: arrays of vectors are flattened element by element

---
 src/util/flatten.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..d2d0ed3 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -7,8 +7,6 @@ use crate::recursive_trait_base_cases;
 use crate::util::shape::Shape;
 use std::fmt::Debug;
 
-use std::ptr::copy_nonoverlapping;
-
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
 }
@@ -30,20 +28,10 @@ where
     [T; N]: Shape,
     A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
-- 
2.43.0


From bbc47f6ee7cae050a461b002ee996b6773689f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:05 +0000
Subject: [PATCH 19/21] fix: einsum rejects an output that ends in a single '.'

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 3aadb00..e020b26 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -158,6 +158,10 @@ fn parse_output_subscripts(subscripts: &str,
         }
     }
 
+    if check_ellipsis {
+        panic!("einsum subscripts string contains '.' that is not part of an ellipsis ('..')")
+    }
+
     let ndims = subscripts.len();
     if found_ellipsis { (ndims - 2) + broadcast_dims } else { ndims }
 }
-- 
2.43.0


From 87dbf5808fa37d089334ea1330ae9506477160f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:55 +0000
Subject: [PATCH 20/21] fix: new rejects ragged rows at every nesting level and
 in arrays of vectors

---
 src/util/homogenous.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From ad49c081ec32e955f9ffbcff21aefb520998c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:44 +0000
Subject: [PATCH 21/21] fix: einsum rejects a subscript list that does not
 match its operands

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index e020b26..8789746 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -318,6 +318,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires exactly one subscript string per operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0

