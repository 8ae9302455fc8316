From 6c3beb86364f3d763b912ac4fbeead908068c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 01/17] fix: batch_slice_bw called the implementation of
 slice_bw

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..c6bf26f 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,7 +460,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
-- 
2.43.0


From 378b53854abc255ee55bf23633cae4aad904d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 02/17] fix: batch_pick_bw called the implementation of pick_bw

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index c6bf26f..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -467,7 +467,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From d1543fc1d1cba660d7ce35a9f07fc851c0d2d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 03/17] fix: BatchSplit backward used the gradient of the first
 piece for all pieces

---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From e1ebbcc331434ec619ddad0081cb03dce86b3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 04/17] fix: ELU operator computed PReLU

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From a7b8dbca501cab48db196a3b93b761c5d460bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 05/17] fix: Sum and Logsumexp backward panicked for a
 dimension beyond the depth

---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From 2013d449eb39399b8a2e4dbe2319b7e15b4e0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 06/17] fix: operators with a scalar operand rejected every
 non-scalar operand

---
 prima_undine/src/operators/add.rs    | 2 ++
 prima_undine/src/operators/common.rs | 4 ++--
 prima_undine/src/operators/div.rs    | 3 +++
 prima_undine/src/operators/mul.rs    | 2 ++
 prima_undine/src/operators/powf.rs   | 3 +++
 prima_undine/src/operators/sub.rs    | 3 +++
 6 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..26624a4 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Add,
     add_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.add_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.add_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -17,6 +18,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..0533fd4 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -24,7 +24,7 @@ macro_rules! define_operator_struct {
 }
 
 macro_rules! define_operator_ab {
-    ($name:ident, $fw:ident, $bwfunc:expr) => {
+    ($name:ident, $fw:ident, $sop:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +34,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$sop(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..58b3022 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Div,
     div_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.div_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.div_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +30,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..9707d2e 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Mul,
     mul_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.mul_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.mul_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -17,6 +18,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..719a54e 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Pow,
     powf_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.powf_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.powf_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +30,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..60883cf 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Sub,
     sub_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.sub_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.sub_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From f0d6266ec504291d9d43e9394ad924f0c349656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 07/17] fix: neg_bw was not implemented on the naive device

---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 58b6ce2ddd08b786c8a9fcca4ac0a8c0e6834493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 08/17] fix: Tensor::pow rejected scalar operands, unlike
 Node::pow

---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 8fe4ddacd069bc9e974e57d3328c416fe4e6160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 09/17] fix: add_assign and sub_assign wrote out of bounds for
 mismatching shapes

---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From a8e9007e74d12fc0d4a498950e61322f99dd96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 10/17] fix: Tensor::replace took over a buffer its argument
 did not own

---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..edc2f93 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -70,6 +70,7 @@ impl<'dev> Tensor<'dev> {
     pub fn replace(&mut self, other: Tensor) {
         assert_eq!(self.device, other.device);
         assert!(!self.valid());
+        assert!(other.reference.is_none());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
         self.handle
-- 
2.43.0


From 306743960e72151f776fcfd0e448a07473c591fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 11/17] fix: Tensor::refer to an unallocated tensor leaked the
 buffer allocated later

---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index edc2f93..82a04b2 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -60,6 +60,7 @@ impl<'dev> Tensor<'dev> {
     pub fn refer(&mut self, other: &'dev Tensor<'dev>) {
         assert_eq!(self.device, other.device);
         assert!(!self.valid());
+        assert!(other.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
         self.handle
-- 
2.43.0


From 9899dd49044225dabd46a5c8154ee3e2cbe1d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 12/17] fix: backward mixed up outputs and reused stale
 gradients

---
 prima_undine/src/graph.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..557ce74 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,19 +128,19 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
+    queue.push_back(Rc::clone(&op_info));
+    while let Some(op_info) = queue.pop_front() {
         for ret in &op_info.rets {
             let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
         }
-    }
-    queue.push_back(op_info);
-    while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
             let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
             if !reached.contains(&ptr) {
@@ -150,6 +150,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    op_info.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -169,14 +170,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -218,7 +212,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From 802a8db9fea62a6aaaad4cd4f8054134016ca811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 13/17] fix: Node::reshape accepted a shape of another size
 until evaluation

---
 prima_undine/src/operators/reshape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/reshape.rs b/prima_undine/src/operators/reshape.rs
index c67c8b0..0d9662a 100644
--- a/prima_undine/src/operators/reshape.rs
+++ b/prima_undine/src/operators/reshape.rs
@@ -12,7 +12,8 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Reshape<'dev> {
         self.device
     }
 
-    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
+    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(self.shape.size() == x[0].size());
         vec![self.shape]
     }
 
-- 
2.43.0


From be2137f9cee70c60226c7a6553e151fe506ce010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 14/17] fix: triangular_l and triangular_u overflowed for a
 large diagonal

---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c3cd93d 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..77e1aba 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From 42bc3ed0624d69207e1e7312dc7fcbf6ff487bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 15/17] fix: shape sizes wrapped around instead of being
 rejected in release builds

---
 prima_undine/src/shape.rs     | 12 ++++++++++--
 prima_undine/src/shape_ops.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..ce6aa73 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -7,6 +7,11 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
 const MAX_DEPTH: u32 = 8;
 
+fn checked_mul(a: u32, b: u32) -> u32 {
+    assert!(a as u64 * b as u64 <= u32::max_value() as u64);
+    a * b
+}
+
 #[derive(Clone, Copy, PartialEq, Eq)]
 pub struct Shape {
     dims: [u32; MAX_DEPTH as usize],
@@ -28,8 +33,9 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = checked_mul(volume, dims[i]);
         }
+        checked_mul(volume, batch);
         Shape {
             dims: dims_filled,
             batch: batch,
@@ -136,7 +142,8 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        self.volume = checked_mul(self.volume / self.dims[dim as usize], m);
+        checked_mul(self.volume, self.batch);
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
@@ -145,6 +152,7 @@ impl Shape {
 
     pub fn update_batch(&mut self, batch: u32) {
         assert!(batch >= 1);
+        checked_mul(self.volume, batch);
         self.batch = batch;
     }
 }
diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..12b7662 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = sum.checked_add(s[dim]).unwrap();
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = sum.checked_add(s.batch()).unwrap();
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From 4ac7deb629c87e89a1d111974dd594657bc52ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 16/17] fix: serializing a loaded tensor before moving it to a
 device panicked

---
 prima_undine/src/tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 82a04b2..eca796f 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -128,7 +128,10 @@ impl<'dev> Serialize for Tensor<'dev> {
     {
         let mut s = serializer.serialize_struct("Tensor", 2)?;
         s.serialize_field("shape", &self.shape)?;
-        s.serialize_field("values", &self.device().tensor_to_vector(self))?;
+        match &self.host_values {
+            Some(values) => s.serialize_field("values", values)?,
+            None => s.serialize_field("values", &self.device().tensor_to_vector(self))?,
+        }
         s.end()
     }
 }
-- 
2.43.0


From e29b2194019906d5762805c2193ea1a2e3f56310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 17/17] fix: triangular_l and triangular_u nodes accepted
 non-square operands until evaluation

---
 prima_undine/src/operators/triangular_l.rs | 1 +
 prima_undine/src/operators/triangular_u.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/operators/triangular_l.rs b/prima_undine/src/operators/triangular_l.rs
index 76bcec2..800bff8 100644
--- a/prima_undine/src/operators/triangular_l.rs
+++ b/prima_undine/src/operators/triangular_l.rs
@@ -14,6 +14,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for TriangularL<'dev> {
     }
 
     fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].is_matrix() && x[0][0] == x[0][1]);
         vec![x[0]]
     }
 
diff --git a/prima_undine/src/operators/triangular_u.rs b/prima_undine/src/operators/triangular_u.rs
index 1f495a8..e5207ad 100644
--- a/prima_undine/src/operators/triangular_u.rs
+++ b/prima_undine/src/operators/triangular_u.rs
@@ -14,6 +14,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for TriangularU<'dev> {
     }
 
     fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].is_matrix() && x[0][0] == x[0][1]);
         vec![x[0]]
     }
 
-- 
2.43.0

