From 178ef2648cb287ca72a63aed5a0f3a11b1990f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:26 +0000
Subject: [PATCH 01/22] fix: Tensor::get added the view offset twice, reading
 outside a sub-view

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From f8c5c22617b64033c69827017bbcac6d6428a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:26 +0000
Subject: [PATCH 02/22] fix: Tensor::as_wrap_slice_n added the view offset
 twice and bounded it wrongly

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..4ea492a 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(len <= self.size - offset);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From b878e21e4418baf3e66185dd35fa7ac287df8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:26 +0000
Subject: [PATCH 03/22] fix: Tensor::subslice_flat accepted an empty shape for
 one element

---
 src/tensor/tensor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 4ea492a..97f1963 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -137,12 +137,12 @@ impl<T: Type> Tensor<T> {
 
     pub fn subslice_flat(&self, offset: usize, len: usize, shape: impl Into<Shape>) -> Self {
         assert!(offset <= self.size);
-        assert!(offset + len <= self.size);
+        assert!(len <= self.size - offset);
 
         let shape = shape.into();
 
         let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert!(shape_len == len);
 
         Self {
             shape,
-- 
2.43.0


From b2c8e0e99cd8fbfb6593fa3786051baaba8c1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 04/22] fix: unsafe_init allocated zero-sized layouts and made
 a reference to uninitialized data

---
 src/tensor/data.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..cd8d319 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -1,6 +1,6 @@
 use core::slice;
 use std::{
-    alloc::{self, Layout}, mem, ptr::NonNull
+    alloc::{self, Layout}, ptr::NonNull
 };
 
 use crate::tensor::Tensor;
@@ -88,11 +88,18 @@ pub unsafe fn unsafe_init<T: Type>(
     let shape = shape.into();
 
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
 
-    (init)(data.cast::<T>().as_mut());
+    // zero-sized allocations are undefined behavior for alloc::alloc
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        match NonNull::new(alloc::alloc(layout).cast::<T>()) {
+            Some(data) => data,
+            None => alloc::handle_alloc_error(layout),
+        }
+    };
 
-    let data = mem::ManuallyDrop::new(data);
+    (init)(data.as_ptr());
 
-    TensorData::<T>::new(len, *data, shape)
+    TensorData::<T>::new(len, data, shape)
 }
-- 
2.43.0


From cbd23a54dd7da57bcba61081d654c94613f67f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 05/22] fix: Shape::append set the rank past the maximum rank

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..b71b74e 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -249,7 +249,7 @@ impl Shape {
 
         Self {
             dims,
-            rank: self.rank + dims.len(),
+            rank: self.rank + tail.len(),
         }
     }
 
-- 
2.43.0


From 9052ab405ff9d2a001780f787477faa6bb7e0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 06/22] fix: Shape::batch_len multiplied the innermost instead
 of the batch dimensions

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index b71b74e..62618d9 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().product::<u32>() as usize
         } else {
             1
         }
-- 
2.43.0


From ec6adc9becba5f9125fa3a9304c73018187eae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 07/22] fix: Shape::squeeze with an axis looked at the
 neighbouring dimension

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 62618d9..a1a6328 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From ef1cbc132d8fe3e49ed295b4e9cbae1de3da284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 08/22] fix: Shape::with_cols left a stray dimension in a
 scalar shape

---
 src/tensor/shape.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index a1a6328..6bca84d 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -114,6 +114,8 @@ impl Shape {
     #[inline]
     #[must_use]
     pub fn with_cols(self, col: usize) -> Self {
+        assert!(self.rank > 0);
+
         let mut own = self;
 
         own.dims[0] = col as u32;
@@ -376,8 +378,10 @@ impl Shape {
     pub fn reduce(self) -> Shape {
         if self.rank > 1 {
             self.rremove(0)
-        } else {
+        } else if self.rank == 1 {
             self.with_cols(1)
+        } else {
+            self
         }
     }
 
-- 
2.43.0


From ee47242392fabfaac3d6adcdd2fb118429fe205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 09/22] fix: Shape::rinsert accepted an axis past the rank and
 refused a sixth dimension

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 6bca84d..5066a48 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -396,7 +396,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From 814924345b103b1b4d6e0c4ac74dddd38bc2e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 10/22] fix: tensor index with 3 and 4 positions compared the
 size instead of the rank

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From 24cf9554fba0eaa2db184f652ca23e5dc56028ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 11/22] fix: normalize along an axis wrote elements to
 transposed positions

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From 92117708b66aa2332eff3fdd51f423caca092079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 12/22] fix: fold_row of a vector with an axis folded its only
 row many times

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From e5b3ccaaa39a92547d170938926dae7a332fe56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:10 +0000
Subject: [PATCH 13/22] fix: matmul swapped the rows and columns of its result
 shape

---
 src/linalg/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..e90521e 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -54,7 +54,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = a.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From c7767e3c50d8ce51cd7238730e0a6cdc43be607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:10 +0000
Subject: [PATCH 14/22] fix: matmul read past the second operand when the batch
 shapes differ

---
 src/linalg/matmul.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e90521e..648e92f 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,12 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert!(b.rank() > 1, "matrix multiplication requires rank >= 2");
+    assert_eq!(
+        a.shape().clone().rremove(0).rremove(0),
+        b.shape().clone().rremove(0).rremove(0),
+        "matmul batch shape must match"
+    );
 
     let (m, _, n) = transpose.mkn(a, b);
 
-- 
2.43.0


From 7699a2ad91f28cccbb011e1323206ebbb96e8200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 15/22] fix: arange with a negative step never terminated

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From db741c8db1e3b89efcf75ad578ceb68bc063b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 16/22] fix: Rand64::next_uniform scaled a 64-bit draw by the
 32-bit range

---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 0490f6241eff5eef32042f1e1bab444434a7fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 17/22] fix: histogram2d used the overall minimum and panicked
 on every input

---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From eba6ed945bd4e1cded9c563a799237362e79bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 18/22] fix: rfft_norm counted its rows from the outermost
 dimension

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From b2e3cc8841586c48be2bd503893b5cb6bdf578a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 19/22] fix: read_file returned zeros or a prefix when a read
 came up short

---
 src/io/read_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..acb9022 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -4,13 +4,9 @@ use crate::tensor::Tensor;
 
 pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std::io::Error> {
     let mut file = File::open(&filename.into()[0])?;
-    let len = file.metadata()?.len();
 
     let mut data: Vec<u8> = Vec::new();
-    data.reserve_exact(len as usize);
-    data.resize(len as usize, 0);
-
-    file.read(data.as_mut_slice())?;
+    file.read_to_end(&mut data)?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From c9a3a9e9e8b2f5d6c0a5f5996079bd14115502bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 20/22] fix: Tensor::append accepted tensors whose inner
 dimensions differ

---
 src/tensor/tensor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 97f1963..80214aa 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -203,8 +203,8 @@ impl<T: Type + Clone> Tensor<T> {
         let tensor = tensor.into();
 
         assert_eq!(
-            self.shape().sublen(1, self.rank()), 
-            tensor.shape().sublen(1, tensor.rank())
+            self.shape().clone().remove(0),
+            tensor.shape().clone().remove(0)
         );
 
         let mut vec = Vec::from(self.shape.as_vec());
-- 
2.43.0


From 62c1695192d315200f7549e0c570333251773781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:28 +0000
Subject: [PATCH 21/22] verification hook: export Transpose and FftOpt under
 cfg(essay_verif)

---
 src/linalg/mod.rs | 5 +++++
 src/signal/mod.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 5fa3fe6..42dadc2 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod blas_naive;
 mod blas;
 mod matmul;
@@ -5,3 +7,6 @@ mod matvec;
 
 pub use matmul::matmul;
 
+// verification hook: off unless built with --cfg essay_verif
+#[cfg(essay_verif)]
+pub use matmul::Transpose;
diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..6898800 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -1,6 +1,11 @@
+#![allow(unexpected_cfgs)]
+
 mod frame;
 mod rfft;
 
 pub use frame::frame;
 pub use rfft::rfft_norm;
 
+// verification hook: off unless built with --cfg essay_verif
+#[cfg(essay_verif)]
+pub use rfft::{FftArg, FftOpt};
-- 
2.43.0


From ae519fc0b86e9977b748fa7ac76129ff70629476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:57 +0000
Subject: [PATCH 22/22] fix: tile takes the number of multiples from the list
 itself, not its outer dimension

---
 src/array/tile.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/tile.rs b/src/array/tile.rs
index 868c3f5..f9018e8 100644
--- a/src/array/tile.rs
+++ b/src/array/tile.rs
@@ -30,8 +30,8 @@ where
 
     let mut o_shape_r = Vec::<usize>::new();
     let rank = shape.rank();
-    let m_len = multiples.len();
-    let o_rank = rank.max(multiples.len());
+    let m_len = mult_r.len();
+    let o_rank = rank.max(m_len);
     for i in 0..o_rank {
         let tile_dim = if i < rank { shape_r[i] } else { 1 };
         let repeat_dim = if i < m_len { mult_r[i] } else { 1 };
-- 
2.43.0

