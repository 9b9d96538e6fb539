From cf476bbde91b3c8b66f82e8562395d190c2e6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 01/10] fix: normalize: avoid 0/0 for slices with zero norm

---
 src/kernel/normalize/cpu.cc  | 7 ++++++-
 src/kernel/normalize/cuda.cu | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..13bcc90 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -72,7 +72,12 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = std::fabs(mean) / rms;
+                // All-zero input (rms=0 and mean=0) shall not produce 0/0
+                T tmp = one;
+                if(rms > 0)
+                {
+                    tmp = std::fabs(mean) / rms;
+                }
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
diff --git a/src/kernel/normalize/cuda.cu b/src/kernel/normalize/cuda.cu
index 786fdb7..d626abc 100644
--- a/src/kernel/normalize/cuda.cu
+++ b/src/kernel/normalize/cuda.cu
@@ -56,7 +56,12 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = ::fabs(mean) / rms;
+                // All-zero input (rms=0 and mean=0) shall not produce 0/0
+                T tmp = one;
+                if(rms > 0)
+                {
+                    tmp = ::fabs(mean) / rms;
+                }
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
-- 
2.43.0


From 5c3e2647d9914854971c2a7cc6ec7b436d73ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 02/10] fix: starpu::add::submit: order of arguments of
 scal_inplace::submit

---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From bfd691c2b56b8d71598de088b7de8746a5db4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 03/10] fix: add_fiber: apply beta when alpha is zero

---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..183989d 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 and beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..ebaae1f 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 and beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 63415afdb3766cc71c19bb8ed048aa99783dff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 04/10] fix: add_fiber, sum_fiber, mask_scalar: reject negative
 batch_ndim

---
 src/tensor/add_fiber.cc   | 4 ++++
 src/tensor/mask_scalar.cc | 4 ++++
 src/tensor/sum_fiber.cc   | 4 ++++
 src/tile/add_fiber.cc     | 4 ++++
 src/tile/sum_fiber.cc     | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 183989d..f68aecd 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -35,6 +35,10 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
  * */
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(src.ndim != batch_ndim+1)
     {
         throw std::runtime_error("src.ndim != batch_ndim+1");
diff --git a/src/tensor/mask_scalar.cc b/src/tensor/mask_scalar.cc
index f804b23..beee18c 100644
--- a/src/tensor/mask_scalar.cc
+++ b/src/tensor/mask_scalar.cc
@@ -28,6 +28,10 @@ template<typename T>
 void mask_scalar_async(const Tensor<bool_t> &mask, T val, const Tensor<T> &A,
         Index batch_ndim)
 {
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(mask.ndim != A.ndim-batch_ndim)
     {
         throw std::runtime_error("mask.ndim != A.ndim-batch_ndim");
diff --git a/src/tensor/sum_fiber.cc b/src/tensor/sum_fiber.cc
index f438c5d..00d8b55 100644
--- a/src/tensor/sum_fiber.cc
+++ b/src/tensor/sum_fiber.cc
@@ -26,6 +26,10 @@ void sum_fiber_async(T alpha, const Tensor<T> &src, T beta,
         const Tensor<T> &dst, Index axis, Index batch_ndim, int redux)
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(dst.ndim != batch_ndim+1)
     {
         throw std::runtime_error("dst.ndim != batch_ndim+1");
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index ebaae1f..8835452 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -35,6 +35,10 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
  * */
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(src.ndim != batch_ndim+1)
     {
         throw std::runtime_error("src.ndim != batch_ndim+1");
diff --git a/src/tile/sum_fiber.cc b/src/tile/sum_fiber.cc
index 09a4e42..9e9b3ed 100644
--- a/src/tile/sum_fiber.cc
+++ b/src/tile/sum_fiber.cc
@@ -25,6 +25,10 @@ void sum_fiber_async(T alpha, const Tile<T> &src, T beta,
         const Tile<T> &dst, Index axis, Index batch_ndim)
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(dst.ndim != batch_ndim+1)
     {
         throw std::runtime_error("dst.ndim != batch_ndim+1");
-- 
2.43.0


From bbad5b35f3036a67e29eb62f1a28be1a7cf7ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 05/10] fix: tile sqrt, gelutanh, mask_scalar: check shapes of
 operands

---
 src/tile/gelutanh.cc    |  5 +++++
 src/tile/mask_scalar.cc | 17 +++++++++++++++++
 src/tile/sqrt.cc        |  5 +++++
 3 files changed, 27 insertions(+)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..02b0c0c 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,6 +26,11 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
     // Submit task without any arguments checked
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..c2518c5 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,6 +27,23 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
+    // Check dimensions
+    if(A.ndim < 1)
+    {
+        throw std::runtime_error("A.ndim < 1");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(mask.shape[i] != A.shape[i])
+        {
+            throw std::runtime_error("mask.shape[i] != A.shape[i]");
+        }
+    }
     // Submit task without any arguments checked
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..462c5ac 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,6 +27,11 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
     // Submit task without any arguments checked
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
-- 
2.43.0


From 943881f458246f9ae1d9ddc167b49dc0e4712170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 06/10] fix: sumprod_fiber, sumprod_slice, adam_step,
 adamw_step, addcdiv: compare basetile shapes

---
 src/tensor/adam_step.cc     | 12 ++++++++++++
 src/tensor/adamw_step.cc    | 12 ++++++++++++
 src/tensor/addcdiv.cc       |  6 ++++++
 src/tensor/sumprod_fiber.cc |  4 ++++
 src/tensor/sumprod_slice.cc |  4 ++++
 5 files changed, 38 insertions(+)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..9a2ea79 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -40,6 +40,18 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to gradient basetile shape");
+    }
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to first_moment basetile shape");
+    }
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to second_moment basetile shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..f954fb8 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -41,6 +41,18 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to gradient basetile shape");
+    }
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to first_moment basetile shape");
+    }
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to second_moment basetile shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..4a09533 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -32,6 +32,12 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
     if (src.matrix_shape != nom.matrix_shape) {
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
+    if (nom.basetile_shape != denom.basetile_shape) {
+        throw std::runtime_error("Nominator basetile shape is not equal to denominator basetile shape");
+    }
+    if (src.basetile_shape != nom.basetile_shape) {
+        throw std::runtime_error("Nominator basetile shape is not equal to source basetile shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From e797daa75fe4543e540faac15d146f1eb17479a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 07/10] fix: half precision subcopy task runs the half
 precision worker

---
 src/starpu/subcopy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/subcopy.cc b/src/starpu/subcopy.cc
index 3041954..c79fd0c 100644
--- a/src/starpu/subcopy.cc
+++ b/src/starpu/subcopy.cc
@@ -64,7 +64,7 @@ void init()
 {
     codelet_fp16.init("nntile_subcopy_fp16",
             footprint,
-            {cpu<fp32_t>},
+            {cpu<fp16_t>},
             {}
             );
     codelet_fp32.init("nntile_subcopy_fp32",
-- 
2.43.0


From 7a9ec260f513dc971ee1d198a7811e25ea3407bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 08/10] fix: block_cyclic: read no index of a zero-dimensional
 grid

---
 src/tensor/distributions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..3e993de 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -50,8 +50,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
-        for(Index j = ndim-2; j >= 0; --j)
+        int mpi_rank = 0;
+        for(Index j = ndim-1; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
         }
-- 
2.43.0


From 0ddeef4fed973f82baba3f904572d89a18ce6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 09/10] fix: embedding, embedding_backward: check axis range
 and every dimension of the operands

---
 src/tensor/embedding.cc          | 15 ++++++++++++++-
 src/tensor/embedding_backward.cc | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..dab0792 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -63,6 +72,10 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("embed.shape[axis] != vocab.shape[0]");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     if(embed.basetile_shape[axis] % vocab.basetile_shape[0] != 0)
     {
         throw std::runtime_error("embed.basetile_shape[axis] % "
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..b8c1250 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -62,6 +71,10 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("embed.shape[axis] != vocab.shape[0]");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     if(embed.basetile_shape[axis] % vocab.basetile_shape[0] != 0)
     {
         throw std::runtime_error("embed.basetile_shape[axis] % "
-- 
2.43.0


From 0a96f60268dd3a5dbba6c7b87112456ae33db35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 10/10] fix: hypot: apply the task when alpha is zero and beta
 is one, as it takes the modulus

---
 src/tensor/hypot.cc | 5 -----
 src/tile/hypot.cc   | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/src/tensor/hypot.cc b/src/tensor/hypot.cc
index 4b656d9..56b5f74 100644
--- a/src/tensor/hypot.cc
+++ b/src/tensor/hypot.cc
@@ -42,11 +42,6 @@ void hypot_async(T alpha, const Tensor<T> &src, T beta, const Tensor<T> &dst)
                     "src.basetile_shape[i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0 && beta == 1.)
-    {
-        return;
-    }
     // Apply per-tile hypot asynchronously as needed
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < src.grid.nelems; ++i)
diff --git a/src/tile/hypot.cc b/src/tile/hypot.cc
index 5f0f237..e9340f5 100644
--- a/src/tile/hypot.cc
+++ b/src/tile/hypot.cc
@@ -37,11 +37,6 @@ void hypot_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst)
             throw std::runtime_error("dst.shape[i] != src.shape[i]");
         }
     }
-    // Do nothing if alpha is zero and beta is one
-    if(alpha == 0.0 && beta == 1.0)
-    {
-        return;
-    }
     // Insert corresponding task
     starpu::hypot::submit<T>(src.nelems, alpha, src, beta, dst);
 }
-- 
2.43.0

