From b417366d352d1a3fc8190489fb9bf396723bfd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:03 +0000
Subject: [PATCH 01/20] fix: distributed reductions must not round fp64 to fp32
 or drop imaginary parts

---
 torch_harmonics/distributed/primitives.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..fea354e 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -357,7 +357,9 @@ def _reduce(input_, use_fp32=True, group=None):
     # dist.all_reduce is in-place on its tensor argument; the .clone() forces a fresh
     # buffer so we never mutate the caller's tensor (which would alias an autograd-
     # tracked value when the input is fp32 + contiguous).
-    if use_fp32:
+    # Only 16-bit floats are widened for the reduction: wider floats, complex numbers and
+    # integers would lose precision (or their imaginary part) in a round trip through fp32.
+    if use_fp32 and input_.dtype in (torch.float16, torch.bfloat16):
         dtype = input_.dtype
         inputf_ = input_.float().contiguous().clone()
         dist.all_reduce(inputf_, group=group)
@@ -464,7 +466,8 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    # widen 16-bit floats only, see _reduce
+    work_dtype = torch.float32 if (use_fp32 and dtype in (torch.float16, torch.bfloat16)) else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From 5f7ee9ec2ac67c25825dbdb6a41d05dc777583a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:03 +0000
Subject: [PATCH 02/20] fix: distributed spectral convolution with bias must
 accept fp64 inputs like the serial one

---
 .../distributed_spectral_convolution.py         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 2dc1160..879276b 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -195,16 +195,17 @@ class DistributedSpectralConvS2(nn.Module):
     def forward(self, x):
         dtype = x.dtype
 
-        # compute integral in case if bias is used
-        if hasattr(self, "spectral_bias"):
-            integral = self.quadrature(x)
-            if self.comm_size_polar > 1:
-                integral = copy_to_polar_region(integral)
-            if self.comm_size_azimuth > 1:
-                integral = copy_to_azimuth_region(integral)
-
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
             x = x.to(torch.float32)
+
+            # compute integral in case if bias is used
+            if hasattr(self, "spectral_bias"):
+                integral = self.quadrature(x)
+                if self.comm_size_polar > 1:
+                    integral = copy_to_polar_region(integral)
+                if self.comm_size_azimuth > 1:
+                    integral = copy_to_azimuth_region(integral)
+
             x = self.sht(x).contiguous()
 
         # store the shapes
-- 
2.43.0


From 7714a3f2f37afef77f559f74f44f47a0b9cadb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 03/20] fix: preprocess_psi must not merge the last row of a
 filter basis function with the first row of the next one

After sorting by basis function, row boundaries were only detected by a change
of the row index. If the last row of one basis function has the same index as
the first row of the next (common for the latitude shard of a distributed
convolution), both were merged and the second was contracted with the weights
of the first.
---
 torch_harmonics/disco/optimized/disco_helpers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..37130cb 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -85,7 +85,9 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        // a new row starts whenever the row or the kernel changes: the last row of one
+        // kernel can have the same index as the first row of the next one
+        if (row_h[i - 1] == row_h[i] && ker_h[i - 1] == ker_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From 108c6ffd54a36c7caa42a008a0e0be4a98476ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:37 +0000
Subject: [PATCH 04/20] fix: distributed DISCO convolution must accept a rank
 whose latitude shard holds a single filter entry

---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..62c3043 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze(-1)
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From 202d12793e1de5eccc786d7c116719247337f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 05/20] fix: DISCO CPU kernels must not index filter entries of
 a rank that has none

With no filter entry on a rank (small cutoff, thin latitude shard) the row
offsets are [0, 0] and reading the indices of that empty row dereferenced an
empty tensor (segmentation fault).
---
 torch_harmonics/disco/optimized/disco_helpers.h             | 1 +
 torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.h | 1 +
 torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 37130cb..2522fcd 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -115,6 +115,7 @@ void pack_psi_dense_kernel(int64_t K, int64_t Ho, int64_t Wi, int64_t nbr_pad, i
 
         const int64_t soff = roff_h[i];
         const int64_t eoff = roff_h[i + 1];
+        if (soff == eoff) continue; // no filter entries at all: nothing to index
         const int64_t k = ker_h[soff];
         const int64_t ho = row_h[soff];
         const int64_t cnt = eoff - soff;
diff --git a/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.h b/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.h
index 57af0d0..01b4c37 100644
--- a/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.h
+++ b/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.h
@@ -107,6 +107,7 @@ namespace disco_kernels
 
                         const int64_t soff = roff_p[row];
                         const int64_t eoff = roff_p[row + 1];
+                        if (soff == eoff) continue; // no filter entries at all: nothing to index
                         const int64_t hi = row_p[soff];
                         const int64_t ker = ker_p[soff];
 
diff --git a/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.h b/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.h
index 33d27e2..5f18ea7 100644
--- a/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.h
+++ b/torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.h
@@ -93,6 +93,7 @@ namespace disco_kernels
 
                         const int64_t soff = roff_p[row];
                         const int64_t eoff = roff_p[row + 1];
+                        if (soff == eoff) continue; // no filter entries at all: nothing to index
                         const int64_t ho = row_p[soff];
                         const int64_t ker = ker_p[soff];
 
-- 
2.43.0


From 6e97d2af1f7d4896b40ed54f0af50759080260a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:36 +0000
Subject: [PATCH 06/20] fix: polar halo exchange of zero rows must return the
 input instead of sending the whole shard into an empty buffer

---
 torch_harmonics/distributed/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index fea354e..cb94063 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -1052,7 +1052,7 @@ class _PolarHaloExchangeFn(torch.autograd.Function):
 
         # setup send buffers
         send_top = x[:, :, :r_lat, :].contiguous()  # top r_lat rows → rank-1
-        send_bot = x[:, :, -r_lat:, :].contiguous()  # bottom r_lat rows → rank+1
+        send_bot = x[:, :, H - r_lat :, :].contiguous()  # bottom r_lat rows → rank+1
 
         # setup recv buffers
         recv_top = torch.zeros(B, C, r_lat, W, device=device, dtype=dtype)
-- 
2.43.0


From e667b0481c04299cc14c877f2f4c159b977d9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:26 +0000
Subject: [PATCH 07/20] fix: distributed neighborhood attention must refuse a
 halo wider than the smallest polar shard

---
 torch_harmonics/distributed/distributed_attention.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index 60a5409..ace67ca 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -958,6 +958,14 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
             # Use the lat_out_lo of our polar rank to compute ho_global.
             self.r_lat = self._compute_r_lat()
 
+        # The halo exchange only reaches the immediate polar neighbours, so a rank
+        # cannot supply more halo rows than it owns.
+        if self.r_lat > min(self.lat_in_shapes):
+            raise ValueError(
+                f"DistributedNeighborhoodAttentionS2: the neighborhood reaches {self.r_lat} latitude rows beyond a polar shard, "
+                f"but the smallest shard only owns {min(self.lat_in_shapes)} rows. Choose a smaller theta_cutoff or fewer polar ranks."
+            )
+
     # -----------------------------------------------------------------------
 
     def _build_local_psi(self):
-- 
2.43.0


From 90eb9c230e3b217a4093e3d7a840ae4f855bdf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 08/20] fix: finalize must destroy each group once also when
 the default group or one shared group is registered

---
 torch_harmonics/distributed/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/torch_harmonics/distributed/utils.py b/torch_harmonics/distributed/utils.py
index 13f86e4..7ae8eea 100644
--- a/torch_harmonics/distributed/utils.py
+++ b/torch_harmonics/distributed/utils.py
@@ -153,6 +153,13 @@ def finalize():
     global _AZIMUTH_PARALLEL_GROUP
     global _IS_INITIALIZED
     if is_initialized():
+        if dist.is_initialized() and dist.group.WORLD in (_POLAR_PARALLEL_GROUP, _AZIMUTH_PARALLEL_GROUP):
+            # destroying the default group destroys all other groups as well
+            dist.destroy_process_group()
+            _POLAR_PARALLEL_GROUP = None
+            _AZIMUTH_PARALLEL_GROUP = None
+        if _AZIMUTH_PARALLEL_GROUP is _POLAR_PARALLEL_GROUP:
+            _AZIMUTH_PARALLEL_GROUP = None
         if is_distributed_polar():
             dist.destroy_process_group(_POLAR_PARALLEL_GROUP)
             _POLAR_PARALLEL_GROUP = None
-- 
2.43.0


From 9e237d5f016cb3f70ec884bc68b1084d12cd9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:30 +0000
Subject: [PATCH 09/20] fix: download the elevation map atomically, so a
 partial file is never taken for the cached one

---
 torch_harmonics/utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/utils.py b/torch_harmonics/utils.py
index 1b3dce8..4b83aa2 100644
--- a/torch_harmonics/utils.py
+++ b/torch_harmonics/utils.py
@@ -32,6 +32,7 @@
 import os
 import tempfile
 import urllib.request
+import uuid
 from typing import Optional
 
 import numpy as np
@@ -79,8 +80,17 @@ def load_mola_elevation(
 
     if not os.path.exists(path):
         req = urllib.request.Request(_MOLA_URL, headers={"User-Agent": "torch-harmonics"})
-        with urllib.request.urlopen(req) as resp, open(path, "wb") as f:
-            f.write(resp.read())
+        # download into a file of our own and move it into place once it is complete, so that neither an
+        # interrupted nor a concurrent download can leave a partial file behind under the cached name
+        part_path = f"{path}.{uuid.uuid4().hex}.part"
+        try:
+            with urllib.request.urlopen(req) as resp, open(part_path, "wb") as f:
+                f.write(resp.read())
+            os.replace(part_path, path)
+        except BaseException:
+            if os.path.exists(part_path):
+                os.remove(part_path)
+            raise
 
     img = np.array(Image.open(path).convert("L"), dtype=np.float32) / 255.0
     data = torch.from_numpy(img)
-- 
2.43.0


From ac89a349b7f273dd98326e3086210c06556ce5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:56 +0000
Subject: [PATCH 10/20] fix: do not cache Legendre tables by tensor identity,
 which returns stale tables after the angles change in place

---
 torch_harmonics/legendre.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/torch_harmonics/legendre.py b/torch_harmonics/legendre.py
index 13f8c33..59cf63c 100644
--- a/torch_harmonics/legendre.py
+++ b/torch_harmonics/legendre.py
@@ -34,8 +34,6 @@ from typing import Optional
 
 import torch
 
-from torch_harmonics.cache import lru_cache
-
 
 def clm(l: int, m: int) -> float:
     """Defines the normalization factor to orthonormalize the Spherical Harmonics."""
@@ -116,7 +114,6 @@ def legpoly(mmax: int, lmax: int, x: torch.Tensor, norm: Optional[str] = "ortho"
     return vdm
 
 
-@lru_cache(typed=True, copy=True)
 @torch.no_grad()
 def _precompute_legpoly(mmax: int, lmax: int, t: torch.Tensor, norm: Optional[str] = "ortho", inverse: Optional[bool] = False, csphase: Optional[bool] = True) -> torch.Tensor:
     r"""
@@ -146,7 +143,6 @@ def _precompute_legpoly(mmax: int, lmax: int, t: torch.Tensor, norm: Optional[st
     return legpoly(mmax, lmax, torch.cos(t), norm=norm, inverse=inverse, csphase=csphase)
 
 
-@lru_cache(typed=True, copy=True)
 @torch.no_grad()
 def _precompute_dlegpoly(mmax: int, lmax: int, t: torch.Tensor, norm: Optional[str] = "ortho", inverse: Optional[bool] = False, csphase: Optional[bool] = True) -> torch.Tensor:
     r"""
-- 
2.43.0


From ced44715c12b96bc1bff5b6d4d93d630b95dd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 11/20] fix: collectives accept lazily conjugated complex
 tensors

---
 torch_harmonics/distributed/primitives.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index cb94063..68fe369 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -248,7 +248,8 @@ def _transpose(tensor, dim0, dim1, dim1_split_sizes, group=None, async_op=False,
 
     # split and local transposition
     tsplit = split_tensor_along_dim(tensor, num_chunks=comm_size, dim=dim0)
-    x_send = [y.contiguous() for y in tsplit]
+    # resolve_conj: a lazily conjugated tensor cannot be handed to the communication backend
+    x_send = [y.contiguous().resolve_conj() for y in tsplit]
     x_send_shapes = [x.shape for x in x_send]
     x_recv = []
     x_shape = list(x_send_shapes[comm_rank])
@@ -413,7 +414,7 @@ def _gather(input_, dim_, shapes_, group=None, verify_shapes=None):
         _check_shapes("_gather: error, shapes_", sizes_gather, shapes_)
 
     # make contiguous:
-    input_ = input_.contiguous()
+    input_ = input_.contiguous().resolve_conj()
     input_shape = list(input_.shape)
 
     if shapes_ is None:
@@ -474,7 +475,7 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
         input_list = split_tensor_along_dim(input_, dim_, comm_size)
         if work_dtype != dtype:
             input_list = [x.to(work_dtype) for x in input_list]
-        input_list = [x.contiguous() for x in input_list]
+        input_list = [x.contiguous().resolve_conj() for x in input_list]
         output = torch.empty_like(input_list[comm_rank])
         dist.reduce_scatter(output, input_list, group=group)
         return output.to(dtype) if work_dtype != dtype else output
@@ -493,7 +494,7 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
             c = torch.cat([c, pad], dim=dim_)
         if work_dtype != dtype:
             c = c.to(work_dtype)
-        padded_chunks.append(c.contiguous())
+        padded_chunks.append(c.contiguous().resolve_conj())
 
     output = torch.empty_like(padded_chunks[comm_rank])
     dist.reduce_scatter(output, padded_chunks, group=group)
@@ -1051,8 +1052,8 @@ class _PolarHaloExchangeFn(torch.autograd.Function):
         device, dtype = x.device, x.dtype
 
         # setup send buffers
-        send_top = x[:, :, :r_lat, :].contiguous()  # top r_lat rows → rank-1
-        send_bot = x[:, :, H - r_lat :, :].contiguous()  # bottom r_lat rows → rank+1
+        send_top = x[:, :, :r_lat, :].contiguous().resolve_conj()  # top r_lat rows → rank-1
+        send_bot = x[:, :, H - r_lat :, :].contiguous().resolve_conj()  # bottom r_lat rows → rank+1
 
         # setup recv buffers
         recv_top = torch.zeros(B, C, r_lat, W, device=device, dtype=dtype)
@@ -1111,8 +1112,8 @@ class _PolarHaloExchangeFn(torch.autograd.Function):
         #   dout[:, :, r_lat + H:, :]   → came FROM rank+1; send gradient back to rank+1
         # Simultaneously receive from each neighbour the gradient they owe us
         # for the rows we sent them in the forward pass.
-        send_to_prev = dout[:, :, :r_lat, :].contiguous()
-        send_to_next = dout[:, :, r_lat + H :, :].contiguous()
+        send_to_prev = dout[:, :, :r_lat, :].contiguous().resolve_conj()
+        send_to_next = dout[:, :, r_lat + H :, :].contiguous().resolve_conj()
 
         recv_from_prev = torch.zeros(B, C, r_lat, W, device=device, dtype=dtype)
         recv_from_next = torch.zeros(B, C, r_lat, W, device=device, dtype=dtype)
-- 
2.43.0


From b337f53506ba89175891119913d47fa888886b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 12/20] fix: finalize() resets the state when torch.distributed
 was shut down first

---
 torch_harmonics/distributed/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/utils.py b/torch_harmonics/distributed/utils.py
index 7ae8eea..dc6c127 100644
--- a/torch_harmonics/distributed/utils.py
+++ b/torch_harmonics/distributed/utils.py
@@ -153,7 +153,11 @@ def finalize():
     global _AZIMUTH_PARALLEL_GROUP
     global _IS_INITIALIZED
     if is_initialized():
-        if dist.is_initialized() and dist.group.WORLD in (_POLAR_PARALLEL_GROUP, _AZIMUTH_PARALLEL_GROUP):
+        if not dist.is_initialized():
+            # torch.distributed was shut down before, and all groups with it
+            _POLAR_PARALLEL_GROUP = None
+            _AZIMUTH_PARALLEL_GROUP = None
+        elif dist.group.WORLD in (_POLAR_PARALLEL_GROUP, _AZIMUTH_PARALLEL_GROUP):
             # destroying the default group destroys all other groups as well
             dist.destroy_process_group()
             _POLAR_PARALLEL_GROUP = None
-- 
2.43.0


From 782ab5a3a850582ad7b8ebd365308afccbca61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 13/20] fix: NeighborhoodAttentionS2 can be copied and pickled

---
 torch_harmonics/attention/attention.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index fed66b5..0d1cd13 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -445,10 +445,10 @@ class NeighborhoodAttentionS2(nn.Module):
             self.q_norm_weights = None
             self.k_norm_weights = None
 
-        if self.optimized_kernel:
-            self.attention_handle = _neighborhood_s2_attention_optimized
-        else:
-            self.attention_handle = _neighborhood_s2_attention_torch
+    @property
+    def attention_handle(self):
+        # looked up rather than stored: a registered custom op can be neither copied nor pickled with the module
+        return _neighborhood_s2_attention_optimized if self.optimized_kernel else _neighborhood_s2_attention_torch
 
     def extra_repr(self):
         return f"in_shape={(self.nlat_in, self.nlon_in)}, out_shape={(self.nlat_out, self.nlon_out)}, in_channels={self.in_channels}, out_channels={self.out_channels}, k_channels={self.k_channels}, theta_cutoff={self.theta_cutoff}"
-- 
2.43.0


From fd1604e74e58fae448a2766b8e6a3f80f65ec71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 14/20] fix: cached precomputations are kept per default device

---
 torch_harmonics/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/cache.py b/torch_harmonics/cache.py
index 9f49afe..49f2591 100644
--- a/torch_harmonics/cache.py
+++ b/torch_harmonics/cache.py
@@ -32,6 +32,8 @@
 import functools
 from copy import deepcopy
 
+import torch
+
 
 # copying LRU cache decorator a la:
 # https://stackoverflow.com/questions/54909357/how-to-get-functools-lru-cache-to-return-new-instances
@@ -64,10 +66,13 @@ def lru_cache(maxsize=20, typed=False, copy=False):
     """
 
     def decorator(f):
-        cached_func = functools.lru_cache(maxsize=maxsize, typed=typed)(f)
+        # results are created on the default device of the call, which therefore belongs to the key
+        @functools.lru_cache(maxsize=maxsize, typed=typed)
+        def cached_func(device, /, *args, **kwargs):
+            return f(*args, **kwargs)
 
         def wrapper(*args, **kwargs):
-            res = cached_func(*args, **kwargs)
+            res = cached_func(torch.get_default_device(), *args, **kwargs)
             if copy:
                 return deepcopy(res)
             else:
-- 
2.43.0


From 7a1ff6f7ce324eb794e6c9776fd02c94057a3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:32 +0000
Subject: [PATCH 15/20] fix: extract an archive again if its extraction was
 interrupted

---
 torch_harmonics/examples/stanford_2d3ds_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/examples/stanford_2d3ds_dataset.py b/torch_harmonics/examples/stanford_2d3ds_dataset.py
index b59b71f..ddb3b37 100644
--- a/torch_harmonics/examples/stanford_2d3ds_dataset.py
+++ b/torch_harmonics/examples/stanford_2d3ds_dataset.py
@@ -212,7 +212,8 @@ class Stanford2D3DSDownloader:
 
         data_folders = []
         for file, extracted_folder_name in file_extracted_directory_pairs:
-            if not os.path.exists(os.path.join(self.local_dir, extracted_folder_name)):
+            # the tar file is removed once it is extracted completely: if it is still there, the folder may be partial
+            if not os.path.exists(os.path.join(self.local_dir, extracted_folder_name)) or os.path.exists(os.path.join(self.local_dir, file)):
                 downloaded_file = self._download_file(file)
                 data_folders.append(self._extract_tar(downloaded_file))
             else:
-- 
2.43.0


From 04c9a1b1dd84460a31b1cfd256a46f92eb18f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:32 +0000
Subject: [PATCH 16/20] fix: do not take an interrupted conversion for the
 finished data set

---
 torch_harmonics/examples/stanford_2d3ds_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/examples/stanford_2d3ds_dataset.py b/torch_harmonics/examples/stanford_2d3ds_dataset.py
index ddb3b37..c638ac1 100644
--- a/torch_harmonics/examples/stanford_2d3ds_dataset.py
+++ b/torch_harmonics/examples/stanford_2d3ds_dataset.py
@@ -356,8 +356,9 @@ class Stanford2D3DSDownloader:
         else:
             raise ValueError("No samples found")
 
-        # create the dataset file
-        with h5.File(converted_dataset_path, "w") as h5file:
+        # create the dataset file under a temporary name, so that an interrupted conversion is not mistaken for a finished one
+        temp_path = converted_dataset_path + ".part"
+        with h5.File(temp_path, "w") as h5file:
             rgb_data = h5file.create_dataset("rgb", (num_samples, rgb_channels, *img_shape), "f4")
             semantic_data = h5file.create_dataset("semantic", (num_samples, *img_shape), "i8")
             depth_data = h5file.create_dataset("depth", (num_samples, *img_shape), "f4")
@@ -489,6 +490,8 @@ class Stanford2D3DSDownloader:
             class_histogram = class_histogram / num_samples
             h5file.create_dataset("class_histogram", data=class_histogram.astype(np.float32))
 
+        os.replace(temp_path, converted_dataset_path)
+
         return converted_dataset_path
 
     def prepare_dataset(self, file_extracted_directory_pairs=DEFAULT_TAR_FILE_PAIRS, dataset_file: str = "stanford_2d3ds_dataset.h5", downsampling_factor: int = 16):
-- 
2.43.0


From 8c78807a2bb47a2ba100770608100b5159760112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:32 +0000
Subject: [PATCH 17/20] fix: restart a download whose partial file is already
 complete

---
 torch_harmonics/examples/stanford_2d3ds_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/examples/stanford_2d3ds_dataset.py b/torch_harmonics/examples/stanford_2d3ds_dataset.py
index c638ac1..5eebe98 100644
--- a/torch_harmonics/examples/stanford_2d3ds_dataset.py
+++ b/torch_harmonics/examples/stanford_2d3ds_dataset.py
@@ -146,6 +146,9 @@ class Stanford2D3DSDownloader:
             headers = {"Range": f"bytes={os.stat(temp_path).st_size}-"}
 
         response = requests.get(url, headers=headers, stream=True, timeout=30)
+        if headers and response.status_code == 416:
+            # there is nothing left to resume, so we start from scratch
+            response = requests.get(url, stream=True, timeout=30)
         response.raise_for_status()
 
         # only append if the server honored our range request, otherwise we start from scratch
-- 
2.43.0


From 84a3b7fbcef3d2ec51f0a02b5aab8306042be661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 18/20] Revert the changes to torch_harmonics/examples: these
 defects are recorded as findings instead

---
 torch_harmonics/examples/stanford_2d3ds_dataset.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/torch_harmonics/examples/stanford_2d3ds_dataset.py b/torch_harmonics/examples/stanford_2d3ds_dataset.py
index 5eebe98..b59b71f 100644
--- a/torch_harmonics/examples/stanford_2d3ds_dataset.py
+++ b/torch_harmonics/examples/stanford_2d3ds_dataset.py
@@ -146,9 +146,6 @@ class Stanford2D3DSDownloader:
             headers = {"Range": f"bytes={os.stat(temp_path).st_size}-"}
 
         response = requests.get(url, headers=headers, stream=True, timeout=30)
-        if headers and response.status_code == 416:
-            # there is nothing left to resume, so we start from scratch
-            response = requests.get(url, stream=True, timeout=30)
         response.raise_for_status()
 
         # only append if the server honored our range request, otherwise we start from scratch
@@ -215,8 +212,7 @@ class Stanford2D3DSDownloader:
 
         data_folders = []
         for file, extracted_folder_name in file_extracted_directory_pairs:
-            # the tar file is removed once it is extracted completely: if it is still there, the folder may be partial
-            if not os.path.exists(os.path.join(self.local_dir, extracted_folder_name)) or os.path.exists(os.path.join(self.local_dir, file)):
+            if not os.path.exists(os.path.join(self.local_dir, extracted_folder_name)):
                 downloaded_file = self._download_file(file)
                 data_folders.append(self._extract_tar(downloaded_file))
             else:
@@ -359,9 +355,8 @@ class Stanford2D3DSDownloader:
         else:
             raise ValueError("No samples found")
 
-        # create the dataset file under a temporary name, so that an interrupted conversion is not mistaken for a finished one
-        temp_path = converted_dataset_path + ".part"
-        with h5.File(temp_path, "w") as h5file:
+        # create the dataset file
+        with h5.File(converted_dataset_path, "w") as h5file:
             rgb_data = h5file.create_dataset("rgb", (num_samples, rgb_channels, *img_shape), "f4")
             semantic_data = h5file.create_dataset("semantic", (num_samples, *img_shape), "i8")
             depth_data = h5file.create_dataset("depth", (num_samples, *img_shape), "f4")
@@ -493,8 +488,6 @@ class Stanford2D3DSDownloader:
             class_histogram = class_histogram / num_samples
             h5file.create_dataset("class_histogram", data=class_histogram.astype(np.float32))
 
-        os.replace(temp_path, converted_dataset_path)
-
         return converted_dataset_path
 
     def prepare_dataset(self, file_extracted_directory_pairs=DEFAULT_TAR_FILE_PAIRS, dataset_file: str = "stanford_2d3ds_dataset.h5", downsampling_factor: int = 16):
-- 
2.43.0


From d229e4fff4670df2fecff48691e4878beaa7fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 19/20] fix: distributed quadrature supports the documented
 equiangular-trapezoidal grid like the serial one

---
 torch_harmonics/distributed/distributed_quadrature.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 497798c..74bc601 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -33,7 +33,7 @@ from typing import Optional, Tuple
 
 import torch
 
-from torch_harmonics.quadrature import clenshaw_curtiss_weights, legendre_gauss_weights, lobatto_weights
+from torch_harmonics.quadrature import clenshaw_curtiss_weights, legendre_gauss_weights, lobatto_weights, trapezoidal_weights
 
 from .primitives import compute_split_shapes, reduce_from_azimuth_region, reduce_from_polar_region, split_tensor_along_dim
 from .utils import azimuth_group_rank, azimuth_group_size, polar_group_rank, polar_group_size
@@ -102,6 +102,11 @@ class DistributedQuadratureS2(torch.nn.Module):
             dlambda = 2 * torch.pi / img_shape[1]
             quad_weight = dlambda * weights.unsqueeze(1)
             quad_weight = quad_weight.tile(1, img_shape[1])
+        elif self.grid == "equiangular-trapezoidal":
+            _, weights = trapezoidal_weights(img_shape[0], -1, 1)
+            dlambda = 2 * torch.pi / img_shape[1]
+            quad_weight = dlambda * weights.unsqueeze(1)
+            quad_weight = quad_weight.tile(1, img_shape[1])
         else:
             raise (ValueError("Unknown quadrature mode"))
 
-- 
2.43.0


From 841498177f65dacf7f4e931bc86554071c8da6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 20/20] fix: distributed spectral convolution scales only the
 weights of degree zero at initialisation, like the serial one

---
 .../distributed/distributed_spectral_convolution.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 879276b..feb5a3b 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -180,7 +180,9 @@ class DistributedSpectralConvS2(nn.Module):
         # Compute scaling factor for correct initialization
         scale = math.sqrt(1.0 / (in_channels // num_groups)) * torch.ones(self.lmax_local, dtype=torch.complex64)
         # seemingly the first weight is not really complex, so we need to account for that
-        scale[0] *= math.sqrt(2.0)
+        # (degree zero lives on the first polar rank)
+        if self.comm_rank_polar == 0:
+            scale[0] *= math.sqrt(2.0)
         self.weight = nn.Parameter(scale * torch.randn(*weight_shape, dtype=torch.complex64))
 
         if bias:
-- 
2.43.0

