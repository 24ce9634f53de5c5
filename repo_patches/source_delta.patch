From 011a4f00379bfcc9b0d9b2600eff394b480cea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 01/29] fix: so2.nearest_neighbour_distance counted an element
 as its own neighbour

The distance was always ~0, so the default RBF width of every SE(2)/E(2)
group kernel was ~0 and the layers returned zeros or NaN.
---
 gconv/geometry/groups/so2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..b1dd259 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,9 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    dists = geodesic_distance(grid[:, None], grid)
+
+    # an element is not its own neighbour
+    dists.fill_diagonal_(torch.inf)
+
+    return dists.min(-1)[0]
-- 
2.43.0


From 044303c39575ca311f9991bbd253f5a3bd02fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 02/29] fix: E(3) kernels measured grid density on raw O(3)
 vectors

The 10-dimensional O(3) elements were treated as quaternions, so the
default RBF widths did not reflect the density of the grid.
---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..bba4ac0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From fed4b2241a9ef898911327af3ae3a06b43b6c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 03/29] fix: normalize sampled kernels by the absolute
 determinant

The change of variables takes |det h|. Dividing by the signed determinant
flipped the sign of the features on reflections, so E(n) features were not
equivariant under reflections once a nonlinearity or pooling followed.
---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..5b6b0f8 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -190,7 +190,7 @@ class GLiftingKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
 
@@ -300,7 +300,7 @@ class GSeparableKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight_H, weight
 
@@ -479,6 +479,6 @@ class GKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
-- 
2.43.0


From e18f5cbdfccecdea759c44f3c49753f42862d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 04/29] fix: O(2) reflections acted as rotations by pi

-R(theta) is a rotation in the plane, so E(2) layers never saw a mirror
image. An element (c, theta) now is R(theta) diag(1, c), and product,
inverse and action follow from that.
---
 gconv/geometry/groups/o2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e10a908..cc43261 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -70,7 +70,7 @@ def inverse(R: Tensor) -> Tensor:
         Tensor of shape (..., 2) of inverse O2.
     """
     R = R.clone()
-    R[..., 1] *= -1
+    R[..., 1] *= -R[..., 0]
     return R
 
 
@@ -100,7 +100,7 @@ def left_apply_angle(R1: Tensor, R2: Tensor) -> Tensor:
         Tensor containing left group action.
     """
     coeffs = R1[..., 0] * R2[..., 0]
-    angles = (R1[..., 1] + R2[..., 1]) % (2 * math.pi)
+    angles = (R1[..., 1] + R1[..., 0] * R2[..., 1]) % (2 * math.pi)
 
     return torch.stack((coeffs, angles), dim=-1)
 
@@ -118,7 +118,7 @@ def left_apply_to_angle(R1: Tensor, R2: Tensor) -> Tensor:
         Tensor of shape (N, M, 2)
     """
     coeffs = R1[:, None, 0] * R2[:, 0]
-    angles = (R1[:, None, 1] + R2[:, 1]) % (2 * math.pi)
+    angles = (R1[:, None, 1] + R1[:, None, 0] * R2[:, 1]) % (2 * math.pi)
 
     return torch.stack((coeffs, angles), dim=-1)
 
@@ -137,9 +137,11 @@ def left_apply_to_R2(R: Tensor, grid: Tensor) -> Tensor:
     """
     coeffs, angles = R[:, 0], R[:, 1]
 
-    return coeffs.view(-1, 1, 1, 1) * so2.left_apply_angle_to_R2(
-        angles.view(-1, 1), grid
-    )
+    # (coeff, angle) is the matrix R(angle) @ diag(1, coeff)
+    matrices = so2.angle_to_matrix(angles.view(-1, 1))
+    matrices[..., 1] *= coeffs.view(-1, 1)
+
+    return so2.left_apply_matrix_to_R2(matrices, grid)
 
 
 def grid_sample(
-- 
2.43.0


From 461ffe93fa2201ae998da422a876001fe7855f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/29] fix: separable and subgroup kernels mixed up input and
 output elements

The sampled weights are ordered output element first, so layers whose
input and output grids differ in size had their weights scrambled.
---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 5b6b0f8..e248a81 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From d96e05eca18d8c2927ff76e0ce3cb65c9165175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/29] fix: the grid cache handed out its own tensors

Editing a returned grid in place, or loading a state dict into any layer
that uses a default grid, changed the cache and every other layer built
from it.
---
 gconv/geometry/groups/_grid_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..432f1c1 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,11 +19,11 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid.detach().clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-    return _grid_cache[grid_type.lower()][parameterization.lower()][size]
+    return _grid_cache[grid_type.lower()][parameterization.lower()][size].clone()
 
 
 _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
-- 
2.43.0


From d66145c578c48363bc17ee18234ef893a6755031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/29] fix: kernels aliased the grid_H given by the caller

Loading a state dict into one layer changed the grid tensor of the caller
and of every layer built from it.
---
 gconv/gnn/kernels/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index e248a81..3cf2b73 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -99,7 +99,7 @@ class GroupKernel(nn.Module):
 
         self.groups = groups
 
-        self.register_buffer("grid_H", grid_H)
+        self.register_buffer("grid_H", grid_H.clone() if grid_H is not None else None)
         self.register_buffer("grid_Rn", grid_Rn)
 
         self.register_buffer("mask", mask)
-- 
2.43.0


From 70d6d90f5b692a966c58db331d011acbb7e7d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 08/29] fix: cache_grid stored Euler angles whatever the
 parameterization

A later request for the same size got Euler angles in place of quaternions
or matrices, and caching a grid of Euler angles raised KeyError.
---
 gconv/geometry/groups/_grid_cache.py | 3 ++-
 gconv/geometry/groups/so3.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 432f1c1..c67dbb3 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,7 +19,8 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid.detach().clone()
+    grids = _grid_cache[grid_type.lower()].setdefault(parameterization.lower(), {})
+    grids[grid.shape[0]] = grid.detach().clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..a570362 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -604,10 +604,12 @@ def uniform_grid(
         in_place=True,
     )
 
+    grid = param_fn(grid)
+
     if cache_grid:
         _grid_cache.save_grid(grid, "so3", parameterization)
 
-    return param_fn(grid)
+    return grid
 
 
 def quaternion_log(q: Tensor) -> Tensor:
-- 
2.43.0


From f96cfd9f1c5557f9e4e9342716277da755cf3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 09/29] fix: spatial pooling layers dropped the spatial
 dimensions

Any pooling with a spatial output larger than one element raised.
---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From b560ae912fc18033235448e1d1dd9779d848d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 10/29] fix: max pooling over the group returned indices along
 with the features

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..36d8a34 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2)[0]
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True)[0]
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From a19b913db430fa1f41c083ff726658c512090a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 11/29] fix: GWrap never initialized nn.Module

---
 gconv/gnn/modules/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..d62ff01 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,8 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
+
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From 0d62efc2f50673b82e69e9e84d563377117a0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 12/29] fix: separable convolutions applied stride and padding
 twice

The pointwise subgroup convolution used them as well, so the output size
differed from that of the full convolution with the same arguments.
---
 gconv/gnn/modules/gconv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..02b93fb 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -297,15 +297,17 @@ class GSeparableConvNd(GroupConvNd):
 
         weight_H, weight = self.kernel(in_H, out_H)
 
-        # subgroup conv
-        input = self._conv_forward(
+        # subgroup conv, pointwise in Rn: stride and padding belong to the
+        # spatial conv only
+        conv = F.conv2d if len(self.kernel_size) == 2 else F.conv3d
+        input = conv(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From d9313a61244a8ce26edc4ecad5fc2e0daadc784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 13/29] fix: SE(3) and E(3) layers could not draw a random pose
 in double precision

---
 gconv/gnn/modules/gconv_en/gconv_e3.py   | 12 +++++++++---
 gconv/gnn/modules/gconv_sen/gconv_se3.py |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 5f708fa..31a105d 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -89,7 +89,9 @@ class GLiftingConvE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o3.left_apply_O3(o3.random_grid(1, device=input.device), H)
+            H = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H), H
+            )
 
         return super().forward(input, H)
 
@@ -187,7 +189,9 @@ class GSeparableConvE3(GSeparableConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H_out), H_out
+            )
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +289,8 @@ class GConvE3(GConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H_out), H_out
+            )
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index b104c7c..dd96722 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -84,7 +84,9 @@ class GLiftingConvSE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device), H)
+            H = so3.left_apply_matrix(
+                so3.random_matrix(1, device=input.device).to(H), H
+            )
 
         return super().forward(input, H)
 
@@ -178,7 +180,7 @@ class GSeparableConvSE3(GSeparableConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H), out_H
             )
 
         return super().forward(input, in_H, out_H)
@@ -273,7 +275,7 @@ class GConvSE3(GConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H), out_H
             )
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From e8caf8c7f420d29b6a81b7336cbdeff291d9b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 14/29] fix: loading a state dict left the RBF widths of
 another grid in place

The default width follows the density of grid_H, but was computed once from
the grid generated on construction. That grid is random for sizes without a
precomputed one, so a layer restored from a checkpoint computed another
function than the layer that was saved.
---
 gconv/gnn/kernels/kernel.py                | 14 ++++++
 gconv/gnn/kernels/kernel_en/kernel_e2.py   | 52 ++++++++++++----------
 gconv/gnn/kernels/kernel_en/kernel_e3.py   | 52 ++++++++++++----------
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 10 ++++-
 gconv/gnn/kernels/kernel_sen/kernel_se3.py | 10 ++++-
 gconv/gnn/kernels/kernel_sen/kernel_so3.py |  7 ++-
 6 files changed, 92 insertions(+), 53 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 3cf2b73..e6c43bf 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -38,6 +38,10 @@ class GroupKernel(nn.Module):
         "sample_Rn_kwargs",
     ]
 
+    # keyword arguments of sample_H that depend on grid_H, as callables that
+    # are given grid_H
+    grid_H_kwargs: dict[str, Callable] = {}
+
     def reset_parameters(self) -> None:
         ...
 
@@ -113,6 +117,16 @@ class GroupKernel(nn.Module):
         self.sample_H_kwargs = sample_H_kwargs
         self.sample_Rn_kwargs = sample_Rn_kwargs
 
+    def _load_from_state_dict(self, *args, **kwargs) -> None:
+        super()._load_from_state_dict(*args, **kwargs)
+
+        # the loaded grid_H may differ from the one generated on construction
+        if self.grid_H_kwargs:
+            self.sample_H_kwargs = {
+                **self.sample_H_kwargs,
+                **{k: f(self.grid_H) for k, f in self.grid_H_kwargs.items()},
+            }
+
     def extra_repr(self):
         s = f"mask={self.mask is not None}"
         if self.sample_H_kwargs:
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..4616d9b 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from functools import partial
 from typing import Optional
 
 from gconv.gnn.kernels import GLiftingKernel, GSeparableKernel, GKernel
@@ -10,6 +11,13 @@ from gconv.geometry import o2, so2
 from gconv.gnn import functional as gF
 
 
+def _sampling_width(
+    grid_H: Tensor, start: int | None = None, end: int | None = None
+) -> Tensor:
+    grid = grid_H[start:end, 1:]
+    return 0.8 * so2.nearest_neighbour_distance(grid).mean()
+
+
 class GLiftingKernelE2(GLiftingKernel):
     def __init__(
         self,
@@ -123,21 +131,19 @@ class GSeparableKernelE2(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
+        grid_H_kwargs = {}
+
         if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:]
-                ).mean()
-            )
+            rotation_width = partial(_sampling_width, end=group_kernel_size[0])
+            group_rotation_sampling_width = rotation_width(grid_H)
+            grid_H_kwargs["rotation_width"] = rotation_width
 
         if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:]
-                ).mean()
-            )
+            reflection_width = partial(_sampling_width, start=group_kernel_size[0])
+            group_reflection_sampling_width = reflection_width(grid_H)
+            grid_H_kwargs["reflection_width"] = reflection_width
+
+        self.grid_H_kwargs = grid_H_kwargs
 
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
@@ -221,21 +227,19 @@ class GKernelE2(GKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
+        grid_H_kwargs = {}
+
         if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:]
-                ).mean()
-            )
+            rotation_width = partial(_sampling_width, end=group_kernel_size[0])
+            group_rotation_sampling_width = rotation_width(grid_H)
+            grid_H_kwargs["rotation_width"] = rotation_width
 
         if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:]
-                ).mean()
-            )
+            reflection_width = partial(_sampling_width, start=group_kernel_size[0])
+            group_reflection_sampling_width = reflection_width(grid_H)
+            grid_H_kwargs["reflection_width"] = reflection_width
+
+        self.grid_H_kwargs = grid_H_kwargs
 
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index bba4ac0..9107f91 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from functools import partial
 from typing import Optional
 
 from gconv.gnn.kernels import GLiftingKernel, GSeparableKernel, GKernel
@@ -10,6 +11,13 @@ from gconv.geometry import o3, so3
 from gconv.gnn import functional as gF
 
 
+def _sampling_width(
+    grid_H: Tensor, start: int | None = None, end: int | None = None
+) -> Tensor:
+    grid = grid_H[start:end, 1:].unflatten(-1, (3, 3))
+    return 0.8 * so3.nearest_neighbour_distance(grid).mean()
+
+
 class GLiftingKernelE3(GLiftingKernel):
     def __init__(
         self,
@@ -123,21 +131,19 @@ class GSeparableKernelE3(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
+        grid_H_kwargs = {}
+
         if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
+            rotation_width = partial(_sampling_width, end=group_kernel_size[0])
+            group_rotation_sampling_width = rotation_width(grid_H)
+            grid_H_kwargs["rotation_width"] = rotation_width
 
         if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
+            reflection_width = partial(_sampling_width, start=group_kernel_size[0])
+            group_reflection_sampling_width = reflection_width(grid_H)
+            grid_H_kwargs["reflection_width"] = reflection_width
+
+        self.grid_H_kwargs = grid_H_kwargs
 
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
@@ -221,21 +227,19 @@ class GKernelE3(GKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
+        grid_H_kwargs = {}
+
         if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
+            rotation_width = partial(_sampling_width, end=group_kernel_size[0])
+            group_rotation_sampling_width = rotation_width(grid_H)
+            grid_H_kwargs["rotation_width"] = rotation_width
 
         if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
+            reflection_width = partial(_sampling_width, start=group_kernel_size[0])
+            group_reflection_sampling_width = reflection_width(grid_H)
+            grid_H_kwargs["reflection_width"] = reflection_width
+
+        self.grid_H_kwargs = grid_H_kwargs
 
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..6706fab 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -6,6 +6,10 @@ import gconv.gnn.functional as gF
 from torch import Tensor
 
 
+def _sampling_width(grid_H: Tensor) -> Tensor:
+    return 0.8 * so2.nearest_neighbour_distance(grid_H).mean()
+
+
 class GLiftingKernelSE2(GLiftingKernel):
     def __init__(
         self,
@@ -109,7 +113,8 @@ class GSeparableKernelSE2(GSeparableKernel):
         grid_Rn = gF.create_grid_R2(kernel_size)
 
         if not group_sampling_width:
-            group_sampling_width = 0.8 * so2.nearest_neighbour_distance(grid_H).mean()
+            group_sampling_width = _sampling_width(grid_H)
+            self.grid_H_kwargs = {"width": _sampling_width}
 
         sample_H_kwargs = {"mode": group_sampling_mode, "width": group_sampling_width}
         sample_Rn_kwargs = {
@@ -182,7 +187,8 @@ class GKernelSE2(GKernel):
         grid_Rn = gF.create_grid_R2(kernel_size)
 
         if not group_sampling_width:
-            group_sampling_width = 0.8 * so2.nearest_neighbour_distance(grid_H).mean()
+            group_sampling_width = _sampling_width(grid_H)
+            self.grid_H_kwargs = {"width": _sampling_width}
 
         sample_H_kwargs = {"mode": group_sampling_mode, "width": group_sampling_width}
         sample_Rn_kwargs = {
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se3.py b/gconv/gnn/kernels/kernel_sen/kernel_se3.py
index cb2ac70..b6cee8a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se3.py
@@ -16,6 +16,10 @@ from gconv.geometry import so3
 from gconv.gnn import functional as gF
 
 
+def _sampling_width(grid_H: Tensor) -> Tensor:
+    return 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
+
+
 class GLiftingKernelSE3(GLiftingKernel):
     def __init__(
         self,
@@ -119,7 +123,8 @@ class GSeparableKernelSE3(GSeparableKernel):
         grid_Rn = gF.create_grid_R3(kernel_size)
 
         if not group_sampling_width:
-            group_sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
+            group_sampling_width = _sampling_width(grid_H)
+            self.grid_H_kwargs = {"width": _sampling_width}
 
         sample_H_kwargs = {
             "mode": group_sampling_mode,
@@ -195,7 +200,8 @@ class GKernelSE3(GKernel):
         grid_Rn = gF.create_grid_R3(kernel_size)
 
         if not group_sampling_width:
-            group_sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
+            group_sampling_width = _sampling_width(grid_H)
+            self.grid_H_kwargs = {"width": _sampling_width}
 
         sample_H_kwargs = {
             "mode": group_sampling_mode,
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_so3.py b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
index 8c80498..bc3b2e7 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_so3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
@@ -14,6 +14,10 @@ from torch import Tensor
 from gconv.geometry import so3
 
 
+def _sampling_width(grid_H: Tensor) -> Tensor:
+    return 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
+
+
 class GSubgroupKernelSO3(GSubgroupKernel):
     def __init__(
         self,
@@ -46,7 +50,8 @@ class GSubgroupKernelSO3(GSubgroupKernel):
             grid_H = so3.uniform_grid(size=group_kernel_size)
 
         if not sampling_width:
-            sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
+            sampling_width = _sampling_width(grid_H)
+            self.grid_H_kwargs = {"width": _sampling_width}
 
         sample_H_kwargs = {"mode": sampling_mode, "width": sampling_width}
 
-- 
2.43.0


From 5e9c6fc0a53251dd4346f203311473c403fd1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 15/29] fix: the cached one-element matrix grid was a bare
 matrix

---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index c67dbb3..34e1fe1 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -424,7 +424,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
-- 
2.43.0


From e613f70c0d5fa5bd8b533732f4d075700ad6bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 16/29] fix: the grid of a size 1 kernel was at a corner
 instead of the center

---
 gconv/gnn/functional/grid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..0864339 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -5,6 +5,13 @@ from torch import Tensor
 from torch.nn.functional import grid_sample
 
 
+def _axis(size: int, device: str | None = None) -> Tensor:
+    # the only voxel of a size 1 grid lies in its center
+    if size == 1:
+        return torch.zeros(1, device=device)
+    return torch.linspace(-1, 1, size, device=device)
+
+
 def create_grid_R3(size: int, device: str | None = None) -> Tensor:
     """
     Creates normalized coordinate grid of size
@@ -17,7 +24,7 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
     Returns:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
-    x = torch.linspace(-1, 1, size, device=device)
+    x = _axis(size, device)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -35,7 +42,7 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
     Returns:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
-    x = torch.linspace(-1, 1, size, device=device)
+    x = _axis(size, device)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From ff986cf77186f7c827faa993d1a5bf7e3c8d8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 17/29] fix: the spherical mask removed every weight of size 2
 kernels

---
 gconv/gnn/functional/mask.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/functional/mask.py b/gconv/gnn/functional/mask.py
index ca3515f..6bf976a 100644
--- a/gconv/gnn/functional/mask.py
+++ b/gconv/gnn/functional/mask.py
@@ -15,9 +15,10 @@ def create_spherical_mask_R3(size: int, device: str = None) -> Tensor:
     Returns:
         - Tensor of shape (size, size, size).
     """
-    grid = create_grid_R3(size).to(device)
+    dist = torch.linalg.norm(create_grid_R3(size).to(device), dim=-1)
 
-    return (torch.linalg.norm(grid, dim=-1) < 1.1).float()
+    # the innermost voxels belong to the sphere, also if all are corners (size 2)
+    return (dist <= dist.min().clamp(min=1.1)).float()
 
 
 def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
@@ -31,6 +32,7 @@ def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
     Returns:
         - Tensor of shape (size, size).
     """
-    grid = create_grid_R2(size).to(device)
+    dist = torch.linalg.norm(create_grid_R2(size).to(device), dim=-1)
 
-    return (torch.linalg.norm(grid, dim=-1) < 1.1).float()
+    # the innermost voxels belong to the sphere, also if all are corners (size 2)
+    return (dist <= dist.min().clamp(min=1.1)).float()
-- 
2.43.0


From 1a63ccddc2e131ec85e2212ab1a4845ca8ad0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 18/29] fix: concurrent requests to cache a grid returned
 different grids

---
 gconv/geometry/groups/_grid_cache.py | 14 ++++++--------
 gconv/geometry/groups/so3.py         |  2 ++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 34e1fe1..405a5e2 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -12,15 +12,13 @@ def save_grid(
         - type: Grid type, e.g., SO3.
         - parameterization: Parameterization, e.g., "quat".
     """
-    if not overwrite:
-        try:
-            load_grid(grid.shape[0], grid_type, parameterization)
-        except KeyError:
-            pass
-        else:
-            return
     grids = _grid_cache[grid_type.lower()].setdefault(parameterization.lower(), {})
-    grids[grid.shape[0]] = grid.detach().clone()
+    size, grid = grid.shape[0], grid.detach().clone()
+
+    if overwrite:
+        grids[size] = grid
+    else:
+        grids.setdefault(size, grid)
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index a570362..18e81fd 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -607,7 +607,9 @@ def uniform_grid(
     grid = param_fn(grid)
 
     if cache_grid:
+        # another caller may have saved a grid of this size in the meantime
         _grid_cache.save_grid(grid, "so3", parameterization)
+        grid = _grid_cache.load_grid(size, "so3", parameterization)
 
     return grid
 
-- 
2.43.0


From 1e1f0a80883e0f7aec3449011025c79777a75c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 19/29] fix: o3.random_grid raised for the tuple sizes it
 documents

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..b341099 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(*R.shape[:-1], 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From 9d864a2cd78d14832b9211dc7cb48c7f785c19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 20/29] fix: rotation conversions only handled one leading
 dimension

matrix_to_quat and matrix_to_euler document shapes (..., 3, 3), and
random_euler takes tuple shapes, but anything except one leading dimension
gave wrong, partly uninitialized, results.
---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 18e81fd..169ef52 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -263,7 +263,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
@@ -316,13 +316,13 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
+    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
@@ -343,7 +343,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
     g[adjust_and_safe, 0] -= pi
     g[adjust_and_safe, 1] *= -1
-- 
2.43.0


From 9baf137121b489559d307e5d70103eaad1201081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 21/29] fix: uniform_grid_s2 raised with set_alpha_as_neg_gamma

The first angle was a vector instead of a column, and not negated.
---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..b0b7f59 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From ec95eb60073909072683873e767020a07b2b5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 22/29] fix: default output poses aliased the layer's reference
 grid

With permute_output_grid off, the returned poses were the kernel's own
buffer: loading a state dict changed poses returned earlier, and editing the
poses changed the layer.
---
 gconv/gnn/modules/gconv_en/gconv_e2.py   | 6 +++---
 gconv/gnn/modules/gconv_en/gconv_e3.py   | 6 +++---
 gconv/gnn/modules/gconv_sen/gconv_se2.py | 2 +-
 gconv/gnn/modules/gconv_sen/gconv_se3.py | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e2.py b/gconv/gnn/modules/gconv_en/gconv_e2.py
index 987e976..0c1a97e 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e2.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e2.py
@@ -86,7 +86,7 @@ class GLiftingConvE2(GLiftingConv2d):
         self, input: Tensor, H: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H is None:
-            H = self.kernel.grid_H
+            H = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H = o2.left_apply_angle(o2.random_grid(1, device=input.device), H)
@@ -184,7 +184,7 @@ class GSeparableConvE2(GSeparableConv2d):
         self, input: Tensor, H_in: Tensor, H_out: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H_out is None:
-            H_out = self.kernel.grid_H
+            H_out = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H_out = o2.left_apply_angle(o2.random_grid(1, device=input.device), H_out)
@@ -282,7 +282,7 @@ class GConvE2(GConv2d):
         self, input: Tensor, H_in: Tensor, H_out: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H_out is None:
-            H_out = self.kernel.grid_H
+            H_out = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H_out = o2.left_apply_angle(o2.random_grid(1, device=input.device), H_out)
diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 31a105d..4c4a8cd 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -86,7 +86,7 @@ class GLiftingConvE3(GLiftingConv3d):
         self, input: Tensor, H: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H is None:
-            H = self.kernel.grid_H
+            H = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H = o3.left_apply_O3(
@@ -186,7 +186,7 @@ class GSeparableConvE3(GSeparableConv3d):
         self, input: Tensor, H_in: Tensor, H_out: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H_out is None:
-            H_out = self.kernel.grid_H
+            H_out = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H_out = o3.left_apply_O3(
@@ -286,7 +286,7 @@ class GConvE3(GConv3d):
         self, input: Tensor, H_in: Tensor, H_out: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H_out is None:
-            H_out = self.kernel.grid_H
+            H_out = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H_out = o3.left_apply_O3(
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se2.py b/gconv/gnn/modules/gconv_sen/gconv_se2.py
index e7f62de..ed2ba0b 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se2.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se2.py
@@ -81,7 +81,7 @@ class GLiftingConvSE2(GLiftingConv2d):
         self, input: Tensor, H: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H is None:
-            H = self.kernel.grid_H
+            H = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H = so2.left_apply_angle(so2.random_grid(1, device=input.device), H)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index dd96722..b9ec0df 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -81,7 +81,7 @@ class GLiftingConvSE3(GLiftingConv3d):
         self, input: Tensor, H: Optional[Tensor] = None
     ) -> tuple[Tensor, Tensor]:
         if H is None:
-            H = self.kernel.grid_H
+            H = self.kernel.grid_H.clone()
 
         if self.permute_output_grid:
             H = so3.left_apply_matrix(
-- 
2.43.0


From cdd577c68426449a75bda8d98b2ae1106b2d0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 23/29] fix: normalization layers raised for features not
 contiguous in memory

---
 gconv/gnn/modules/normalization.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/normalization.py b/gconv/gnn/modules/normalization.py
index fb514ea..bea62bd 100644
--- a/gconv/gnn/modules/normalization.py
+++ b/gconv/gnn/modules/normalization.py
@@ -6,13 +6,17 @@ from torch import Tensor
 class GBatchNorm2d(nn.BatchNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).reshape(
+            N, C, _H, Z, *dims
+        ), H
 
 
 class GBatchNorm3d(nn.BatchNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).reshape(
+            N, C, _H, Z, *dims
+        ), H
 
 
 class GLayerNorm(nn.LayerNorm):
@@ -23,10 +27,14 @@ class GLayerNorm(nn.LayerNorm):
 class GInstanceNorm2d(nn.InstanceNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).reshape(
+            N, C, _H, Z, *dims
+        ), H
 
 
 class GInstanceNorm3d(nn.InstanceNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).reshape(
+            N, C, _H, Z, *dims
+        ), H
-- 
2.43.0


From 8fd0d48c7cdb8764a74a9468a8a5c72247a74a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 24/29] fix: SE2 kernels ignored mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 6706fab..dbcae82 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -46,7 +46,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -122,7 +122,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -196,7 +196,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From 6faeebb995d9053e589075c2b4aa45eb52d28b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 25/29] fix: left_apply_quat always raised

---
 gconv/geometry/groups/so3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 169ef52..9f3b228 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -184,9 +184,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     Returns:
         - Tensor of shape `(..., 4)`.
     """
-    q = q1.new_empty(q1.shape)
+    cross = torch.cross(q1[..., 1:], q2[..., 1:], dim=-1)
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    q = q1.new_empty((*cross.shape[:-1], 4))
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +194,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From b0cf384b1b4140fad06a161ab851e6c8169de35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 26/29] fix: matrix_to_euler took rounding for an angle

---
 gconv/geometry/groups/so3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 9f3b228..6c39473 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -316,9 +316,11 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
-
-    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
+    # acos would take rounding errors of its argument for an angle
+    g[..., 1] = torch.atan2(
+        torch.hypot(matrix_trans[..., 0, 2], matrix_trans[..., 1, 2]),
+        matrix_trans[..., 2, 2],
+    )
 
     # step 5, 6
     safe1 = torch.abs(g[..., 1]) >= eps
-- 
2.43.0


From 88445eed0990525f446c3837f306a5efc15c6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 27/29] fix: so3_log of small rotations lacked parentheses

---
 gconv/geometry/groups/so3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 6c39473..018f15b 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -482,9 +482,9 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
 
     mask = theta == 0.0
 
-    c1[mask] = 0.5 * R[mask, 2, 1] - R[mask, 1, 2]
-    c2[mask] = 0.5 * R[mask, 0, 2] - R[mask, 2, 0]
-    c3[mask] = 0.5 * R[mask, 1, 0] - R[mask, 0, 1]
+    c1[mask] = 0.5 * (R[mask, 2, 1] - R[mask, 1, 2])
+    c2[mask] = 0.5 * (R[mask, 0, 2] - R[mask, 2, 0])
+    c3[mask] = 0.5 * (R[mask, 1, 0] - R[mask, 0, 1])
 
     mask = theta == pi
 
-- 
2.43.0


From 353f7ef514fff999bb5d738ada8e8b25c6e77ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 28/29] fix: so3_log lost the axis of half turns

---
 gconv/geometry/groups/so3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 018f15b..a6a1d50 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -486,11 +486,15 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     c2[mask] = 0.5 * (R[mask, 0, 2] - R[mask, 2, 0])
     c3[mask] = 0.5 * (R[mask, 1, 0] - R[mask, 0, 1])
 
-    mask = theta == pi
+    # the differences vanish near half turns, there the quaternion keeps the axis
+    mask = theta > pi - 1e-2
 
-    c1[mask] = pi
-    c2[mask] = 0.0
-    c3[mask] = 0.0
+    q = matrix_to_quat(R[mask])
+    v = torch.where(q[..., :1] < 0, -q[..., 1:], q[..., 1:])
+    v_norm = torch.linalg.norm(v, dim=-1, keepdim=True)
+    v = 2 * torch.atan2(v_norm, q[..., :1].abs()) * v / v_norm
+
+    c1[mask], c2[mask], c3[mask] = v.unbind(-1)
 
     c = torch.stack((c1, c2, c3), dim=-1)
 
-- 
2.43.0


From 945356236fdd9a2ee6fcab877a45035654b76e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 29/29] fix: angle_to_matrix raised for a single angle

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index b1dd259..96b08d7 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0

