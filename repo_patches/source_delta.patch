From 2d8a47bc173228b8bb2b699e50ad60ff4a00cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 001/164] fix: keep one vertex and face count per mesh in an
 all-empty Meshes batch

Meshes given as padded tensors with no faces (or no vertices) kept an empty
count tensor, so verts_list(), clone() and others raised.
---
 pytorch3d/structures/meshes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..8615aa8 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -424,10 +424,10 @@ class Meshes:
 
         if self.isempty():
             self._num_verts_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             self._num_faces_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
 
         # Set the num verts/faces on the textures if present.
@@ -998,7 +998,7 @@ class Meshes:
                 (0,), dtype=torch.int64, device=self.device
             )
             self._num_verts_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             self._faces_packed = -(
                 torch.ones((0, 3), dtype=torch.int64, device=self.device)
@@ -1010,7 +1010,7 @@ class Meshes:
                 (0,), dtype=torch.int64, device=self.device
             )
             self._num_faces_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             return
 
-- 
2.43.0


From a76d61c637d51ba6ea954d9f59ebcc1fb8a49f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 002/164] fix: do not write through shared storage in in-place
 offset and scale

offset_verts_, scale_verts_, Pointclouds.offset_ and scale_ wrote into the
padded tensor, which can be a view of another object's tensors (after
detach, join_meshes_as_scene, update_padded or padded construction), and so
changed some of the views of that other object.
---
 pytorch3d/structures/meshes.py      | 4 ++++
 pytorch3d/structures/pointclouds.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 8615aa8..fc6f900 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1324,6 +1324,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # the padded tensor can share memory with that of another object
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1378,6 +1380,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # the padded tensor can share memory with that of another object
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..f5b447b 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -903,6 +903,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # the padded tensor can share memory with that of another object
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -992,6 +994,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # the padded tensor can share memory with that of another object
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From 7ebcf11c5cd24f1fa0a085b4d04753efad710a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 003/164] fix: keep padded normals and features of a
 list-of-points Pointclouds

Pointclouds(points=list, normals=padded) dropped the normals and features
as soon as the padded representation was computed.
---
 pytorch3d/structures/pointclouds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index f5b447b..268e61b 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -623,6 +623,9 @@ class Pointclouds:
         if not (refresh or self._points_padded is None):
             return
 
+        # The normals and features may have been given only as padded tensors.
+        normals_list = self.normals_list()
+        features_list = self.features_list()
         self._normals_padded, self._features_padded = None, None
         if self.isempty():
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
@@ -633,7 +636,6 @@ class Pointclouds:
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-            normals_list = self.normals_list()
             if normals_list is not None:
                 self._normals_padded = struct_utils.list_to_padded(
                     normals_list,
@@ -641,7 +643,6 @@ class Pointclouds:
                     pad_value=0.0,
                     equisized=self.equisized,
                 )
-            features_list = self.features_list()
             if features_list is not None:
                 self._features_padded = struct_utils.list_to_padded(
                     features_list,
-- 
2.43.0


From 5212601bc05149924632dd23429661b04055eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 004/164] fix: compute padded normals and features given as
 lists with padded points

normals_padded() and features_padded() returned None when the points were
padded, also after update_padded on a cloud built from lists.
---
 pytorch3d/structures/pointclouds.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 268e61b..8a88fff 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -620,7 +620,13 @@ class Pointclouds:
         Args:
             refresh: whether to force the recalculation.
         """
-        if not (refresh or self._points_padded is None):
+        # The normals and features may have been given only as lists.
+        refresh = refresh or self._points_padded is None
+        if not (
+            refresh
+            or (self._normals_padded is None and self._normals_list is not None)
+            or (self._features_padded is None and self._features_list is not None)
+        ):
             return
 
         # The normals and features may have been given only as padded tensors.
@@ -630,12 +636,13 @@ class Pointclouds:
         if self.isempty():
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
         else:
-            self._points_padded = struct_utils.list_to_padded(
-                self.points_list(),
-                (self._P, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
+            if refresh:
+                self._points_padded = struct_utils.list_to_padded(
+                    self.points_list(),
+                    (self._P, 3),
+                    pad_value=0.0,
+                    equisized=self.equisized,
+                )
             if normals_list is not None:
                 self._normals_padded = struct_utils.list_to_padded(
                     normals_list,
-- 
2.43.0


From 5bf2abf7870a3d498bf0de36ce717b3b14abc341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 005/164] fix: keep the number of feature channels in
 Pointclouds.update_padded

---
 pytorch3d/structures/pointclouds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 8a88fff..3ecf036 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -1180,6 +1180,7 @@ class Pointclouds:
         # copy features
         if new_features_padded is None:
             # If no features are provided, keep old ones (shallow copy)
+            new._C = self._C
             new._features_list = self._features_list
             new._features_padded = self._features_padded
             new._features_packed = self._features_packed
-- 
2.43.0


From a737b946134befe6b6566da43f0173a6da312431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 006/164] fix: keep align_corners when indexing Volumes

---
 pytorch3d/structures/volumes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..2ce815f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -297,6 +297,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From f02da82e1958409c2983a3aeaa4672bef198af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 007/164] fix: coordinate grid of differently-sized Volumes
 with align_corners=False

The local coordinates of the voxels of volumes smaller than the largest one
in the batch were scaled as if align_corners was set.
---
 pytorch3d/structures/volumes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2ce815f..6ffc2aa 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -851,10 +851,13 @@ class VolumeLocator:
         vol_coords_local = torch.stack((X, Y, Z), dim=3)[None].repeat(ba, 1, 1, 1, 1)
 
         # get grid sizes relative to the maximal volume size
+        # (the distance of neighboring voxels is 2 / (size - 1) with align_corners,
+        # and 2 / size without)
+        n_excluded = 1 if self._align_corners else 0
         grid_sizes_relative = (
             torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32)
-            - 1
-        ) / (grid_sizes - 1).float()
+            - n_excluded
+        ) / (grid_sizes - n_excluded).float()
 
         if (grid_sizes_relative != 1.0).any():
             # if any of the relative sizes != 1.0, adjust the grid
-- 
2.43.0


From 16a3fb4ff5c346ea61d5731401cbc1868946a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 008/164] fix: accept padded tensors in Volumes.update_padded
 for grids of different sizes

update_padded raised a ValueError for them, and with it
add_pointclouds_to_volumes for volumes of different sizes.
---
 pytorch3d/structures/volumes.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 6ffc2aa..96d2c5e 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -387,13 +387,27 @@ class Volumes:
             Volumes with updated features and densities
         """
         new = copy.copy(self)
-        new._set_densities(new_densities)
+        new._set_padded("densities", new_densities)
         if new_features is None:
             new._features = None
         else:
-            new._set_features(new_features)
+            new._set_padded("features", new_features)
         return new
 
+    def _set_padded(self, var_name: str, x: _TensorBatch) -> None:
+        # A padded tensor is as large as the present one, and not necessarily
+        # as the individual grids.
+        if (
+            torch.is_tensor(x)
+            and x.ndim == 5
+            and x.device == self.device
+            and x.shape[0] == len(self)
+            and x.shape[2:] == self._densities.shape[2:]
+        ):
+            setattr(self, "_" + var_name, x)
+        else:
+            self._set_densities_features(var_name, x)
+
     def _set_features(self, features: _TensorBatch) -> None:
         self._set_densities_features("features", features)
 
-- 
2.43.0


From 829235021385745e68c6b847756570fc31f4c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 009/164] fix: indexing of Translate, Scale, Rotate keeps the
 dtype, and works on RotateAxisAngle

A float64 transform came back as float32 and RotateAxisAngle raised.
---
 pytorch3d/transforms/transform3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..d2d542e 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
@@ -703,7 +703,8 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        # Not self.__class__: subclasses are not constructed from a matrix.
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From 2402ae125b68618c3b682ec3ab488e721c6842d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 010/164] fix: matrix_to_axis_angle(fast=True) for rotations by
 pi

The axis was normalized over the whole batch, and was NaN for an axis
perpendicular to x.
---
 pytorch3d/transforms/rotation_conversions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index eb1a42c..cb57e12 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -547,11 +547,14 @@ def matrix_to_axis_angle(matrix: torch.Tensor, fast: bool = False) -> torch.Tens
     )
 
     # this derives from: nnT = (R + 1) / 2
-    n = 0.5 * (
-        matrix[near_pi][..., 0, :]
-        + torch.eye(1, 3, dtype=matrix.dtype, device=matrix.device)
+    # For a rotation by pi, this is the outer product of the axis with itself.
+    # Its row with the largest diagonal element is nonzero.
+    outer = 0.5 * (
+        matrix[near_pi] + torch.eye(3, dtype=matrix.dtype, device=matrix.device)
     )
-    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n)
+    largest = torch.diagonal(outer, dim1=-2, dim2=-1).argmax(dim=-1)
+    n = outer[torch.arange(len(largest), device=matrix.device), largest]
+    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n, dim=-1, keepdim=True)
 
     return axis_angles
 
-- 
2.43.0


From 5e00157e951ed0313576e139d843ffd1da51c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 011/164] fix: use the overriding arguments throughout
 unproject_points

---
 pytorch3d/renderer/cameras.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..615e0f7 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -724,9 +724,9 @@ class FoVPerspectiveCameras(CamerasBase):
 
         # obtain the relevant transformation to ndc
         if world_coordinates:
-            to_ndc_transform = self.get_full_projection_transform()
+            to_ndc_transform = self.get_full_projection_transform(**kwargs.copy())
         else:
-            to_ndc_transform = self.get_projection_transform()
+            to_ndc_transform = self.get_projection_transform(**kwargs.copy())
 
         if scaled_depth_input:
             # the input is scaled depth, so we don't have to do anything
@@ -1174,7 +1174,7 @@ class PerspectiveCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1414,7 +1414,7 @@ class OrthographicCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
-- 
2.43.0


From 867ae98dfe94cb9674e128f5418e2d088fcc8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 012/164] fix: accept points without batch dimension in
 FoVOrthographicCameras.unproject_points

---
 pytorch3d/renderer/cameras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 615e0f7..737a095 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -976,7 +976,7 @@ class FoVOrthographicCameras(CamerasBase):
         else:
             # we have to obtain the scaled depth first
             K = self.get_projection_transform(**kwargs).get_matrix()
-            unsqueeze_shape = [1] * K.dim()
+            unsqueeze_shape = [1] * xy_depth.dim()
             unsqueeze_shape[0] = K.shape[0]
             mid_z = K[:, 3, 2].reshape(unsqueeze_shape)
             scale_z = K[:, 2, 2].reshape(unsqueeze_shape)
-- 
2.43.0


From 3eb9c5284040b40de2cbca52a7c06801292a37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 013/164] fix: unproject the principal point of fisheye cameras

---
 pytorch3d/renderer/fisheyecameras.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 551e94d..66062b5 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -348,7 +348,10 @@ class FishEyeCameras(CamerasBase):
         theta = self._get_theta_from_norm_xr_yr(radial_params, xr_yrNorm)
         # get the point coordinates:
         point3d_est = theta.new_ones(*sh, 3)
-        point3d_est[..., :2] = theta.tan()[..., None] / xr_yrNorm[..., None] * xr_yr
+        # compute tan(theta)/norm, using the limit for small values
+        tan_divnorm = theta.tan() / xr_yrNorm
+        tan_divnorm[xr_yrNorm < self.epsilon] = 1.0
+        point3d_est[..., :2] = tan_divnorm[..., None] * xr_yr
         return point3d_est
 
     def unproject_points(
-- 
2.43.0


From ec4337cfdf07451b31424c67f0be5773d3c0d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 014/164] fix: keep focal length and thin prism switch when
 indexing or joining FishEyeCameras

---
 pytorch3d/renderer/fisheyecameras.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 66062b5..7ab8909 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -62,11 +62,17 @@ class FishEyeCameras(CamerasBase):
         "world_coordinates",
         "use_radial",
         "use_tangential",
-        "use_tin_prism",
-        "device",
+        "use_thin_prism",
         "image_size",
     )
 
+    _SHARED_FIELDS = (
+        "world_coordinates",
+        "use_radial",
+        "use_tangential",
+        "use_thin_prism",
+    )
+
     def __init__(
         self,
         focal_length=_focal_length,
@@ -126,7 +132,7 @@ class FishEyeCameras(CamerasBase):
 
         # pyrefly: ignore [bad-assignment]
         self.device = device
-        self.focal = focal_length.to(self.device)
+        self.focal_length = focal_length.to(self.device)
         self.principal_point = principal_point.to(self.device)
         self.radial_params = radial_params.to(self.device)
         self.tangential_params = tangential_params.to(self.device)
@@ -290,7 +296,7 @@ class FishEyeCameras(CamerasBase):
 
         if N == 1:
             return self._project_points_batch(
-                self.focal[0],
+                self.focal_length[0],
                 self.principal_point[0],
                 self.radial_params[0],
                 self.tangential_params[0],
@@ -302,7 +308,7 @@ class FishEyeCameras(CamerasBase):
             for i in range(N):
                 outputs.append(
                     self._project_points_batch(
-                        self.focal[i],
+                        self.focal_length[i],
                         self.principal_point[i],
                         self.radial_params[i],
                         self.tangential_params[i],
@@ -387,7 +393,7 @@ class FishEyeCameras(CamerasBase):
         N = len(self.radial_params)
         if N == 1:
             return self._unproject_points_batch(
-                self.focal[0],
+                self.focal_length[0],
                 self.principal_point[0],
                 self.radial_params[0],
                 self.tangential_params[0],
@@ -399,7 +405,7 @@ class FishEyeCameras(CamerasBase):
             for i in range(N):
                 outputs.append(
                     self._unproject_points_batch(
-                        self.focal[i],
+                        self.focal_length[i],
                         self.principal_point[i],
                         self.radial_params[i],
                         self.tangential_params[i],
-- 
2.43.0


From 5fbf6e972180644d97e641192508526dbc947480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 015/164] fix: keep the point dimension of a single point
 projected by a batch of FishEyeCameras

---
 pytorch3d/renderer/fisheyecameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 7ab8909..6693505 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -317,7 +317,7 @@ class FishEyeCameras(CamerasBase):
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-        return outputs.squeeze()
+        return outputs.squeeze(1) if outputs.ndim == 4 else outputs
 
     def _unproject_points_batch(
         self,
@@ -414,7 +414,7 @@ class FishEyeCameras(CamerasBase):
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-        return outputs.squeeze()
+        return outputs.squeeze(1) if outputs.ndim == 4 else outputs
 
     def _compute_xr_yr_from_uv_distorted(
         self, tangential_params, thin_prism_params, uv_distorted: torch.Tensor
-- 
2.43.0


From 217a4832b7f123f47fbcfc136fc7dffa4e2e3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 016/164] fix: resolve negative OBJ indices where the face
 statement stands

---
 pytorch3d/io/obj_io.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..ea1cfba 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -59,19 +59,6 @@ def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None)
         faces_indices, cols=3, dtype=torch.int64, device=device
     )
 
-    if pad_value is not None:
-        mask = faces_indices.eq(pad_value).all(dim=-1)
-
-    # Change to 0 based indexing.
-    faces_indices[(faces_indices > 0)] -= 1
-
-    # Negative indexing counts from the end.
-    faces_indices[(faces_indices < 0)] += max_index
-
-    if pad_value is not None:
-        # pyre-fixme[61]: `mask` is undefined, or not always defined.
-        faces_indices[mask] = pad_value
-
     return _check_faces_indices(faces_indices, max_index, pad_value)
 
 
@@ -363,9 +350,25 @@ class MeshObjFormat(MeshFormatInterpreter):
         return True
 
 
+def _parse_face_index(index: str, num_defined: int) -> int:
+    """
+    Convert an index of a face statement to 0 based indexing. Negative indices
+    count back from the most recent of the `num_defined` values so far.
+    """
+    idx = int(index)
+    if idx > 0:
+        return idx - 1
+    if idx < 0:
+        return idx + num_defined
+    return idx
+
+
 def _parse_face(
     line,
     tokens,
+    num_verts,
+    num_textures,
+    num_normals,
     material_idx,
     faces_verts_idx,
     faces_normals_idx,
@@ -380,14 +383,14 @@ def _parse_face(
 
     for vert_props in face_list:
         # Vertex index.
-        face_verts.append(int(vert_props[0]))
+        face_verts.append(_parse_face_index(vert_props[0], num_verts))
         if len(vert_props) > 1:
             if vert_props[1] != "":
                 # Texture index is present e.g. f 4/1/1.
-                face_textures.append(int(vert_props[1]))
+                face_textures.append(_parse_face_index(vert_props[1], num_textures))
             if len(vert_props) > 2:
                 # Normal index present e.g. 4/1/1 or 4//1.
-                face_normals.append(int(vert_props[2]))
+                face_normals.append(_parse_face_index(vert_props[2], num_normals))
             if len(vert_props) > 3:
                 raise ValueError(
                     "Face vertices can only have 3 properties. \
@@ -497,6 +500,9 @@ def _parse_obj(f, data_dir: str):
             _parse_face(
                 line,
                 tokens,
+                len(verts),
+                len(verts_uvs),
+                len(normals),
                 materials_idx,
                 faces_verts_idx,
                 faces_normals_idx,
-- 
2.43.0


From 958d218c2fb2d044e604da95976ed47761337be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 017/164] fix: return index tensors, and make texture atlases,
 for OBJ files without faces

---
 pytorch3d/io/obj_io.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index ea1cfba..27e9009 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -619,19 +619,16 @@ def _load_obj(
         faces_verts_idx, verts.shape[0], device=device
     )
 
-    # Repeat for normals and textures if present.
-    if len(faces_normals_idx):
-        faces_normals_idx = _format_faces_indices(
-            faces_normals_idx, normals.shape[0], device=device, pad_value=-1
-        )
-    if len(faces_textures_idx):
-        faces_textures_idx = _format_faces_indices(
-            faces_textures_idx, verts_uvs.shape[0], device=device, pad_value=-1
-        )
-    if len(faces_materials_idx):
-        faces_materials_idx = torch.tensor(
-            faces_materials_idx, dtype=torch.int64, device=device
-        )
+    # Repeat for normals and textures.
+    faces_normals_idx = _format_faces_indices(
+        faces_normals_idx, normals.shape[0], device=device, pad_value=-1
+    )
+    faces_textures_idx = _format_faces_indices(
+        faces_textures_idx, verts_uvs.shape[0], device=device, pad_value=-1
+    )
+    faces_materials_idx = torch.tensor(
+        faces_materials_idx, dtype=torch.int64, device=device
+    )
 
     texture_atlas = None
     material_colors, texture_images = _load_materials(
-- 
2.43.0


From d09031350fdb7c61a43310c4b29d132670dd6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 018/164] fix: recognise OBJ statements followed by a tab

---
 pytorch3d/io/obj_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 27e9009..f960745 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -476,26 +476,26 @@ def _parse_obj(f, data_dir: str):
                 materials_idx = len(material_names) - 1
             else:
                 materials_idx = material_names.index(material_name)
-        elif line.startswith("v "):  # Line is a vertex.
+        elif tokens and tokens[0] == "v":  # Line is a vertex.
             vert = [float(x) for x in tokens[1:4]]
             if len(vert) != 3:
                 msg = "Vertex %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(vert), str(line)))
             verts.append(vert)
-        elif line.startswith("vt "):  # Line is a texture.
+        elif tokens and tokens[0] == "vt":  # Line is a texture.
             tx = [float(x) for x in tokens[1:3]]
             if len(tx) != 2:
                 raise ValueError(
                     "Texture %s does not have 2 values. Line: %s" % (str(tx), str(line))
                 )
             verts_uvs.append(tx)
-        elif line.startswith("vn "):  # Line is a normal.
+        elif tokens and tokens[0] == "vn":  # Line is a normal.
             norm = [float(x) for x in tokens[1:4]]
             if len(norm) != 3:
                 msg = "Normal %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(norm), str(line)))
             normals.append(norm)
-        elif line.startswith("f "):  # Line is a face.
+        elif tokens and tokens[0] == "f":  # Line is a face.
             # Update face properties info.
             _parse_face(
                 line,
-- 
2.43.0


From 2345159a8240d21db65c843da87ce5b43b08b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 019/164] fix: save meshes without textures when IO.save_mesh
 is asked to

---
 pytorch3d/io/pluggable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/io/pluggable.py b/pytorch3d/io/pluggable.py
index 4e9951a..6bf8abb 100644
--- a/pytorch3d/io/pluggable.py
+++ b/pytorch3d/io/pluggable.py
@@ -163,6 +163,10 @@ class IO:
         if len(data) != 1:
             raise ValueError("Can only save a single mesh.")
 
+        if not include_textures and data.textures is not None:
+            data = data.clone()
+            data.textures = None
+
         for mesh_interpreter in self.mesh_interpreters:
             success = mesh_interpreter.save(
                 data, path, path_manager=self.path_manager, binary=binary, **kwargs
-- 
2.43.0


From 521b1e87552feb1eb095c61bf44a277611c8a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 020/164] fix: pad lists in which every element is empty

---
 pytorch3d/structures/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/structures/utils.py b/pytorch3d/structures/utils.py
index 6c0c4f7..c161f85 100644
--- a/pytorch3d/structures/utils.py
+++ b/pytorch3d/structures/utils.py
@@ -62,9 +62,8 @@ def list_to_padded(
         raise ValueError("All items have to have the same number of dimensions!")
 
     if pad_size is None:
-        pad_dims = [
-            max(y.shape[dim] for y in x if len(y) > 0) for dim in range(x[0].ndim)
-        ]
+        nonempty = [y for y in x if len(y) > 0] or x
+        pad_dims = [max(y.shape[dim] for y in nonempty) for dim in range(x[0].ndim)]
     else:
         if any(len(pad_size) != y.ndim for y in x):
             raise ValueError("Pad size must contain target size for all dimensions.")
-- 
2.43.0


From 165053cf932054d268dc195ae7d5ed7af58e40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 021/164] fix: reject PLY files which end in the header

---
 pytorch3d/io/ply_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..7848c38 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -161,6 +161,8 @@ class _PlyHeader:
         self.obj_info: List[str] = []
         while True:
             line = f.readline()
+            if not line:
+                raise ValueError("The header has no end.")
             if isinstance(line, bytes):
                 line = line.decode("ascii")
             line = line.strip()
-- 
2.43.0


From ed0d934fea448499a8a6750743ad8d0a77f52262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 022/164] fix: respect the property order of PLY vertices with
 three properties

---
 pytorch3d/io/ply_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 7848c38..41bf3b9 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -943,6 +943,7 @@ def _get_verts(header: _PlyHeader, elements: dict) -> _VertsData:
         and isinstance(vertex[0], np.ndarray)
         and vertex[0].ndim == 2
         and vertex[0].shape[1] == 3
+        and column_idxs.point_idxs == [0, 1, 2]
     ):
         return _VertsData(verts=_make_tensor(vertex[0], cols=3, dtype=torch.float32))
 
-- 
2.43.0


From 4323062239ea14c6b31e94637cdca8afc8e7c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 023/164] fix: read float32 and float64 properties of ASCII PLY
 elements with lists

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 41bf3b9..7cb3613 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -416,7 +416,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
         raise ValueError("Too little data for an element.")
     if property.list_size_type is None:
         try:
-            if property.data_type in ["double", "float"]:
+            if np.issubdtype(_PLY_TYPES[property.data_type].np_type, np.floating):
                 datum.append(float(value))
             else:
                 datum.append(int(value))
-- 
2.43.0


From c66ac4fe11cd9fa6f86a77a224ce6423c82af2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 024/164] fix: load PLY files with normals but no faces as
 meshes

---
 pytorch3d/io/ply_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 7cb3613..7caef4f 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -1422,7 +1422,8 @@ class MeshPlyFormat(MeshFormatInterpreter):
                     )
 
         verts_normals = None
-        if data.verts_normals is not None:
+        # A mesh without faces cannot store vertex normals.
+        if data.verts_normals is not None and len(faces) > 0:
             verts_normals = [data.verts_normals.to(device)]
         mesh = Meshes(
             verts=[data.verts.to(device)],
-- 
2.43.0


From f4876323a7393f0e87e5516c939e13c63af4ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 025/164] fix: load ASCII PLY files with several elements from
 text files

---
 pytorch3d/io/ply_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 7caef4f..f1a4cff 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -19,7 +19,7 @@ import sys
 import warnings
 from collections import namedtuple
 from dataclasses import asdict, dataclass
-from io import BytesIO, TextIOBase
+from io import BytesIO, StringIO, TextIOBase
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -760,6 +760,10 @@ def _load_ply_raw_stream(f) -> Tuple[_PlyHeader, dict]:
     header = _PlyHeader(f)
     elements = {}
     if header.ascii:
+        if isinstance(f, TextIOBase):
+            # np.loadtxt() iterates over its input, after which the position in
+            # a text file can no longer be queried.
+            f = StringIO(f.read())
         for element in header.elements:
             elements[element.name] = _read_ply_element_ascii(f, element)
     else:
-- 
2.43.0


From 5d384b1dd36db97a820f6750206052a105110ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 026/164] fix: reject OFF files which end before the counts
 line

---
 pytorch3d/io/off_io.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0ef4049..d6c5619 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -36,6 +36,18 @@ def _is_line_empty(line: Union[str, bytes]) -> bool:
     return len(line) == 0 or line[:1] == b"#"
 
 
+def _read_meaningful_line(file) -> bytes:
+    """
+    Returns the next line of the file which is not blank or a comment.
+    """
+    line = file.readline()
+    while _is_line_empty(line):
+        if len(line) == 0:
+            raise ValueError("Premature end of file")
+        line = file.readline()
+    return line
+
+
 def _count_next_line_periods(file) -> int:
     """
     Returns the number of . characters before any # on the next
@@ -232,16 +244,13 @@ def _load_off_stream(file) -> dict:
         faces: LongTensor of vertex indices, split into triangles, shape (F, 3).
         faces_colors: FloatTensor of shape (F, C), where C is 3 or 4.
     """
-    header = file.readline()
-
-    while _is_line_empty(header):
-        header = file.readline()
+    header = _read_meaningful_line(file)
 
     if header[:3].lower() == b"off":
         header = header[3:]
 
-    while _is_line_empty(header):
-        header = file.readline()
+    if _is_line_empty(header):
+        header = _read_meaningful_line(file)
 
     items = header.split()
     if len(items) < 3:
-- 
2.43.0


From a75f0d45f65859ffc7353f486251138c8f8da004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 027/164] fix: recognise integer vertex colors in OFF files by
 the colors, not the coordinates

---
 pytorch3d/io/off_io.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index d6c5619..2f000f8 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -48,20 +48,15 @@ def _read_meaningful_line(file) -> bytes:
     return line
 
 
-def _count_next_line_periods(file) -> int:
+def _count_next_line_periods(file, skip: int = 0) -> int:
     """
     Returns the number of . characters before any # on the next
-    meaningful line.
+    meaningful line, not counting those in its first `skip` items.
     """
     old_offset = file.tell()
-    line = file.readline()
-    while _is_line_empty(line):
-        line = file.readline()
-        if len(line) == 0:
-            raise ValueError("Premature end of file")
-
+    line = _read_meaningful_line(file)
     contents = line.split(b"#")[0]
-    count = contents.count(b".")
+    count = sum(item.count(b".") for item in contents.split()[skip:])
     file.seek(old_offset)
     return count
 
@@ -192,7 +187,7 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
-    color_is_int = 3 == _count_next_line_periods(file)
+    color_is_int = 0 == _count_next_line_periods(file, skip=3)
     color_scale = 1 / 255.0 if color_is_int else 1
 
     with warnings.catch_warnings():
-- 
2.43.0


From 405db1d4ab379374e93c919d674d8213765cab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 028/164] fix: load OFF files without vertices

---
 pytorch3d/io/off_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 2f000f8..c19e56c 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -187,6 +187,9 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
+    if n_verts == 0:
+        return np.zeros((0, 3), dtype=np.float32), None
+
     color_is_int = 0 == _count_next_line_periods(file, skip=3)
     color_scale = 1 / 255.0 if color_is_int else 1
 
-- 
2.43.0


From 6ee593c1b0a85d0d0bfd7201cd2b1e82269b0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 029/164] fix: write 32 bit indices to GLB files, so that data
 stays aligned and indices do not wrap

---
 pytorch3d/io/experimental_gltf_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2073d12..07ea849 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -644,7 +644,7 @@ class _GLTFWriter:
             element_max = list(map(float, np.max(data, axis=0)))
             byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
         elif key == "indices":
-            component_type = _ComponentType.UNSIGNED_SHORT
+            component_type = _ComponentType.UNSIGNED_INT
             data = (
                 self.mesh.faces_packed()
                 .cpu()
@@ -656,7 +656,7 @@ class _GLTFWriter:
             element_min = list(map(int, np.min(data, keepdims=True)))
             element_max = list(map(int, np.max(data, keepdims=True)))
             byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
+                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_INT]]
             )
         else:
             raise NotImplementedError(
@@ -702,7 +702,7 @@ class _GLTFWriter:
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
             byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
+                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_INT]]
             )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
 
-- 
2.43.0


From e4919832648d4b246fd65e1d2d26406aed39a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 030/164] fix: pad the chunks of GLB files to multiples of 4
 bytes

---
 pytorch3d/io/experimental_gltf_io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 07ea849..3285d51 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -784,13 +784,17 @@ class _GLTFWriter:
         self._json_data["buffers"].append({"byteLength": int(byte_offset)})
 
         # organize into a glb
+        # each chunk has to be padded to a multiple of 4 bytes
         json_bytes = bytes(json.dumps(self._json_data, cls=OurEncoder), "utf-8")
+        json_bytes += b" " * (-len(json_bytes) % 4)
         json_length = len(json_bytes)
+        padding = b"\0" * (-byte_offset % 4)
+        binary_length = byte_offset + len(padding)
 
         # write header
         version = 2
         total_header_length = 28  # (file header = 12) + 2 * (chunk header = 8)
-        file_length = json_length + byte_offset + total_header_length
+        file_length = json_length + binary_length + total_header_length
         header = struct.pack("<III", _GLTF_MAGIC, version, file_length)
         self.buffer_stream.write(header)
 
@@ -799,13 +803,14 @@ class _GLTFWriter:
         self.buffer_stream.write(json_bytes)
 
         # write binary data
-        self.buffer_stream.write(struct.pack("<II", byte_offset, _BINARY_CHUNK_TYPE))
+        self.buffer_stream.write(struct.pack("<II", binary_length, _BINARY_CHUNK_TYPE))
         self.buffer_stream.write(pos_data)
         self.buffer_stream.write(idx_data)
         if include_textures:
             self.buffer_stream.write(tex_data)
         if include_image:
             self.buffer_stream.write(image_data)
+        self.buffer_stream.write(padding)
 
 
 class MeshGlbFormat(MeshFormatInterpreter):
-- 
2.43.0


From b18adc6b87ecd887ff60f0e443c78f5a882df9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 031/164] fix: do not flip the mesh's own UV coordinates when
 saving it to GLB, and allow gradients

---
 pytorch3d/io/experimental_gltf_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 3285d51..072b661 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -617,7 +617,7 @@ class _GLTFWriter:
         name = "Node-Mesh_%s" % key
         byte_offset = 0
         if key == "positions":
-            data = self.mesh.verts_packed().cpu().numpy()
+            data = self.mesh.verts_packed().detach().cpu().numpy()
             component_type = _ComponentType.FLOAT
             element_type = "VEC3"
             buffer_view = 0
@@ -627,7 +627,7 @@ class _GLTFWriter:
         elif key == "texcoords":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_uvs_list()[0].detach().cpu().numpy().copy()
             data[:, 1] = 1 - data[:, -1]  # flip y tex-coordinate
             element_type = "VEC2"
             buffer_view = 2
@@ -637,7 +637,7 @@ class _GLTFWriter:
         elif key == "texvertices":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_features_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_features_list()[0].detach().cpu().numpy()
             element_type = "VEC3"
             buffer_view = 2
             element_min = list(map(float, np.min(data, axis=0)))
@@ -715,7 +715,7 @@ class _GLTFWriter:
 
     def _write_image_buffer(self, **kwargs) -> Tuple[int, bytes]:
         # pyrefly: ignore [missing-attribute]
-        image_np = self.mesh.textures.maps_list()[0].cpu().numpy()
+        image_np = self.mesh.textures.maps_list()[0].detach().cpu().numpy()
         image_array = (image_np * 255.0).astype(np.uint8)
         im = Image.fromarray(image_array)
         with BytesIO() as f:
-- 
2.43.0


From 710ca5725d7064adf972314e67a3a477fd787bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 032/164] fix: transpose of node matrices in glTF files

---
 pytorch3d/io/experimental_gltf_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 072b661..4034c91 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -175,8 +175,10 @@ def _make_node_transform(node: Dict[str, Any]) -> Transform3d:
     Transform3d format.
     """
     array = node.get("matrix")
-    if array is not None:  # Stored in column-major order
-        M = np.array(array, dtype=np.float32).reshape(4, 4, order="F")
+    if array is not None:
+        # Stored in column-major order, for column vectors: read by rows, it
+        # is the matrix for row vectors, which is what Transform3d wants.
+        M = np.array(array, dtype=np.float32).reshape(4, 4)
         return Transform3d(matrix=torch.from_numpy(M))
 
     out = Transform3d()
-- 
2.43.0


From 5f6881f25c00540c53b1764db723480fdb66a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 033/164] fix: normalize integer vertex colors and texture
 coordinates of glTF files

---
 pytorch3d/io/experimental_gltf_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 4034c91..ae3d188 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -361,12 +361,12 @@ class _GLTFLoader:
         primitive_attribute = self._access_data(accessor_index)
         if key == "JOINTS_0":
             pass
-        elif dtype == np.uint8:
-            primitive_attribute /= 255.0
-        elif dtype == np.uint16:
-            primitive_attribute /= 65535.0
+        elif primitive_attribute.dtype == np.uint8:
+            primitive_attribute = primitive_attribute / 255.0
+        elif primitive_attribute.dtype == np.uint16:
+            primitive_attribute = primitive_attribute / 65535.0
         else:
-            if dtype != np.float32:
+            if primitive_attribute.dtype != np.float32:
                 raise ValueError("Unexpected data type")
         primitive_attribute = primitive_attribute.astype(dtype)
         return primitive_attribute
-- 
2.43.0


From 71c89c489d2e9b2f2a21501a5d4b36aa9b9e5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 034/164] fix: read interleaved glTF accessors at the end of a
 buffer, and reject those outside of it

---
 pytorch3d/io/experimental_gltf_io.py | 37 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index ae3d188..09833a0 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -314,10 +314,6 @@ class _GLTFLoader:
         item_dtype = np.dtype(item_type)
         item_count = np.prod(element_shape)
         item_size = item_dtype.itemsize
-        size = element_count * item_count * item_size
-        if size > buffer_byte_length:
-            raise ValueError("Buffer did not have enough data for the accessor")
-
         buffer_ = self._buffers[buffer_index]
         binary_data = self.get_binary_data(buffer_index)
         if len(binary_data) < buffer_["byteLength"]:
@@ -329,22 +325,29 @@ class _GLTFLoader:
         if element_byte_stride < item_size * item_count:
             raise ValueError("Items should not overlap")
 
-        dtype = np.dtype(
-            {
-                "names": ["element"],
-                "formats": [str(element_shape) + item_dtype.str],
-                "offsets": [0],
-                "itemsize": element_byte_stride,
-            }
-        )
-
         byte_offset = accessor_byte_offset + element_byte_offset
         if byte_offset % item_size != 0:
             raise ValueError("Misaligned data")
-        byte_length = element_count * element_byte_stride
-        buffer_view = binary_data[byte_offset : byte_offset + byte_length].view(dtype)[
-            "element"
-        ]
+        # The last element does not have to be followed by a whole stride
+        byte_length = 0
+        if element_count > 0:
+            byte_length = (
+                element_count - 1
+            ) * element_byte_stride + item_size * item_count
+        if accessor_byte_offset + byte_length > buffer_byte_length:
+            raise ValueError("Buffer did not have enough data for the accessor")
+        if byte_offset + byte_length > len(binary_data):
+            raise ValueError("Not enough binary data for the buffer")
+        buffer_view = np.ndarray(
+            shape=(element_count, *element_shape),
+            dtype=item_dtype,
+            buffer=binary_data,
+            offset=byte_offset,
+            strides=(
+                element_byte_stride,
+                *np.empty(element_shape, dtype=item_dtype).strides,
+            ),
+        )
 
         # Convert matrix data from column-major (OpenGL) to row-major order
         if element_type in ("MAT2", "MAT3", "MAT4"):
-- 
2.43.0


From fca88a6598bd6a445a8d9a3ee9f86a905fa58bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 035/164] fix: load glTF primitives with texture coordinates
 but no material or base color

---
 pytorch3d/io/experimental_gltf_io.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 09833a0..ad164dd 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -413,10 +413,12 @@ class _GLTFLoader:
             verts_uvs = torch.from_numpy(vertex_texcoords_0)
             verts_uvs[:, 1] = 1 - verts_uvs[:, -1]
             faces_uvs = indices
-            material_index = primitive.get("material", 0)
-            # pyrefly: ignore [unsupported-operation]
-            material = self._json_data["materials"][material_index]
-            material_roughness = material["pbrMetallicRoughness"]
+            material_index = primitive.get("material")
+            material = {}
+            if material_index is not None:
+                # pyrefly: ignore [unsupported-operation]
+                material = self._json_data["materials"][material_index]
+            material_roughness = material.get("pbrMetallicRoughness", {})
             if "baseColorTexture" in material_roughness:
                 texture_index = material_roughness["baseColorTexture"]["index"]
                 # pyrefly: ignore [unsupported-operation]
@@ -425,13 +427,12 @@ class _GLTFLoader:
                 # Todo - look at the sampler
                 image_index = texture_json["source"]
                 map = self._get_texture_map_image(image_index)
-            elif "baseColorFactor" in material_roughness:
-                # Constant color?
-                map = torch.FloatTensor(material_roughness["baseColorFactor"])[
-                    None, None, :3
-                ]
+            else:
+                # Constant color, white by default
+                map = torch.FloatTensor(
+                    material_roughness.get("baseColorFactor", [1, 1, 1, 1])
+                )[None, None, :3]
             texture = TexturesUV(
-                # pyre-fixme[61]: `map` may not be initialized here.
                 maps=[map],  # alpha channel ignored
                 faces_uvs=[faces_uvs],
                 verts_uvs=[verts_uvs],
-- 
2.43.0


From 53835e89db6bc0940b11d4a287f7e4345511bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 036/164] fix: join UV textures whose combined map is one pixel
 wide

---
 pytorch3d/renderer/mesh/textures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..9307c6d 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1578,9 +1578,9 @@ class TexturesUV(TexturesBase):
             # That is why the 1's and 0's are mismatched in these lines.
             one_if_align = 1 if self.align_corners else 0
             one_if_not_align = 1 - one_if_align
-            denom_x = merging_plan.total_size[0] - one_if_align
+            denom_x = max(merging_plan.total_size[0] - one_if_align, 1)
             scale_x = x_shape - one_if_align
-            denom_y = merging_plan.total_size[1] - one_if_align
+            denom_y = max(merging_plan.total_size[1] - one_if_align, 1)
             scale_y = y_shape - one_if_align
             new_uvs[:, 1] *= scale_x / denom_x
             new_uvs[:, 1] += (
-- 
2.43.0


From 1219dd4d4a9feb393f200b1b272881b8bc28caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 037/164] fix: accept comments at the end of OFF files

---
 pytorch3d/io/off_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index c19e56c..0e82cc4 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -269,9 +269,9 @@ def _load_off_stream(file) -> dict:
     verts, verts_colors = _read_verts(file, n_verts)
     faces, faces_colors = _read_faces(file, n_faces)
 
-    end = file.read().strip()
-    if len(end) != 0:
-        raise ValueError("Extra data at end of file: " + str(end[:20]))
+    for line in file:
+        if not _is_line_empty(line):
+            raise ValueError("Extra data at end of file: " + str(line[:20]))
 
     out = {"verts": verts}
     if verts_colors is not None:
-- 
2.43.0


From 70f66053f2997fe7105bc7750e7663b96d327ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 038/164] fix: keep dtype and device when padding several
 texture maps per mesh

---
 pytorch3d/renderer/mesh/textures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 9307c6d..f821ec1 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -178,7 +178,7 @@ def _pad_texture_multiple_maps(
     max_shape = (max_M, max_H, max_W, C)
     max_im_shape = (max_H, max_W)
     for i, tms in enumerate(tex_maps):
-        new_tex_maps = torch.zeros(max_shape)
+        new_tex_maps = torch.zeros(max_shape, dtype=tms.dtype, device=tms.device)
         for j in range(tms.shape[0]):
             im = tms[j]
             if im.shape[:2] != max_im_shape:
-- 
2.43.0


From 2260ca3346120ad29d5a03d8b7edb7294376ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 039/164] fix: textures indexed by an int or holding padded
 maps_ids keep consistent per-mesh lists

---
 pytorch3d/renderer/mesh/textures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index f821ec1..81df74a 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -275,6 +275,9 @@ class TexturesBase:
                 if callable(t):
                     t = t()  # class method
                 new_props[p] = t[index] if t is not None else None
+                if p.startswith("_num_") and isinstance(index, int):
+                    # The counts are a list with one entry per batch element.
+                    new_props[p] = [new_props[p]] if t is not None else None
         elif isinstance(index, list):
             # pyrefly: ignore [bad-assignment]
             index = torch.tensor(index)
@@ -1146,7 +1149,9 @@ class TexturesUV(TexturesBase):
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
             # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return padded_to_list(
+                self._maps_ids_padded, split_size=self._num_faces_per_mesh
+            )
         else:
             return None
 
-- 
2.43.0


From 14620b88f685af60e341ba3ad403aaa4ce1aa812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 040/164] fix: sample several UV maps per mesh at the centre of
 the selected map and of the right face

---
 pytorch3d/renderer/mesh/textures.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 81df74a..f871281 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1286,15 +1286,23 @@ class TexturesUV(TexturesBase):
             pix_to_face = fragments.pix_to_face.clone()
             pix_to_face[mask] = 0
 
+            # pix_to_face indexes the packed faces, so drop the padding of maps_ids.
+            maps_ids_packed = torch.cat(
+                [
+                    ids[:num_faces]
+                    for ids, num_faces in zip(
+                        maps_ids_padded, self._num_faces_per_mesh, strict=True
+                    )
+                ]
+            )
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
-                .gather(0, pix_to_face.flatten())
+                maps_ids_packed.gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
             )  # N x H_out x W_out x K x 1
 
             # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._normalize_maps_ids(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1319,6 +1327,15 @@ class TexturesUV(TexturesBase):
             texels = texels.permute(0, 3, 4, 2, 1).contiguous()
             return texels
 
+    def _normalize_maps_ids(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        Convert the index of a map among M maps to the coordinate in [-1, 1] at
+        which grid_sample finds exactly that map.
+        """
+        if self.align_corners:
+            return 2.0 * maps_ids.float() / float(max(M - 1, 1)) - 1.0
+        return (2.0 * maps_ids.float() + 1.0) / float(M) - 1.0
+
     def faces_verts_textures_packed(self) -> torch.Tensor:
         """
         Samples texture from each vertex and for each face in the mesh.
@@ -1356,7 +1373,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._normalize_maps_ids(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From bc12537f5c14ae73221423f931462476153104f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 041/164] fix: CPU alpha_composite backward is exact when a
 weight equals one

---
 .../csrc/compositing/alpha_composite_cpu.cpp  | 42 +++++++++----------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
index 41bc0ec..b679d91 100644
--- a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
+++ b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
@@ -11,9 +11,6 @@
 #include <cmath>
 #include <vector>
 
-// Epsilon float
-const float kEps = 1e-9;
-
 torch::Tensor alphaCompositeCpuForward(
     const torch::Tensor& features,
     const torch::Tensor& alphas,
@@ -79,6 +76,8 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
   auto grad_features_a = grad_features.accessor<float, 2>();
   auto grad_alphas_a = grad_alphas.accessor<float, 4>();
 
+  std::vector<float> cum_alphas(K);
+
   // Iterate over the batch
   for (int b = 0; b < B; ++b) {
     // Iterate over the features
@@ -87,34 +86,31 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
       for (int j = 0; j < H; ++j) {
         // Iterate over pixels in a horizontal line, left to right
         for (int i = 0; i < W; ++i) {
+          // Transmittance in front of each of the K points of this pixel
           float cum_alpha = 1.;
-          // Iterate through the closest K points for this pixel
           for (int k = 0; k < K; ++k) {
-            int64_t n_idx = points_idx_a[b][k][j][i];
+            cum_alphas[k] = cum_alpha;
             // Sentinal value is -1, indicating no point overlaps this pixel
+            if (points_idx_a[b][k][j][i] >= 0) {
+              cum_alpha = cum_alpha * (1 - alphas_a[b][k][j][i]);
+            }
+          }
+          // Iterate from the farthest to the closest point. behind is the value
+          // composited from the points farther than k only. Nothing has to be
+          // divided by (1 - alpha), which may be zero.
+          float behind = 0.;
+          for (int k = K - 1; k >= 0; --k) {
+            int64_t n_idx = points_idx_a[b][k][j][i];
             if (n_idx < 0) {
               continue;
             }
             float alpha = alphas_a[b][k][j][i];
+            float feature = features_a[c][n_idx];
+            float grad_output = grad_outputs_a[b][c][j][i];
             grad_alphas_a[b][k][j][i] +=
-                grad_outputs_a[b][c][j][i] * features_a[c][n_idx] * cum_alpha;
-            grad_features_a[c][n_idx] +=
-                grad_outputs_a[b][c][j][i] * cum_alpha * alpha;
-
-            // Iterate over all (K-1) nearer points to update gradient
-            for (int t = 0; t < k; t++) {
-              int64_t t_idx = points_idx_a[b][t][j][i];
-              // Sentinal value is -1, indicating no point overlaps this pixel
-              if (t_idx < 0) {
-                continue;
-              }
-              float alpha_tvalue = alphas_a[b][t][j][i];
-              grad_alphas_a[b][t][j][i] -= grad_outputs_a[b][c][j][i] *
-                  features_a[c][n_idx] * cum_alpha * alpha /
-                  (1 - alpha_tvalue + kEps);
-            }
-
-            cum_alpha = cum_alpha * (1 - alpha);
+                grad_output * cum_alphas[k] * (feature - behind);
+            grad_features_a[c][n_idx] += grad_output * cum_alphas[k] * alpha;
+            behind = alpha * feature + (1 - alpha) * behind;
           }
         }
       }
-- 
2.43.0


From 704913b29253720eac41316427485715386f20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 042/164] fix: norm_weighted_sum backward treats a clamped
 denominator as constant

---
 pytorch3d/csrc/compositing/norm_weighted_sum.cu      | 2 ++
 pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum.cu b/pytorch3d/csrc/compositing/norm_weighted_sum.cu
index e21617d..ec1cef9 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum.cu
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum.cu
@@ -126,6 +126,8 @@ __global__ void weightedSumNormCudaBackwardKernel(
 
     if (sum_alpha < kEpsilon) {
       sum_alpha = kEpsilon;
+      // The denominator is clamped to a constant, so it has no gradient.
+      sum_alphafs = 0.;
     }
 
     // Iterate again through the closest K points for this pixel to calculate
diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
index 840ef3d..2b7e0bf 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
@@ -115,6 +115,8 @@ std::tuple<torch::Tensor, torch::Tensor> weightedSumNormCpuBackward(
 
           if (t_alpha < kEps) {
             t_alpha = kEps;
+            // The denominator is clamped to a constant, so it has no gradient.
+            t_alphafs = 0.;
           }
 
           // Iterate through the closest K points for this pixel ordered by z
-- 
2.43.0


From 8e8f9ebd8e8257ebaab1640530f43776c8f7ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 043/164] fix: the half of a clipped face which contains a
 pixel wins over its other half

---
 pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu      | 7 ++++---
 pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
index 28c546c..78be340 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
@@ -200,9 +200,10 @@ __device__ void CheckPixelInsideFace(
   // If neighbor idx is not -1 then it is in the top K struct.
   if (neighbor_idx_top_k != -1) {
     // If dist of current face is less than neighbor then overwrite the
-    // neighbor face values in the top K struct.
-    float neighbor_dist = abs(q[neighbor_idx_top_k].dist);
-    if (dist < neighbor_dist) {
+    // neighbor face values in the top K struct. The distances are signed: a
+    // face which contains the pixel is always preferred.
+    float neighbor_dist = q[neighbor_idx_top_k].dist;
+    if (signed_dist < neighbor_dist) {
       // Overwrite the neighbor face values
       q[neighbor_idx_top_k] = {pz, face_idx, signed_dist, p_bary_clip};
 
diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
index fce2cb7..4fae784 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
@@ -260,10 +260,11 @@ void RasterizeMeshesNaiveCpu_worker(
           // If idx_top_k idx is not -1 then it is in the top K struct.
           if (idx_top_k != -1) {
             // If dist of current face is less than neighbor, overwrite
-            // the neighbor face values in the top K struct.
+            // the neighbor face values in the top K struct. The distances are
+            // signed: a face which contains the pixel is always preferred.
             const auto neighbor = q[idx_top_k];
-            const float dist_neighbor = std::abs(std::get<2>(neighbor));
-            if (dist < dist_neighbor) {
+            const float dist_neighbor = std::get<2>(neighbor);
+            if (signed_dist < dist_neighbor) {
               // Overwrite the neighbor face values.
               q[idx_top_k] = std::make_tuple(
                   pz, f, signed_dist, bary_clip.x, bary_clip.y, bary_clip.z);
-- 
2.43.0


From a363cbbe5e77284862e3f794f2f4d4ad4980d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 044/164] fix: let gradients reach the clipped vertex through
 the second clipping weight

---
 pytorch3d/renderer/mesh/clip.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..596bfcc 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -292,7 +292,6 @@ def _find_verts_intersecting_clipping_plane(
     # Solve for the weight w3 such that p1.z * (1-w3) + p2.z * w3 = clip_value,
     # and then interpolate p5 = p1 * (1-w3) + p3 * w3
     w3 = (p1[:, 2] - clip_value) / (p1[:, 2] - p3[:, 2])
-    w3 = w3.detach()
     p5 = p1 * (1 - w3[:, None]) + p3 * w3[:, None]
     if perspective_correct:
         # Again if using a perspective camera, convert back to world coordinates
-- 
2.43.0


From 3f7ed63fceab88e020852aeb0b93f72989f21e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 045/164] fix: cull faces by the coordinates of their vertices
 along each frustum axis

---
 pytorch3d/renderer/mesh/clip.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 596bfcc..c1eda9c 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -186,10 +186,16 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         clip_value, axis, op = plane
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
+            coords = face_verts[:, :, axis]
+            if axis < 2 and frustum.perspective_correct:
+                # Test x and y before the division by z, because the planes have
+                # to be compared on the same side for vertices behind the camera.
+                coords = coords * face_verts[:, :, 2]
+                clip_value = clip_value * face_verts[:, :, 2]
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = coords < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = coords > clip_value
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
-- 
2.43.0


From 8d2389bdddf1d761f84871471b5d52e76331aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 046/164] fix: clip_faces accepts meshes without faces at the
 end of the batch

---
 pytorch3d/renderer/mesh/clip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index c1eda9c..0c8e5e3 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -450,10 +450,11 @@ def clip_faces(
 
     # Update version of mesh_to_face_first_idx and num_faces_per_mesh applicable to
     # face_verts_clipped
-    mesh_to_face_first_idx_clipped = faces_unclipped_to_clipped_idx[
-        mesh_to_face_first_idx
-    ]
     F_clipped_t = torch.full([1], F_clipped, dtype=torch.int64, device=device)
+    # The first index of a mesh without faces at the end of the batch is F.
+    mesh_to_face_first_idx_clipped = torch.cat(
+        (faces_unclipped_to_clipped_idx, F_clipped_t)
+    )[mesh_to_face_first_idx]
     num_faces_next = torch.cat((mesh_to_face_first_idx_clipped[1:], F_clipped_t))
     num_faces_per_mesh_clipped = num_faces_next - mesh_to_face_first_idx_clipped
 
-- 
2.43.0


From a7842882affadd3425ca4fbce226a5f024105a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 047/164] fix: cull_to_frustum keeps the whole of a non square
 image

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..7088b23 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,14 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The longer side of a non square image covers more than [-1, 1].
+        half_w = non_square_ndc_range(im_size[1], im_size[0]) / 2.0
+        half_h = non_square_ndc_range(im_size[0], im_size[1]) / 2.0
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-half_w,
+            right=half_w,
+            top=-half_h,
+            bottom=half_h,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -436,11 +439,14 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The longer side of a non square image covers more than [-1, 1].
+        half_w = non_square_ndc_range(W, H) / 2.0
+        half_h = non_square_ndc_range(H, W) / 2.0
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-half_w,
+            right=half_w,
+            top=-half_h,
+            bottom=half_h,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From 072b993823c5a00c229406826ab1597238b696b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 048/164] fix: PointsRenderer weights use the radius of each
 point and the raster_settings passed in

---
 pytorch3d/renderer/points/renderer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/renderer.py b/pytorch3d/renderer/points/renderer.py
index 9be832d..259a6a5 100644
--- a/pytorch3d/renderer/points/renderer.py
+++ b/pytorch3d/renderer/points/renderer.py
@@ -10,6 +10,8 @@
 import torch
 import torch.nn as nn
 
+from .rasterize_points import _format_radius
+
 
 # A renderer class should be initialized with a
 # function for rasterization and a function for compositing.
@@ -59,7 +61,14 @@ class PointsRenderer(nn.Module):
         # Construct weights based on the distance of a point to the true point.
         # However, this could be done differently: e.g. predicted as opposed
         # to a function of the weights.
-        r = self.rasterizer.raster_settings.radius
+        raster_settings = kwargs.get(
+            "raster_settings", self.rasterizer.raster_settings
+        )
+        r = raster_settings.radius
+        if not isinstance(r, float):
+            # One radius per point, look up the one of the point at each pixel.
+            r = _format_radius(r, point_clouds)[fragments.idx.long()]
+            r = r.permute(0, 3, 1, 2)
 
         dists2 = fragments.dists.permute(0, 3, 1, 2)
         weights = 1 - dists2 / (r * r)
-- 
2.43.0


From db31c42c2086f7b6b4c25ca14972508f95754152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 049/164] fix: phong and flat shading with one material per
 mesh

---
 pytorch3d/renderer/mesh/shading.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..5e709ba 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -38,9 +38,15 @@ def _apply_lighting(
         camera_position=cameras.get_camera_center(),
         shininess=materials.shininess,
     )
+    material_diffuse = materials.diffuse_color
+    material_specular = materials.specular_color
+    if material_diffuse.ndim == 2 and light_diffuse.ndim == 5:
+        # Reshape from (N, 3) to be compatible with (N, H, W, K, 3)
+        material_diffuse = material_diffuse[:, None, None, None, :]
+        material_specular = material_specular[:, None, None, None, :]
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
+    diffuse_color = material_diffuse * light_diffuse
+    specular_color = material_specular * light_specular
 
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
-- 
2.43.0


From 22e955ca1d80922fb571e5a6c5b6791105f5ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 050/164] fix: depth shaders accept one zfar per camera of the
 batch

---
 pytorch3d/renderer/mesh/shader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..eb32339 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -395,9 +395,12 @@ class HardDepthShader(ShaderBase):
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
         mask = fragments.pix_to_face[..., 0:1] < 0
 
-        zbuf = fragments.zbuf[..., 0:1].clone()
-        zbuf[mask] = zfar
-        return zbuf
+        if torch.is_tensor(zfar):
+            # One value per batch element
+            zfar = zfar.to(fragments.zbuf)[:, None, None, None]
+
+        zbuf = fragments.zbuf[..., 0:1]
+        return torch.where(mask, zfar, zbuf)
 
 
 class SoftDepthShader(ShaderBase):
@@ -427,6 +430,9 @@ class SoftDepthShader(ShaderBase):
         mask = fragments.pix_to_face >= 0
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar):
+            # One value per batch element
+            zfar = zfar[:, None, None, None]
 
         # Sigmoid probability map based on the distance of the pixel to the face.
         prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
-- 
2.43.0


From c56b042f249b30b7538c0f2b61d322e56a38dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 051/164] fix: setting one element of a TensorProperties batch
 leaves the others alone

---
 pytorch3d/renderer/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index ea3d655..29a5976 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -72,7 +72,11 @@ class TensorAccessor(nn.Module):
             msg = "Expected value to have len %r; got %r"
             # pyrefly: ignore [bad-argument-type]
             raise ValueError(msg % (len(self.index), len(value)))
-        self.class_object.__dict__[name][self.index] = value
+        # Do not write into v, which may be expanded along the batch or shared with
+        # the tensor the class was created from.
+        v = v.clone()
+        v[self.index] = value
+        setattr(self.class_object, name, v)
 
     # pyrefly: ignore [bad-override]
     def __getattr__(self, name: str):
-- 
2.43.0


From 6acf27901a21dfd678c4c7b29f53f329155f15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 052/164] fix: SoftGouraudShader and SoftDepthShader use the
 blend_params passed to the call

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index eb32339..d6f1b43 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -211,8 +211,9 @@ class SoftGouraudShader(ShaderBase):
         )
         znear = kwargs.get("znear", getattr(cameras, "znear", 1.0))
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        blend_params = kwargs.get("blend_params", self.blend_params)
         images = softmax_rgb_blend(
-            pixel_colors, fragments, self.blend_params, znear=znear, zfar=zfar
+            pixel_colors, fragments, blend_params, znear=znear, zfar=zfar
         )
         return images
 
@@ -435,7 +436,8 @@ class SoftDepthShader(ShaderBase):
             zfar = zfar[:, None, None, None]
 
         # Sigmoid probability map based on the distance of the pixel to the face.
-        prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
+        blend_params = kwargs.get("blend_params", self.blend_params)
+        prob_map = torch.sigmoid(-fragments.dists / blend_params.sigma) * mask
 
         # append extra face for zfar
         dists = torch.cat(
-- 
2.43.0


From 8c6ed8631a56f5b55c53e130496ec09bbad2dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 053/164] fix: gradient of face normals with respect to the z
 coordinate of the second vertex

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals.cu      | 2 +-
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
index 58aeb20..487eff4 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
@@ -180,7 +180,7 @@ __global__ void FaceAreasNormalsBackwardKernel(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals[3 * f + 2];
     atomicAdd(grad_verts + 3 * i1 + 2, grad_v1_z);
diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 1871ac7..42f162e 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -178,7 +178,7 @@ at::Tensor FaceAreasNormalsBackwardCpu(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas_a[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals_a[f][2];
     grad_verts[i1][2] += grad_v1_z;
-- 
2.43.0


From 08f189ca52389fe9aaf635d9d6c26b6ecb496684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 054/164] fix: random ray sampling when more rays than pixels
 are requested

_safe_multinomial falls back to sampling with replacement, but then also
sampled the rows with enough nonzero weights, which fails when there are none.
---
 pytorch3d/renderer/implicit/raysampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index 222e024..ecdd3dd 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -592,7 +592,10 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
         # this is probably rare, so we don't mind sampling twice
         res = torch.multinomial(input, num_samples, replacement=True)
         no_repl = (input > 0.0).sum(dim=-1) >= num_samples
-        res[no_repl] = torch.multinomial(input[no_repl], num_samples, replacement=False)
+        if no_repl.any():
+            res[no_repl] = torch.multinomial(
+                input[no_repl], num_samples, replacement=False
+            )
         return res
 
     # in some versions of Pytorch, zero probabilty samples can be drawn without an error
-- 
2.43.0


From 128fe809bfc4f18dcf514bf500b9d3e2d63f51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 055/164] fix: VolumeSampler on volumes of different sizes

Local coordinates refer to the size of each volume, but the padded tensors
were sampled as if they referred to the size of the largest one.
---
 pytorch3d/renderer/implicit/renderer.py | 47 +++++++++++++++++--------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 963f7d0..8fa08d4 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -302,6 +302,37 @@ class VolumeSampler(torch.nn.Module):
         directions_transform = Transform3d(matrix=directions_transform_matrix)
         return directions_transform
 
+    def _grid_sample(
+        self, volumes_data: torch.Tensor, points_local: torch.Tensor
+    ) -> torch.Tensor:
+        """
+        Sample the padded densities or features of the volumes at points given
+        in the local coords of each volume.
+        """
+        sampler_kwargs = {
+            "mode": self._sample_mode,
+            "padding_mode": self._padding_mode,
+            "align_corners": self._volumes.get_align_corners(),
+        }
+        grid_sizes = self._volumes.get_grid_sizes().tolist()
+        if all(size == list(volumes_data.shape[2:]) for size in grid_sizes):
+            return torch.nn.functional.grid_sample(
+                volumes_data, points_local, **sampler_kwargs
+            )
+        # the local coords refer to the size of each volume without its padding
+        return torch.cat(
+            [
+                torch.nn.functional.grid_sample(
+                    volume[None, :, :depth, :height, :width],
+                    points[None],
+                    **sampler_kwargs,
+                )
+                for volume, points, (depth, height, width) in zip(
+                    volumes_data, points_local, grid_sizes
+                )
+            ]
+        )
+
     def forward(
         self, ray_bundle: Union[RayBundle, HeterogeneousRayBundle], **kwargs
     ) -> Tuple[torch.Tensor, torch.Tensor]:
@@ -381,13 +412,7 @@ class VolumeSampler(torch.nn.Module):
         )
 
         # run the grid sampler on the volumes densities
-        rays_densities = torch.nn.functional.grid_sample(
-            volumes_densities,
-            rays_points_local_flat,
-            mode=self._sample_mode,
-            padding_mode=self._padding_mode,
-            align_corners=self._volumes.get_align_corners(),
-        )
+        rays_densities = self._grid_sample(volumes_densities, rays_points_local_flat)
 
         # permute the dimensions & reshape densities after sampling
         rays_densities = rays_densities.permute(0, 2, 3, 4, 1).view(
@@ -399,13 +424,7 @@ class VolumeSampler(torch.nn.Module):
             dim_feature = 0
             _, rays_features = rays_densities.split([dim_density, dim_feature], dim=-1)
         else:
-            rays_features = torch.nn.functional.grid_sample(
-                volumes_features,
-                rays_points_local_flat,
-                mode=self._sample_mode,
-                padding_mode=self._padding_mode,
-                align_corners=self._volumes.get_align_corners(),
-            )
+            rays_features = self._grid_sample(volumes_features, rays_points_local_flat)
 
             # permute the dimensions & reshape features after sampling
             rays_features = rays_features.permute(0, 2, 3, 4, 1).view(
-- 
2.43.0


From 5ce797381cab6ac6c5d09dc8c1bda9bfb12710a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 056/164] fix: packed_to_padded and padded_to_packed on tensors
 without elements

The feature dimensions were inferred with -1, which is ambiguous when the
tensor is empty, e.g. for rays without points or batches without items.
---
 pytorch3d/ops/packed_to_padded.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/packed_to_padded.py b/pytorch3d/ops/packed_to_padded.py
index 8bc18c2..11e101d 100644
--- a/pytorch3d/ops/packed_to_padded.py
+++ b/pytorch3d/ops/packed_to_padded.py
@@ -93,7 +93,7 @@ def packed_to_padded(
     if n_dims == 1:
         inputs = inputs.unsqueeze(1)
     else:
-        inputs = inputs.reshape(input_shape[0], -1)
+        inputs = inputs.flatten(1)
     inputs_padded = _PackedToPadded.apply(inputs, first_idxs, max_size)
     # if flat is True, reshape output to (N, max_size) from (N, max_size, 1)
     # else reshape output to (N, max_size, ...)
@@ -190,11 +190,11 @@ def padded_to_packed(
     if n_dims == 2:
         inputs = inputs.unsqueeze(2)
     else:
-        inputs = inputs.reshape(*input_shape[:2], -1)
+        inputs = inputs.flatten(2)
     inputs_packed = _PaddedToPacked.apply(inputs, first_idxs, num_inputs)
     # if input is flat, reshape output to (F,) from (F, 1)
     # else reshape output to (F, ...)
     if n_dims == 2:
         return inputs_packed.squeeze(1)
 
-    return inputs_packed.view(-1, *input_shape[2:])
+    return inputs_packed.view(num_inputs, *input_shape[2:])
-- 
2.43.0


From 1d9a0e938c312de20de507282faa39f6de9001ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 057/164] fix: sample_pdf on 5 rows in 4 threads wrote out of
 bounds

With 5 rows in 4 threads each thread got two rows, so that the third one read
and wrote a row after the end of the tensors.
---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..554844b 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -121,6 +121,9 @@ void SamplePdfCpu(
   const int64_t batch_elements_per_thread = 1 + (batch_size - 1) / n_threads;
   int64_t start_batch = 0;
   for (int iThread = 0; iThread < n_threads - 1; ++iThread) {
+    // e.g. 5 elements in 4 threads: the last threads have fewer elements.
+    const int64_t end_batch =
+        std::min(start_batch + batch_elements_per_thread, batch_size);
     threads.emplace_back(
         SamplePdfCpu_worker,
         bins,
@@ -128,8 +131,8 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
-    start_batch += batch_elements_per_thread;
+        end_batch);
+    start_batch = end_batch;
   }
 
   // The remaining batch elements are calculated in this threads. If nThreads is
-- 
2.43.0


From 2b37984cc64a6a246c944fdd744b590ad1926d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 058/164] fix: sample_pdf and sample_pdf_python on a batch
 without rows

---
 pytorch3d/renderer/implicit/sample_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/implicit/sample_pdf.py b/pytorch3d/renderer/implicit/sample_pdf.py
index 7009867..69fd17c 100644
--- a/pytorch3d/renderer/implicit/sample_pdf.py
+++ b/pytorch3d/renderer/implicit/sample_pdf.py
@@ -40,7 +40,7 @@ def sample_pdf(
     """
     if torch.is_grad_enabled() and (bins.requires_grad or weights.requires_grad):
         raise NotImplementedError("sample_pdf differentiability.")
-    if weights.min() <= -eps:
+    if weights.numel() > 0 and weights.min() <= -eps:
         raise ValueError("Negative weights provided.")
     batch_shape = bins.shape[:-1]
     n_bins = weights.shape[-1]
@@ -106,7 +106,7 @@ def sample_pdf_python(
 
     # Get pdf
     weights = weights + eps  # prevent nans
-    if weights.min() <= 0:
+    if weights.numel() > 0 and weights.min() <= 0:
         raise ValueError("Negative weights provided.")
     pdf = weights / weights.sum(dim=-1, keepdim=True)
     cdf = torch.cumsum(pdf, -1)
-- 
2.43.0


From 60bfea54e1e78a7d042b41423eed374c736f6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 059/164] fix: sample_farthest_points for empty clouds and K=0

The first index was written before checking that there is anything to sample:
out of bounds when the cloud or K is zero, and a point of the padding for empty
clouds in a batch.
---
 .../sample_farthest_points.cu                      |  4 ++++
 .../sample_farthest_points_cpu.cpp                 | 14 +++++++++-----
 pytorch3d/ops/sample_farthest_points.py            |  5 +++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
index 5b78862..cd0182b 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
@@ -44,6 +44,10 @@ __global__ void FarthestPointSamplingKernel(
   // If K is greater than the number of points in the pointcloud
   // we only need to iterate until the smaller value is reached.
   const int64_t k_n = min(K[batch_idx], lengths[batch_idx]);
+  if (k_n < 1) {
+    // There is nothing to sample, the indices are only padding.
+    return;
+  }
 
   // Write the first selected point to global memory in the first thread
   int64_t selected = start_idxs[batch_idx];
diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..c530993 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -43,6 +43,15 @@ at::Tensor FarthestPointSamplingCpu(
   std::vector<float> dists(P, std::numeric_limits<float>::max());
 
   for (int64_t n = 0; n < N; ++n) {
+    // For heterogeneous pointclouds, use the minimum of the
+    // length for that cloud compared to K as the number of
+    // points to sample
+    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
+    if (batch_k < 1) {
+      // There is nothing to sample, the indices are only padding.
+      continue;
+    }
+
     // Resize and reset points mask and distances for each batch
     selected_points_mask.resize(lengths_a[n]);
     dists.resize(lengths_a[n]);
@@ -56,11 +65,6 @@ at::Tensor FarthestPointSamplingCpu(
     // Set the value of the mask at this point to false
     selected_points_mask[last_idx] = true;
 
-    // For heterogeneous pointclouds, use the minimum of the
-    // length for that cloud compared to K as the number of
-    // points to sample
-    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
-
     // Iteratively select batch_k points per batch
     for (int64_t k = 1; k < batch_k; ++k) {
       // Iterate through all the points
diff --git a/pytorch3d/ops/sample_farthest_points.py b/pytorch3d/ops/sample_farthest_points.py
index ddcb75a..659ec08 100644
--- a/pytorch3d/ops/sample_farthest_points.py
+++ b/pytorch3d/ops/sample_farthest_points.py
@@ -151,6 +151,11 @@ def sample_farthest_points_naive(
             device=device,
         )
 
+        if min(int(lengths[n]), int(K[n])) < 1:
+            # There is nothing to sample, the indices are only padding.
+            all_sampled_indices.append(sample_idx_batch)
+            continue
+
         # Initialize closest distances to inf, shape: (P,)
         # This will be updated at each iteration to track the closest distance of the
         # remaining points to any of the selected points
-- 
2.43.0


From 547b77f682389c82b0929b84157b76f1c9bd093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 060/164] fix: chamfer_distance with all weights zero

The early return ignored the requested reductions and returned a normal loss
(of the same wrong shape) even without normals; the general code handles it.
---
 pytorch3d/loss/chamfer.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pytorch3d/loss/chamfer.py b/pytorch3d/loss/chamfer.py
index 7d78766..428463d 100644
--- a/pytorch3d/loss/chamfer.py
+++ b/pytorch3d/loss/chamfer.py
@@ -102,9 +102,6 @@ def _chamfer_distance_single_direction(
             raise ValueError("weights must be of shape (N,).")
         if not (weights >= 0).all():
             raise ValueError("weights cannot be negative.")
-        if weights.sum() == 0.0:
-            weights = weights.view(N, 1)
-            return ((x.sum((1, 2)) * weights) * 0.0, (x.sum((1, 2)) * weights) * 0.0)
 
     cham_norm_x = x.new_zeros(())
 
-- 
2.43.0


From 1e48bcf116eb25a1dbbba475a983fc2d4b27ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 061/164] fix: distances of CPU point-mesh kernels in batches
 with empty elements

When several elements of the batch in a row had nothing to measure from, points
were compared with the faces or edges of another element.
---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 35c0b8c..cbb9b11 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -184,7 +184,8 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
   int64_t b_batch_start = 0, b_batch_end = 0;
   int64_t batch_idx = 0;
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
-    if (a_n == a_batch_end) {
+    // A while loop because batch elements may have no a
+    while (a_n == a_batch_end) {
       ++batch_idx;
       b_batch_start = b_batch_end;
       if (batch_idx == BATCHES) {
-- 
2.43.0


From f29be930e0e8752789b735b8f85d3efd8b5e5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 062/164] fix: point-triangle distances for small triangles

Constants added to the denominators moved the projection of a point on a
triangle of area below 1e-4, so that points beside it counted as above it.
---
 pytorch3d/csrc/utils/float_math.cuh     |  4 ++--
 pytorch3d/csrc/utils/geometry_utils.cuh |  4 +++-
 pytorch3d/csrc/utils/geometry_utils.h   | 10 ++++++----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/csrc/utils/float_math.cuh b/pytorch3d/csrc/utils/float_math.cuh
index 2a0e3e3..6ecb277 100644
--- a/pytorch3d/csrc/utils/float_math.cuh
+++ b/pytorch3d/csrc/utils/float_math.cuh
@@ -134,13 +134,13 @@ __device__ inline float norm(const float3& a) {
 }
 
 __device__ inline float3 normalize(const float3& a) {
-  return a / (norm(a) + vEpsilon);
+  return a / fmaxf(norm(a), vEpsilon);
 }
 
 __device__ inline float3 normalize_backward(
     const float3& a,
     const float3& grad_normz) {
-  const float a_norm = norm(a) + vEpsilon;
+  const float a_norm = fmaxf(norm(a), vEpsilon);
   const float3 out = a / a_norm;
 
   const float grad_ax = grad_normz.x * (1.0f - out.x * out.x) / a_norm +
diff --git a/pytorch3d/csrc/utils/geometry_utils.cuh b/pytorch3d/csrc/utils/geometry_utils.cuh
index b18bb54..1946893 100644
--- a/pytorch3d/csrc/utils/geometry_utils.cuh
+++ b/pytorch3d/csrc/utils/geometry_utils.cuh
@@ -517,7 +517,9 @@ __device__ inline float3 BarycentricCoords3Forward(
   const float d20 = dot(p2, p0);
   const float d21 = dot(p2, p1);
 
-  const float denom = d00 * d11 - d01 * d01 + kEpsilon;
+  // The squared norm of the normal; callers exclude degenerate triangles.
+  const float3 normal = cross(p0, p1);
+  const float denom = dot(normal, normal);
   const float w1 = (d11 * d20 - d01 * d21) / denom;
   const float w2 = (d00 * d21 - d01 * d20) / denom;
   const float w0 = 1.0f - w1 - w2;
diff --git a/pytorch3d/csrc/utils/geometry_utils.h b/pytorch3d/csrc/utils/geometry_utils.h
index ad9f7ff..ed56a9b 100644
--- a/pytorch3d/csrc/utils/geometry_utils.h
+++ b/pytorch3d/csrc/utils/geometry_utils.h
@@ -619,7 +619,9 @@ vec3<T> BarycentricCoords3Forward(
   const T d20 = dot(p2, p0);
   const T d21 = dot(p2, p1);
 
-  const T denom = d00 * d11 - d01 * d01 + kEpsilon;
+  // The squared norm of the normal; callers exclude degenerate triangles.
+  const vec3<T> normal = cross(p0, p1);
+  const T denom = dot(normal, normal);
   const T w1 = (d11 * d20 - d01 * d21) / denom;
   const T w2 = (d00 * d21 - d01 * d20) / denom;
   const T w0 = 1.0f - w1 - w2;
@@ -675,7 +677,7 @@ T PointTriangle3DistanceForward(
     const double min_triangle_area) {
   vec3<T> normal = cross(v2 - v0, v1 - v0);
   const T norm_normal = norm(normal);
-  normal = normal / (norm_normal + vEpsilon);
+  normal = normal / std::max<T>(norm_normal, vEpsilon);
 
   // p0 is the projection of p on the plane spanned by (v0, v1, v2)
   // i.e. p0 = p + t * normal, s.t. (p0 - v0) is orthogonal to normal
@@ -719,7 +721,7 @@ cross_backward(const vec3<T>& a, const vec3<T>& b, const vec3<T>& grad_cross) {
 
 template <typename T>
 vec3<T> normalize_backward(const vec3<T>& a, const vec3<T>& grad_normz) {
-  const float a_norm = norm(a) + vEpsilon;
+  const T a_norm = std::max<T>(norm(a), vEpsilon);
   const vec3<T> out = a / a_norm;
 
   const float grad_ax = grad_normz.x * (1.0f - out.x * out.x) / a_norm +
@@ -763,7 +765,7 @@ PointTriangle3DistanceBackward(
   const vec3<T> v0p = v0 - p;
   vec3<T> raw_normal = cross(v2v0, v1v0);
   const T norm_normal = norm(raw_normal);
-  vec3<T> normal = raw_normal / (norm_normal + vEpsilon);
+  vec3<T> normal = raw_normal / std::max<T>(norm_normal, vEpsilon);
 
   // p0 is the projection of p on the plane spanned by (v0, v1, v2)
   // i.e. p0 = p + t * normal, s.t. (p0 - v0) is orthogonal to normal
-- 
2.43.0


From a36fdfee35afb0dd5dce16767c3477085ca820a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 063/164] fix: corresponding_points_alignment minimises the
 weighted squared distances

The weights were applied to both point sets, so that the rotation and scale were
fitted with squared weights around centroids computed with the weights.
---
 pytorch3d/ops/points_alignment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 1ae50cd..8956a71 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -339,9 +339,9 @@ def corresponding_points_alignment(
 
     total_weight = torch.clamp(num_points, 1)
     # special handling for heterogeneous point clouds and/or input weights
+    Xcw = Xc
     if weights is not None:
-        Xc *= weights[:, :, None]
-        Yc *= weights[:, :, None]
+        Xcw = Xc * weights[:, :, None]
         total_weight = torch.clamp(weights.sum(1), eps)
 
     if (num_points < (dim + 1)).any():
@@ -350,8 +350,8 @@ def corresponding_points_alignment(
             + "corresponding_points_alignment cannot return a unique rotation."
         )
 
-    # compute the covariance XYcov between the point sets Xc, Yc
-    XYcov = torch.bmm(Xc.transpose(2, 1), Yc)
+    # compute the (weighted) covariance XYcov between the point sets Xc, Yc
+    XYcov = torch.bmm(Xcw.transpose(2, 1), Yc)
     XYcov = XYcov / total_weight[:, None, None]
 
     # decompose the covariance matrix XYcov
@@ -384,7 +384,7 @@ def corresponding_points_alignment(
     if estimate_scale:
         # estimate the scaling component of the transformation
         trace_ES = (torch.diagonal(E, dim1=1, dim2=2) * S).sum(1)
-        Xcov = (Xc * Xc).sum((1, 2)) / total_weight
+        Xcov = (Xcw * Xc).sum((1, 2)) / total_weight
 
         # the scaling component
         s = trace_ES / torch.clamp(Xcov, eps)
-- 
2.43.0


From 19e9a904b0ca58b3585ae72fb8df10337eae4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 064/164] fix: iterative_closest_point on pairs of clouds of
 the same heterogeneous sizes

The padding of X took part in the alignment when each cloud of X had as many
points as its counterpart in Y.
---
 pytorch3d/ops/points_alignment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 8956a71..fe5536b 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -114,11 +114,8 @@ def iterative_closest_point(
         )
 
     # pyrefly: ignore [missing-attribute]
-    if ((num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any()) and (
-        num_points_Y != num_points_X
-    ).any():
-        # we have a heterogeneous input (e.g. because X/Y is
-        # an instance of Pointclouds)
+    if (num_points_X < Xt.shape[1]).any():
+        # we have a heterogeneous input (because X is an instance of Pointclouds)
         mask_X = (
             torch.arange(size_X, dtype=torch.int64, device=Xt.device)[None]
             < num_points_X[:, None]
-- 
2.43.0


From eb594920f089a1f5776d693fb65abbbf14e7bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 065/164] fix: corresponding_cameras_alignment in mode
 extrinsics returned reflections

The docstring rules them out, but nothing prevented them when the rotations of
source and target cameras differ much.
---
 pytorch3d/ops/cameras_alignment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/cameras_alignment.py b/pytorch3d/ops/cameras_alignment.py
index 5986206..e168fd5 100644
--- a/pytorch3d/ops/cameras_alignment.py
+++ b/pytorch3d/ops/cameras_alignment.py
@@ -177,15 +177,19 @@ def _align_camera_extrinsics(
         R_A R_i = R_i' for all i
         R_A [R_1 R_2 ... R_N] = [R_1' R_2' ... R_N']
         U, _, V = svd([R_1 R_2 ... R_N]^T [R_1' R_2' ... R_N'])
-        R_A = (U V^T)^T
+        R_A = (U E V^T)^T
         ```
+    where the diagonal matrix E makes sure that R_A is not a reflection.
     """
     # pyre-fixme[6]: For 1st argument expected `Tensor` but got `Union[Tensor, Module]`.
     # pyre-fixme[29]: `Union[(self: TensorBase, dim0: int, dim1: int) -> Tensor,
     #  Tensor, Module]` is not a function.
     RRcov = torch.bmm(cameras_src.R, cameras_tgt.R.transpose(2, 1)).mean(0)
     U, _, V = torch.svd(RRcov)
-    align_t_R = V @ U.t()
+    # flip the last singular vector if the result was a reflection otherwise
+    E = torch.ones_like(U[0])
+    E[-1] = torch.det(V @ U.t()).sign()
+    align_t_R = (V * E) @ U.t()
 
     """
     The translation + scale `T_A` and `s_A` is computed by finding
-- 
2.43.0


From 727e512e8a71f8fceba4ab08507588af145805fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 066/164] fix: convergence of iterative_closest_point at zero
 error

The relative decrease was nan when the previous error was zero, so that perfectly
aligned clouds never converged, nor did a batch which contains one.
---
 pytorch3d/ops/points_alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index fe5536b..a2b48a4 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -201,7 +201,10 @@ def iterative_closest_point(
         if prev_rmse is None:
             relative_rmse = rmse.new_ones(b)
         else:
-            relative_rmse = (prev_rmse - rmse) / prev_rmse
+            # the clamp is for prev_rmse == 0, which cannot decrease any more
+            relative_rmse = (prev_rmse - rmse) / prev_rmse.clamp(
+                min=torch.finfo(prev_rmse.dtype).tiny
+            )
 
         if verbose:
             rmse_msg = (
-- 
2.43.0


From d09428ac4a33e06b0f6a04ffd878729cf410a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 067/164] fix: taubin_smoothing returned NaN for isolated
 vertices

---
 pytorch3d/ops/mesh_filtering.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/ops/mesh_filtering.py b/pytorch3d/ops/mesh_filtering.py
index d8f2943..6cdb824 100644
--- a/pytorch3d/ops/mesh_filtering.py
+++ b/pytorch3d/ops/mesh_filtering.py
@@ -46,14 +46,17 @@ def taubin_smoothing(
     verts = meshes.verts_packed()  # V x 3
     edges = meshes.edges_packed()  # E x 3
 
-    for _ in range(num_iter):
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - lambd) * verts + lambd * torch.mm(L, verts) / total_weight
+    # Vertices without any edge have no neighbors to be averaged with.
+    has_edges = torch.zeros(len(verts), 1, dtype=torch.bool, device=verts.device)
+    has_edges[edges.flatten()] = True
 
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - mu) * verts + mu * torch.mm(L, verts) / total_weight
+    for _ in range(num_iter):
+        for factor in (lambd, mu):
+            L = norm_laplacian(verts, edges)
+            total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
+            total_weight = total_weight.masked_fill(~has_edges, 1.0)
+            smoothed = (1 - factor) * verts + factor * torch.mm(L, verts) / total_weight
+            verts = torch.where(has_edges, smoothed, verts)
 
     verts_list = struct_utils.packed_to_list(
         verts, meshes.num_verts_per_mesh().tolist()
-- 
2.43.0


From 66fa8552e42fccc2336f9f2932e5351104f88b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 068/164] fix: textures of sample_points_from_meshes in batches
 with empty meshes

---
 pytorch3d/ops/sample_points_from_meshes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..3fb7a52 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,8 +125,15 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # Empty meshes have no samples: their faces are marked with -1.
+        pix_to_face = sample_face_idxs.new_full((num_meshes, num_samples), -1)
+        pix_to_face[meshes.valid] = sample_face_idxs
+        pix_to_face = pix_to_face[:, :, None, None]  # NxSx1x1
+        bary = torch.zeros(
+            (num_meshes, num_samples, 3), dtype=verts.dtype, device=meshes.device
+        )
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)
+        bary = bary[:, :, None, None]  # NxSx1x1x3
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
             (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
@@ -136,6 +143,7 @@ def sample_points_from_meshes(
         )
         textures = meshes.sample_textures(fragments)  # NxSx1x1xC
         textures = textures[:, :, 0, 0, :]  # NxSxC
+        textures = textures.masked_fill(~meshes.valid[:, None, None], 0.0)
 
     # return
     # TODO(gkioxari) consider returning a Pointclouds instance [breaking]
-- 
2.43.0


From d38f4a024889b3df4f0ea69e22ac482fb3a3bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 069/164] fix: triangles lost after degenerate ones in
 marching_cubes on CPU

---
 .../marching_cubes/marching_cubes_cpu.cpp     | 19 +++++++++---------
 pytorch3d/ops/marching_cubes.py               | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
index fa128e7..184c319 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
@@ -68,16 +68,17 @@ std::tuple<at::Tensor, at::Tensor, at::Tensor> MarchingCubesCpu(
 
           // Check if the triangle face is degenerate. A triangle face
           // is degenerate if any of the two verices share the same 3D position
-          if ((j + 1) % 3 == 0 && ps[0] != ps[1] && ps[1] != ps[2] &&
-              ps[2] != ps[0]) {
-            for (int k = 0; k < 3; k++) {
-              int64_t v = tri.at(k);
-              edge_id_to_v[v] = ps.at(k);
-              if (!uniq_edge_id.count(v)) {
-                uniq_edge_id[v] = verts.size();
-                verts.push_back(edge_id_to_v[v]);
+          if ((j + 1) % 3 == 0) {
+            if (ps[0] != ps[1] && ps[1] != ps[2] && ps[2] != ps[0]) {
+              for (int k = 0; k < 3; k++) {
+                int64_t v = tri.at(k);
+                edge_id_to_v[v] = ps.at(k);
+                if (!uniq_edge_id.count(v)) {
+                  uniq_edge_id[v] = verts.size();
+                  verts.push_back(edge_id_to_v[v]);
+                }
+                faces.push_back(uniq_edge_id[v]);
               }
-              faces.push_back(uniq_edge_id[v]);
             }
             tri.clear();
             ps.clear();
diff --git a/pytorch3d/ops/marching_cubes.py b/pytorch3d/ops/marching_cubes.py
index b6f90d8..d546fd0 100644
--- a/pytorch3d/ops/marching_cubes.py
+++ b/pytorch3d/ops/marching_cubes.py
@@ -198,18 +198,14 @@ def marching_cubes_naive(
                         ps.append(interp_points[edge])
                         # when the isolevel are the same as the edge endpoints, the interploated
                         # vertices can share the same values, and lead to degenerate triangles.
-                        if (
-                            (i + 1) % 3 == 0
-                            and ps[0] != ps[1]
-                            and ps[1] != ps[2]
-                            and ps[2] != ps[0]
-                        ):
-                            for j, edge_id in enumerate(tri):
-                                edge_id_to_v[edge_id] = ps[j]
-                                if edge_id not in uniq_edge_id:
-                                    uniq_edge_id[edge_id] = len(verts)
-                                    verts.append(edge_id_to_v[edge_id])
-                            faces.append([uniq_edge_id[tri[j]] for j in range(3)])
+                        if (i + 1) % 3 == 0:
+                            if ps[0] != ps[1] and ps[1] != ps[2] and ps[2] != ps[0]:
+                                for j, edge_id in enumerate(tri):
+                                    edge_id_to_v[edge_id] = ps[j]
+                                    if edge_id not in uniq_edge_id:
+                                        uniq_edge_id[edge_id] = len(verts)
+                                        verts.append(edge_id_to_v[edge_id])
+                                faces.append([uniq_edge_id[tri[j]] for j in range(3)])
                             tri = []
                             ps = []
 
-- 
2.43.0


From 396426559f258efbe527c2e50dde8b44a0b97e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 070/164] fix: overflow of edge ids in marching_cubes on CPU

---
 pytorch3d/csrc/marching_cubes/marching_cubes_utils.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
index 486e033..e398293 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
@@ -138,8 +138,13 @@ struct Cube {
   int64_t HashVpair(const int edge, int W, int H, int D) {
     const int v1 = _EDGE_TO_VERTICES[edge][0];
     const int v2 = _EDGE_TO_VERTICES[edge][1];
-    const int v1_id = p[v1].x + p[v1].y * W + p[v1].z * W * H;
-    const int v2_id = p[v2].x + p[v2].y * W + p[v2].z * W * H;
-    return (int64_t)v1_id * (W + W * H + W * H * D) + (int64_t)v2_id;
+    // The ids can be too large for exact computations in float or int.
+    const int64_t w = W;
+    const int64_t wh = w * H;
+    const int64_t v1_id =
+        (int64_t)p[v1].x + (int64_t)p[v1].y * w + (int64_t)p[v1].z * wh;
+    const int64_t v2_id =
+        (int64_t)p[v2].x + (int64_t)p[v2].y * w + (int64_t)p[v2].z * wh;
+    return v1_id * (w + wh + wh * D) + v2_id;
   }
 };
-- 
2.43.0


From 856f3fd3ec512929679b9a921b921cb8cfaaa46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 071/164] fix: cubify of voxel grids with dimensions of size 1

---
 pytorch3d/ops/cubify.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/ops/cubify.py b/pytorch3d/ops/cubify.py
index b271d82..c45c1ca 100644
--- a/pytorch3d/ops/cubify.py
+++ b/pytorch3d/ops/cubify.py
@@ -10,7 +10,6 @@
 from typing import Optional
 
 import torch
-import torch.nn.functional as F
 from pytorch3d.common.compat import meshgrid_ij
 from pytorch3d.structures import Meshes
 
@@ -145,18 +144,14 @@ def cubify(
         device=device,
     )
 
-    wx = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 1, 2)
-    wy = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 2, 1)
-    wz = torch.tensor([0.5, 0.5], device=device).view(1, 1, 2, 1, 1)
-
     voxelt = voxels.ge(thresh).float()
     # N x 1 x D x H x W
     voxelt = voxelt.view(N, 1, D, H, W)
 
-    # N x 1 x (D-1) x (H-1) x (W-1)
-    voxelt_x = F.conv3d(voxelt, wx).gt(0.5).float()
-    voxelt_y = F.conv3d(voxelt, wy).gt(0.5).float()
-    voxelt_z = F.conv3d(voxelt, wz).gt(0.5).float()
+    # Pairs of occupied neighbors along x, y and z
+    voxelt_x = voxelt[..., 1:] * voxelt[..., :-1]
+    voxelt_y = voxelt[..., 1:, :] * voxelt[..., :-1, :]
+    voxelt_z = voxelt[..., 1:, :, :] * voxelt[..., :-1, :, :]
 
     # 12 x N x 1 x D x H x W
     faces_idx = torch.ones((cube_faces.size(0), N, 1, D, H, W), device=device)
-- 
2.43.0


From 88a8a865a2f5ad9a2750464a10c9355e8bd18cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 072/164] fix: points_to_volumes gave negative weights outside
 of the volume

---
 .../points_to_volumes/points_to_volumes.cu    | 19 +++++++++++++------
 .../points_to_volumes_cpu.cpp                 | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
index 43d4ed5..fb61deb 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
@@ -24,6 +24,13 @@ using at::RestrictPtrTraits;
 
 // Explanation of the calculation is in the cpp file.
 
+// Splits a location into the largest integer below it and the rest in [0, 1),
+// also if the location is negative (unlike std::modf).
+__device__ static inline float FloorAndFraction(const float location, float* lower) {
+  *lower = std::floor(location);
+  return location - *lower;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static __device__ void EightDirections(T&& t) {
@@ -99,11 +106,11 @@ __global__ void PointsToVolumesForwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = FloorAndFraction(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = FloorAndFraction(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = FloorAndFraction(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight =
@@ -246,11 +253,11 @@ __global__ void PointsToVolumesBackwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = FloorAndFraction(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = FloorAndFraction(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = FloorAndFraction(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight_x = (up_x ? rx : 1 - rx);
diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..608badc 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -31,6 +31,13 @@
 // This can be thought of as saying "location i" means the whole box from
 // (i-0.5) to (i+0.5)
 
+// Splits a location into the largest integer below it and the rest in [0, 1),
+// also if the location is negative (unlike std::modf).
+static inline float FloorAndFraction(const float location, float* lower) {
+  *lower = std::floor(location);
+  return location - *lower;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static void EightDirections(T&& t) {
@@ -129,11 +136,11 @@ void PointsToVolumesForwardCpu(
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = FloorAndFraction(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = FloorAndFraction(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = FloorAndFraction(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         // Define how to fractionally increment one of the 8 locations around
         // the point.
@@ -262,11 +269,11 @@ void PointsToVolumesBackwardCpu(
         increment_location(x, y, z, 1);
       } else {
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = FloorAndFraction(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = FloorAndFraction(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = FloorAndFraction(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
-- 
2.43.0


From 31bda21289bca20cf63bf13f82fbc0e8d9215846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 073/164] fix: add_pointclouds_to_volumes changed its input
 volumes in place

---
 pytorch3d/ops/points_to_volumes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index d099cea..7a03f90 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -286,8 +286,10 @@ def add_pointclouds_to_volumes(
     features_new, densities_new = add_points_features_to_volume_densities_features(
         points_3d=pcl_3d_local,
         points_features=pcl_feats,
-        volume_features=initial_volumes.features(),
-        volume_densities=initial_volumes.densities(),
+        # the volumes are modified in place, but initial_volumes has to stay unchanged
+        # pyre-fixme[16]: `Optional` has no attribute `clone`.
+        volume_features=initial_volumes.features().clone(),
+        volume_densities=initial_volumes.densities().clone(),
         min_weight=min_weight,
         grid_sizes=initial_volumes.get_grid_sizes(),
         mask=mask,
-- 
2.43.0


From d9774f7fc9c0627d0587d56f3d84be6804cccb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 074/164] fix: add_points_features_to_volume_densities_features
 with volume_features=None

---
 pytorch3d/ops/points_to_volumes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index 7a03f90..942dab1 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -409,6 +409,12 @@ def add_points_features_to_volume_densities_features(
     if mask is None:
         mask = points_3d.new_ones(1).expand(points_3d.shape[:2])
 
+    if volume_features is None:
+        # initialize features if not passed in
+        volume_features = volume_densities.new_zeros(
+            ba, feature_dim, *volume_densities.shape[2:]
+        )
+
     volume_densities, volume_features = _points_to_volumes(
         points_3d,
         points_features,
-- 
2.43.0


From fdfcdb401f3d5001d059cffebc2736f9f6e1d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 075/164] fix: python points to volumes ignored align_corners,
 rescale_features and grid sizes

---
 pytorch3d/ops/points_to_volumes.py | 69 +++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index 942dab1..e86f9ee 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -397,6 +397,8 @@ def add_points_features_to_volume_densities_features(
             mask=mask,
             # pyre-fixme[6]: For 8th param expected `LongTensor` but got `Tensor`.
             grid_sizes=grid_sizes,
+            rescale_features=rescale_features,
+            align_corners=align_corners,
         )
 
     if mode == "trilinear":
@@ -447,6 +449,8 @@ def _add_points_features_to_volume_densities_features_python(
     min_weight: float,
     mask: Optional[torch.Tensor],
     grid_sizes: torch.LongTensor,
+    rescale_features: bool,
+    align_corners: bool,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
     Python implementation for add_points_features_to_volume_densities_features.
@@ -477,8 +481,9 @@ def _add_points_features_to_volume_densities_features_python(
             volume_densities_flatten,
             volume_features_flatten,
             grid_sizes,
+            v_shape=v_shape,
+            align_corners=align_corners,
             mask=mask,
-            min_weight=min_weight,
         )
     elif mode == "nearest":  # nearest neighbor interp
         volume_features, volume_densities = _round_points_to_volumes(
@@ -487,11 +492,20 @@ def _add_points_features_to_volume_densities_features_python(
             volume_densities_flatten,
             volume_features_flatten,
             grid_sizes,
+            v_shape=v_shape,
+            align_corners=align_corners,
             mask=mask,
         )
+        min_weight = 1.0
     else:
         raise ValueError('No such interpolation mode "%s"' % mode)
 
+    if rescale_features:
+        # divide each feature by the total weight of the votes
+        volume_features = volume_features / volume_densities.view(
+            ba, 1, n_voxels
+        ).clamp(min_weight)
+
     # reshape into the volume shape
     volume_features = volume_features.view(ba, feature_dim, *v_shape)
     volume_densities = volume_densities.view(ba, 1, *v_shape)
@@ -533,13 +547,27 @@ def _check_points_to_volumes_inputs(
         )
 
 
+def _local_coords_to_indices(
+    points_3d: torch.Tensor, grid_sizes_xyz: torch.Tensor, align_corners: bool
+) -> torch.Tensor:
+    """
+    Convert local coordinates of shape (minibatch, N, 3) in the range [-1, 1]
+    to (fractional) indices into grids of the given sizes.
+    """
+    sizes = grid_sizes_xyz[:, None].type_as(points_3d)
+    if align_corners:
+        return (points_3d + 1) * 0.5 * (sizes - 1)
+    return (points_3d + 1) * 0.5 * sizes - 0.5
+
+
 def _splat_points_to_volumes(
     points_3d: torch.Tensor,
     points_features: torch.Tensor,
     volume_densities: torch.Tensor,
     volume_features: torch.Tensor,
     grid_sizes: torch.LongTensor,
-    min_weight: float = 1e-4,
+    v_shape: Tuple[int, int, int],
+    align_corners: bool = True,
     mask: Optional[torch.Tensor] = None,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
@@ -561,10 +589,10 @@ def _splat_points_to_volumes(
             opaqueness (the higher, the less transparent).
         grid_sizes: `LongTensor` of shape (minibatch, 3) representing the
             spatial resolutions of each of the the non-flattened `volumes` tensors.
+        v_shape: Padded spatial resolution of the non-flattened tensors.
             Note that the following has to hold:
-                `torch.prod(grid_sizes, dim=1)==N_voxels`
-        min_weight: A scalar controlling the lowest possible total per-voxel
-            weight used to normalize the features accumulated in a voxel.
+                `v_shape[0] * v_shape[1] * v_shape[2] == N_voxels`
+        align_corners: as for grid_sample.
         mask: A binary mask of shape `(minibatch, N)` determining which 3D points
             are going to be converted to the resulting volume.
             Set to `None` if all points are valid.
@@ -595,8 +623,9 @@ def _splat_points_to_volumes(
 
     # Convert from points_3d in the range [-1, 1] to
     # indices in the volume grid in the range [0, grid_sizes_xyz-1]
-    points_3d_indices = ((points_3d + 1) * 0.5) * (
-        grid_sizes_xyz[:, None].type_as(points_3d) - 1
+    # (or [-0.5, grid_sizes_xyz-0.5] if not align_corners)
+    points_3d_indices = _local_coords_to_indices(
+        points_3d, grid_sizes_xyz, align_corners
     )
     XYZ = points_3d_indices.floor().long()
     rXYZ = points_3d_indices - XYZ.type_as(points_3d)  # remainder of floor
@@ -636,9 +665,7 @@ def _splat_points_to_volumes(
                 ).long()
 
                 # linearized indices into the volume
-                idx = (Z_ * grid_sizes[:, None, 1:2] + Y_) * grid_sizes[
-                    :, None, 2:3
-                ] + X_
+                idx = (Z_ * v_shape[1] + Y_) * v_shape[2] + X_
 
                 # out-of-bounds features added to a random voxel idx with weight=0.
                 idx_valid = idx * valid + rand_idx * (1 - valid)
@@ -662,11 +689,6 @@ def _splat_points_to_volumes(
                 # volume_features of shape (minibatch, feature_dim, n_voxels)
                 volume_features.scatter_add_(2, idx_valid, w_valid * points_features)
 
-    # divide each feature by the total weight of the votes
-    volume_features = volume_features / volume_densities.view(ba, 1, n_voxels).clamp(
-        min_weight
-    )
-
     return volume_features, volume_densities
 
 
@@ -676,6 +698,8 @@ def _round_points_to_volumes(
     volume_densities: torch.Tensor,
     volume_features: torch.Tensor,
     grid_sizes: torch.LongTensor,
+    v_shape: Tuple[int, int, int],
+    align_corners: bool = True,
     mask: Optional[torch.Tensor] = None,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
@@ -698,8 +722,10 @@ def _round_points_to_volumes(
             opaqueness (the higher, the less transparent).
         grid_sizes: `LongTensor` of shape (minibatch, 3) representing the
             spatial resolutions of each of the the non-flattened `volumes` tensors.
+        v_shape: Padded spatial resolution of the non-flattened tensors.
             Note that the following has to hold:
-                `torch.prod(grid_sizes, dim=1)==N_voxels`
+                `v_shape[0] * v_shape[1] * v_shape[2] == N_voxels`
+        align_corners: as for grid_sample.
         mask: A binary mask of shape `(minibatch, N)` determining which 3D points
             are going to be converted to the resulting volume.
             Set to `None` if all points are valid.
@@ -727,9 +753,7 @@ def _round_points_to_volumes(
     # round the coordinates to nearest integer
     # grid_sizes is of the form (minibatch, depth-height-width)
     grid_sizes_xyz = grid_sizes[:, [2, 1, 0]]
-    XYZ = ((points_3d.detach() + 1) * 0.5) * (
-        grid_sizes_xyz[:, None].type_as(points_3d) - 1
-    )
+    XYZ = _local_coords_to_indices(points_3d.detach(), grid_sizes_xyz, align_corners)
     XYZ = torch.round(XYZ).long()
 
     # split into separate coordinate vectors
@@ -754,7 +778,7 @@ def _round_points_to_volumes(
     rand_idx = valid.new_zeros(X.shape).random_(0, n_voxels)
 
     # linearized indices into the volume
-    idx = (Z * grid_sizes[:, None, 1:2] + Y) * grid_sizes[:, None, 2:3] + X
+    idx = (Z * v_shape[1] + Y) * v_shape[2] + X
 
     # out-of-bounds features added to a random voxel idx with weight=0.
     idx_valid = idx * valid + rand_idx * (1 - valid)
@@ -771,9 +795,4 @@ def _round_points_to_volumes(
     # volume_features of shape (minibatch, feature_dim, n_voxels)
     volume_features.scatter_add_(2, idx_valid, w_valid * points_features)
 
-    # divide each feature by the total weight of the votes
-    volume_features = volume_features / volume_densities.view(ba, 1, n_voxels).clamp(
-        1.0
-    )
-
     return volume_features, volume_densities
-- 
2.43.0


From b8990ffe45f057cd646acb11b69edacc34583266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 076/164] fix: vert_align return_packed for pointclouds

---
 pytorch3d/ops/vert_align.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/ops/vert_align.py b/pytorch3d/ops/vert_align.py
index fd1a90d..d46821e 100644
--- a/pytorch3d/ops/vert_align.py
+++ b/pytorch3d/ops/vert_align.py
@@ -96,12 +96,13 @@ def vert_align(
     if return_packed:
         # flatten the first two dimensions: (N*V, C)
         feats_sampled = feats_sampled.view(-1, feats_sampled.shape[-1])
-        if hasattr(verts, "verts_padded_to_packed_idx"):
-            idx = (
-                verts.verts_padded_to_packed_idx()
-                .view(-1, 1)
-                .expand(-1, feats_sampled.shape[-1])
-            )
+        idx = None
+        if hasattr(verts, "verts_padded_to_packed_idx"):  # e.g. Meshes
+            idx = verts.verts_padded_to_packed_idx()
+        elif hasattr(verts, "padded_to_packed_idx"):  # e.g. Pointclouds
+            idx = verts.padded_to_packed_idx()
+        if idx is not None:
+            idx = idx.view(-1, 1).expand(-1, feats_sampled.shape[-1])
             feats_sampled = feats_sampled.gather(0, idx)  # (sum(V), C)
 
     return feats_sampled
-- 
2.43.0


From e1f5bd02aa13fdcdfca464f6cf518130fefc280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 077/164] fix: symeig3x3 for matrices of large and small scale

---
 pytorch3d/common/workaround/symeig3x3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/common/workaround/symeig3x3.py b/pytorch3d/common/workaround/symeig3x3.py
index ca73660..3896ffa 100644
--- a/pytorch3d/common/workaround/symeig3x3.py
+++ b/pytorch3d/common/workaround/symeig3x3.py
@@ -77,6 +77,11 @@ class _SymEig3x3(nn.Module):
         if inputs.shape[-2:] != (3, 3):
             raise ValueError("Only inputs of shape (..., 3, 3) are supported.")
 
+        # The epsilons used below are meant for entries of magnitude 1.
+        scale = inputs.detach().abs().amax(dim=(-1, -2))
+        scale = torch.where(scale > 0, scale, torch.ones_like(scale))
+        inputs = inputs / scale[..., None, None]
+
         inputs_diag = inputs.diagonal(dim1=-2, dim2=-1)
         inputs_trace = inputs_diag.sum(-1)
         q = inputs_trace / 3.0
@@ -120,7 +125,7 @@ class _SymEig3x3(nn.Module):
         else:
             eigenvecs = None
 
-        return eigenvals, eigenvecs
+        return eigenvals * scale[..., None], eigenvecs
 
     def _construct_eigenvecs_set(
         self, inputs: torch.Tensor, eigenvals: torch.Tensor
-- 
2.43.0


From 90b91b73b05608bff4a227dd0080d95924c60f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 078/164] fix: coplanarity of faces in box3d_overlap on CPU

Triangles of boxes turned by about one degree were taken to be coplanar if the
pair of most distant corners happened to be orthogonal to the normal, and
coplanar faces of small boxes were counted twice, because the area was compared
with an absolute threshold. Decide once per pair of faces, from the distances
of the corners of each face to the plane of the other. The CUDA version is
unchanged.
---
 pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp |  38 +--
 pytorch3d/csrc/iou_box3d/iou_utils.h       | 322 +++++++--------------
 2 files changed, 116 insertions(+), 244 deletions(-)

diff --git a/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp b/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
index 14310ad..93dd85d 100644
--- a/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
+++ b/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
@@ -61,37 +61,19 @@ std::tuple<at::Tensor, at::Tensor> IoUBox3DCpu(
       //    will be broken into subtriangles such that each subtriangle is full
       //    inside the plane and part of the intersecting tetrahedron.
 
+      // Where a face of Box1 and a face of Box2 are coplanar, the triangles
+      // of Box1 are used and those of Box2 are removed.
+
       // Tris in Box1 -> Planes in Box2
-      face_verts box1_intersect =
-          BoxIntersections(box1_tris, box2_planes, box2_center);
+      face_verts box1_intersect = BoxIntersections(
+          box1_tris, box1_planes, box2_planes, box2_center, true);
       // Tris in Box2 -> Planes in Box1
-      face_verts box2_intersect =
-          BoxIntersections(box2_tris, box1_planes, box1_center);
-
-      // If there are overlapping regions in Box2, remove any coplanar faces
-      if (box2_intersect.size() > 0) {
-        // Identify if any triangles in Box2 are coplanar with Box1
-        std::vector<int> tri2_keep(box2_intersect.size());
-        std::fill(tri2_keep.begin(), tri2_keep.end(), 1);
-        for (int b1 = 0; b1 < box1_intersect.size(); ++b1) {
-          for (int b2 = 0; b2 < box2_intersect.size(); ++b2) {
-            const bool is_coplanar =
-                IsCoplanarTriTri(box1_intersect[b1], box2_intersect[b2]);
-            const float area = FaceArea(box1_intersect[b1]);
-            if ((is_coplanar) && (area > aEpsilon)) {
-              tri2_keep[b2] = 0;
-            }
-          }
-        }
+      const face_verts box2_intersect = BoxIntersections(
+          box2_tris, box2_planes, box1_planes, box1_center, false);
 
-        // Keep only the non coplanar triangles in Box2 - add them to the
-        // Box1 triangles.
-        for (int b2 = 0; b2 < box2_intersect.size(); ++b2) {
-          if (tri2_keep[b2] == 1) {
-            box1_intersect.push_back((box2_intersect[b2]));
-          }
-        }
-      }
+      // Add the triangles of Box2 to the Box1 triangles.
+      box1_intersect.insert(
+          box1_intersect.end(), box2_intersect.begin(), box2_intersect.end());
 
       // Initialize the vol and iou to 0.0 in case there are no triangles
       // in the intersecting shape.
diff --git a/pytorch3d/csrc/iou_box3d/iou_utils.h b/pytorch3d/csrc/iou_box3d/iou_utils.h
index 283822a..d7ca343 100644
--- a/pytorch3d/csrc/iou_box3d/iou_utils.h
+++ b/pytorch3d/csrc/iou_box3d/iou_utils.h
@@ -18,13 +18,10 @@
 #include <type_traits>
 #include "utils/vec3.h"
 
-// dEpsilon: Used in dot products and is used to assess whether two unit vectors
-// are orthogonal (or coplanar). It's an epsilon on cos(θ).
-// With dEpsilon = 0.001, two unit vectors are considered co-planar
-// if their θ = 2.5 deg.
-const auto dEpsilon = 1e-3;
-// aEpsilon: Used once in main function to check for small face areas
-const auto aEpsilon = 1e-4;
+// pEpsilon: Used to assess whether the faces of two boxes are coplanar. It is
+// the largest distance of the corners of each face to the plane of the other
+// face, relative to the largest distance between the corners.
+const auto pEpsilon = 1e-4;
 // kEpsilon: Used only for norm(u) = u/max(||u||, kEpsilon)
 const auto kEpsilon = 1e-8;
 
@@ -59,6 +56,9 @@ const int _TRIS[12][3] = {
     {0, 4, 5},
 };
 
+// _TRI_PLANES gives the index into _PLANES of the face each triangle is part of
+const int _TRI_PLANES[12] = {0, 0, 5, 5, 4, 4, 3, 3, 1, 1, 2, 2};
+
 // Create a new data type for representing the
 // verts for each face which can be triangle or plane.
 // This helps make the code more readable.
@@ -151,51 +151,6 @@ inline vec3<float> GetNormal(const vec3<float> e0, const vec3<float> e1) {
   return n;
 }
 
-// The center of a triangle tri
-//
-// Args
-//    tri: vec3 coordinates of the vertices of the triangle
-//
-// Returns
-//    vec3: center of the triangle
-//
-inline vec3<float> TriCenter(const std::vector<vec3<float>>& tri) {
-  // Vertices of the triangle
-  const vec3<float> v0 = tri[0];
-  const vec3<float> v1 = tri[1];
-  const vec3<float> v2 = tri[2];
-
-  return (v0 + v1 + v2) / 3.0f;
-}
-
-// The normal of the triangle defined by vertices (v0, v1, v2)
-// We find the "best" edges connecting the face center to the vertices,
-// such that the cross product between the edges is maximized.
-//
-// Args
-//    tri: vec3 coordinates of the vertices of the face
-//
-// Returns
-//    vec3: normal for the face
-//
-inline vec3<float> TriNormal(const std::vector<vec3<float>>& tri) {
-  // Get center of triangle
-  const vec3<float> ctr = TriCenter(tri);
-
-  // find the "best" normal as cross product of edges from center
-  float max_dist = -1.0f;
-  vec3<float> n = {0.0f, 0.0f, 0.0f};
-  for (int i = 0; i < 2; ++i) {
-    for (int j = i + 1; j < 3; ++j) {
-      const float dist = norm(cross(tri[i] - ctr, tri[j] - ctr));
-      if (dist > max_dist) {
-        n = GetNormal(tri[i] - ctr, tri[j] - ctr);
-      }
-    }
-  }
-  return n;
-}
-
 // The center of a plane
 //
 // Args
@@ -242,26 +197,6 @@ inline vec3<float> PlaneNormal(const std::vector<vec3<float>>& plane) {
   return n;
 }
 
-// The area of the face defined by vertices (v0, v1, v2)
-// Define e0 to be the edge connecting (v1, v0)
-// Define e1 to be the edge connecting (v2, v0)
-// Area is the norm of the cross product of e0, e1 divided by 2.0
-//
-// Args
-//    tri: vec3 coordinates of the vertices of the face
-//
-// Returns
-//    float: area for the face
-//
-inline float FaceArea(const std::vector<vec3<float>>& tri) {
-  // Get verts for face
-  const vec3<float> v0 = tri[0];
-  const vec3<float> v1 = tri[1];
-  const vec3<float> v2 = tri[2];
-  const vec3<float> n = cross(v1 - v0, v2 - v0);
-  return norm(n) / 2.0;
-}
-
 // The normal of a box plane defined by the verts in `plane` such that it
 // points toward the centroid of the box given by `center`.
 //
@@ -386,21 +321,19 @@ inline vec3<float> PolyhedronCenter(const face_verts& tris) {
   return center;
 }
 
-// Compute a boolean indicator for whether a point
-// is inside a plane, where inside refers to whether
-// or not the point has a component in the
-// normal direction of the plane.
+// Compute the signed distance of a point to a plane, which is positive
+// if the point has a component in the normal direction of the plane.
 //
 // Args
 //    plane: vector of vec3 coordinates of the
-//       vertices of each of the triangles in the box
+//       vertices of the plane
 //    normal: vec3 of the direction of the plane normal
 //    point: vec3 of the position of the point of interest
 //
 // Returns
-//    bool: whether or not the point is inside the plane
+//    float: the signed distance of the point to the plane
 //
-inline bool IsInside(
+inline float PlaneDistance(
     const std::vector<vec3<float>>& plane,
     const vec3<float>& normal,
     const vec3<float>& point) {
@@ -412,17 +345,37 @@ inline bool IsInside(
   // c = (point - plane_ctr - a * e0 - b * e1).dot(n)
   // We know that <e0, n> = 0 and <e1, n> = 0
   // So the calculation can be simplified as:
-  const float c = dot((point - plane_ctr), normal);
-  const bool inside = c >= 0.0f;
-  return inside;
+  return dot((point - plane_ctr), normal);
+}
+
+// Compute a boolean indicator for whether a point
+// is inside a plane, where inside refers to whether
+// or not the point has a component in the
+// normal direction of the plane.
+//
+// Args
+//    plane: vector of vec3 coordinates of the
+//       vertices of the plane
+//    normal: vec3 of the direction of the plane normal
+//    point: vec3 of the position of the point of interest
+//
+// Returns
+//    bool: whether or not the point is inside the plane
+//
+inline bool IsInside(
+    const std::vector<vec3<float>>& plane,
+    const vec3<float>& normal,
+    const vec3<float>& point) {
+  return PlaneDistance(plane, normal, point) >= 0.0f;
 }
 
 // Find the point of intersection between a plane
-// and a line given by the end points (p0, p1)
+// and a line given by the end points (p0, p1), which
+// are on different sides of the plane
 //
 // Args
 //    plane: vector of vec3 coordinates of the
-//       vertices of each of the triangles in the box
+//       vertices of the plane
 //    normal: vec3 of the direction of the plane normal
 //    p0, p1: vec3 of the start and end point of the line
 //
@@ -434,124 +387,47 @@ inline vec3<float> PlaneEdgeIntersection(
     const vec3<float>& normal,
     const vec3<float>& p0,
     const vec3<float>& p1) {
-  // The center of the plane
-  const vec3<float> plane_ctr = PlaneCenter(plane);
-
   // The point of intersection can be parametrized
   // p = p0 + a (p1 - p0) where a in [0, 1]
   // We want to find a such that p is on plane
   // <p - ctr, n> = 0
-
-  vec3<float> direc = p1 - p0;
-  direc = direc / std::fmaxf(norm(direc), kEpsilon);
-
-  vec3<float> p = (p1 + p0) / 2.0f;
-
-  if (std::abs(dot(direc, normal)) >= dEpsilon) {
-    const float top = -1.0f * dot(p0 - plane_ctr, normal);
-    const float bot = dot(p1 - p0, normal);
-    const float a = top / bot;
-    p = p0 + a * (p1 - p0);
-  }
-  return p;
-}
-
-// Compute the most distant points between two sets of vertices
-//
-// Args
-//    verts1, verts2: vec3 defining the list of vertices
-//
-// Returns
-//    v1m, v2m: vec3 vectors of the most distant points
-//          in verts1 and verts2 respectively
-//
-inline std::tuple<vec3<float>, vec3<float>> ArgMaxVerts(
-    const std::vector<vec3<float>>& verts1,
-    const std::vector<vec3<float>>& verts2) {
-  vec3<float> v1m = {0.0f, 0.0f, 0.0f};
-  vec3<float> v2m = {0.0f, 0.0f, 0.0f};
-  float maxdist = -1.0f;
-
-  for (const auto& v1 : verts1) {
-    for (const auto& v2 : verts2) {
-      if (norm(v1 - v2) > maxdist) {
-        v1m = v1;
-        v2m = v2;
-        maxdist = norm(v1 - v2);
-      }
-    }
-  }
-  return std::make_tuple(v1m, v2m);
-}
-
-// Compute a boolean indicator for whether or not two faces
-// are coplanar
-//
-// Args
-//    tri1, tri2: std:vector<vec3> of the vertex coordinates of
-//        triangle faces
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-inline bool IsCoplanarTriTri(
-    const std::vector<vec3<float>>& tri1,
-    const std::vector<vec3<float>>& tri2) {
-  // Get normal for tri 1
-  const vec3<float> n1 = TriNormal(tri1);
-
-  // Get normal for tri 2
-  const vec3<float> n2 = TriNormal(tri2);
-
-  // Check if parallel
-  const bool check1 = std::abs(dot(n1, n2)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  auto argvs = ArgMaxVerts(tri1, tri2);
-  const auto v1m = std::get<0>(argvs);
-  const auto v2m = std::get<1>(argvs);
-
-  vec3<float> n12m = v1m - v2m;
-  n12m = n12m / std::fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = (std::abs(dot(n12m, n1)) < dEpsilon) ||
-      (std::abs(dot(n12m, n2)) < dEpsilon);
-
-  return (check1 && check2);
+  const float d0 = PlaneDistance(plane, normal, p0);
+  const float d1 = PlaneDistance(plane, normal, p1);
+  // d0 and d1 have different signs
+  const float a = d0 / (d0 - d1);
+  return p0 + a * (p1 - p0);
 }
 
-// Compute a boolean indicator for whether or not a triangular and a planar
-// face are coplanar
+// Compute a boolean indicator for whether or not two planar faces
+// are coplanar. Note that this does not depend on the order of the faces.
 //
 // Args
-//    tri, plane: std:vector<vec3> of the vertex coordinates of
-//        triangular face and planar face
-//    normal: the normal direction of the plane pointing "inside"
+//    plane1, plane2: std:vector<vec3> of the vertex coordinates of
+//        the planar faces
 //
 // Returns
 //    bool: whether or not the two faces are coplanar
 //
-inline bool IsCoplanarTriPlane(
-    const std::vector<vec3<float>>& tri,
-    const std::vector<vec3<float>>& plane,
-    const vec3<float>& normal) {
-  // Get normal for tri
-  const vec3<float> nt = TriNormal(tri);
-
-  // check if parallel
-  const bool check1 = std::abs(dot(nt, normal)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  auto argvs = ArgMaxVerts(tri, plane);
-  const auto v1m = std::get<0>(argvs);
-  const auto v2m = std::get<1>(argvs);
-
-  vec3<float> n12m = v1m - v2m;
-  n12m = n12m / std::fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = std::abs(dot(n12m, normal)) < dEpsilon;
-
-  return (check1 && check2);
+inline bool IsCoplanarPlanePlane(
+    const std::vector<vec3<float>>& plane1,
+    const std::vector<vec3<float>>& plane2) {
+  const vec3<float> n1 = PlaneNormal(plane1);
+  const vec3<float> n2 = PlaneNormal(plane2);
+
+  float maxdist = 0.0f;
+  float maxoff = 0.0f;
+  for (const auto& v1 : plane1) {
+    for (const auto& v2 : plane2) {
+      maxdist = std::fmaxf(maxdist, norm(v1 - v2));
+    }
+  }
+  for (const auto& v1 : plane1) {
+    maxoff = std::fmaxf(maxoff, std::abs(PlaneDistance(plane2, n2, v1)));
+  }
+  for (const auto& v2 : plane2) {
+    maxoff = std::fmaxf(maxoff, std::abs(PlaneDistance(plane1, n1, v2)));
+  }
+  return maxoff <= pEpsilon * maxdist;
 }
 
 // Triangle is clipped into a quadrilateral
@@ -638,14 +514,6 @@ inline face_verts ClipTriByPlane(
   const vec3<float> v1 = tri[1];
   const vec3<float> v2 = tri[2];
 
-  // Check coplanar
-  const bool iscoplanar = IsCoplanarTriPlane(tri, plane, normal);
-  if (iscoplanar) {
-    // Return input vertices
-    face_verts tris = {{v0, v1, v2}};
-    return tris;
-  }
-
   // Check each of the triangle vertices to see if it is inside the plane
   const bool isin0 = IsInside(plane, normal, v0);
   const bool isin1 = IsInside(plane, normal, v1);
@@ -697,9 +565,12 @@ inline face_verts ClipTriByPlane(
 // Args
 //    tris: vertex coordinates of all the triangle faces
 //       in the box
-//    planes: vertex coordinates of all the planes in the box
+//    tri_planes: vertex coordinates of all the planes in the box
+//    planes: vertex coordinates of all the planes in the other box
 //    center: vec3 coordinates of the center of the box from which
 //        the planes originate
+//    keep_coplanar: whether the faces which are coplanar to one of the
+//        planes are part of the output
 //
 // Returns
 //    std::vector<std::vector<vec3>>> vector of vertex coordinates
@@ -708,26 +579,45 @@ inline face_verts ClipTriByPlane(
 //
 inline face_verts BoxIntersections(
     const face_verts& tris,
+    const face_verts& tri_planes,
     const face_verts& planes,
-    const vec3<float>& center) {
-  // Create a new vector to avoid modifying in place
-  face_verts out_tris = tris;
-  for (int p = 0; p < NUM_PLANES; ++p) {
-    // Get plane normal direction
-    const vec3<float> n2 = PlaneNormalDirection(planes[p], center);
-    // Iterate through triangles in tris
-    // Create intermediate vector to store the updated tris
-    face_verts tri_verts_updated;
-    for (int t = 0; t < out_tris.size(); ++t) {
-      // Clip tri by plane
-      const face_verts tri_updated = ClipTriByPlane(planes[p], out_tris[t], n2);
-      // Add to the tri_verts_updated output if not empty
-      for (int v = 0; v < tri_updated.size(); ++v) {
-        tri_verts_updated.push_back(tri_updated[v]);
+    const vec3<float>& center,
+    const bool keep_coplanar) {
+  // Identify the planes which are coplanar
+  bool coplanar[NUM_PLANES][NUM_PLANES];
+  for (int q = 0; q < NUM_PLANES; ++q) {
+    for (int p = 0; p < NUM_PLANES; ++p) {
+      coplanar[q][p] = IsCoplanarPlanePlane(tri_planes[q], planes[p]);
+    }
+  }
+
+  face_verts out_tris;
+  // Iterate through triangles in tris
+  for (int t = 0; t < NUM_TRIS; ++t) {
+    face_verts tri_verts = {tris[t]};
+    for (int p = 0; p < NUM_PLANES; ++p) {
+      if (coplanar[_TRI_PLANES[t]][p]) {
+        if (!keep_coplanar) {
+          tri_verts.clear();
+        }
+        continue;
+      }
+      // Get plane normal direction
+      const vec3<float> n2 = PlaneNormalDirection(planes[p], center);
+      // Create intermediate vector to store the updated tris
+      face_verts tri_verts_updated;
+      for (int v = 0; v < tri_verts.size(); ++v) {
+        // Clip tri by plane
+        const face_verts tri_updated =
+            ClipTriByPlane(planes[p], tri_verts[v], n2);
+        // Add to the tri_verts_updated output if not empty
+        tri_verts_updated.insert(
+            tri_verts_updated.end(), tri_updated.begin(), tri_updated.end());
       }
+      // Update the tris
+      tri_verts = tri_verts_updated;
     }
-    // Update the tris
-    out_tris = tri_verts_updated;
+    out_tris.insert(out_tris.end(), tri_verts.begin(), tri_verts.end());
   }
   return out_tris;
 }
-- 
2.43.0


From 50e22c72e3c3d6a9a580a9b46c435b1f9da6d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 079/164] fix: remove_unused_components with member names which
 are prefixes of others

---
 pytorch3d/implicitron/tools/config.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 431be1a..c390307 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -1192,6 +1192,20 @@ def remove_unused_components(dict_: DictConfig) -> None:
     suffix_length = len(TYPE_SUFFIX)
     replaceables = [key[:-suffix_length] for key in keys if key.endswith(TYPE_SUFFIX)]
     args_keys = [key for key in keys if key.endswith(ARGS_SUFFIX)]
+    suffix_length = len(ENABLED_SUFFIX)
+    enableables = [key[:-suffix_length] for key in keys if key.endswith(ENABLED_SUFFIX)]
+
+    def _belongs_to(key: str, replaceable: str) -> bool:
+        # The name of a member can start with the name of another one.
+        if not key.startswith(replaceable + "_"):
+            return False
+        if key[: -len(ARGS_SUFFIX)] in enableables:
+            return False
+        return not any(
+            len(other) > len(replaceable) and key.startswith(other + "_")
+            for other in replaceables
+        )
+
     for replaceable in replaceables:
         selected_type = dict_[replaceable + TYPE_SUFFIX]
         if selected_type is None:
@@ -1200,11 +1214,9 @@ def remove_unused_components(dict_: DictConfig) -> None:
             expect = replaceable + "_" + selected_type + ARGS_SUFFIX
         with open_dict(dict_):
             for key in args_keys:
-                if key.startswith(replaceable + "_") and key != expect:
+                if key != expect and _belongs_to(key, replaceable):
                     del dict_[key]
 
-    suffix_length = len(ENABLED_SUFFIX)
-    enableables = [key[:-suffix_length] for key in keys if key.endswith(ENABLED_SUFFIX)]
     for enableable in enableables:
         enabled = dict_[enableable + ENABLED_SUFFIX]
         if not enabled:
-- 
2.43.0


From 0c2096fb3bbd020b5802c15714f8c79d1c67a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 080/164] fix: members of deep Configurable hierarchies were
 created several times

---
 pytorch3d/implicitron/tools/config.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index c390307..9f48700 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -893,8 +893,18 @@ def expand_args_fields(
             continue
         expand_args_fields(base, _do_not_process=_do_not_process)
         if "_creation_functions" in base.__dict__:
-            # pyrefly: ignore [missing-attribute]
-            creation_functions.extend(base._creation_functions)
+            # Those which base inherits have been added with its own bases.
+            inherited = {
+                function
+                for parent in base.mro()[1:]
+                for function in parent.__dict__.get("_creation_functions", ())
+            }
+            creation_functions.extend(
+                function
+                # pyrefly: ignore [missing-attribute]
+                for function in base._creation_functions
+                if function not in inherited
+            )
         if "_known_implementations" in base.__dict__:
             # pyrefly: ignore [missing-attribute]
             known_implementations.update(base._known_implementations)
-- 
2.43.0


From 5f53de576e3737b36c2508e9d7a6b5493832dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 081/164] fix: resize_image could lose a row or column, or fail
 on thin images

---
 pytorch3d/implicitron/dataset/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/utils.py b/pytorch3d/implicitron/dataset/utils.py
index c8c9726..ae379b8 100644
--- a/pytorch3d/implicitron/dataset/utils.py
+++ b/pytorch3d/implicitron/dataset/utils.py
@@ -226,12 +226,16 @@ def resize_image(
         image_width / image.shape[-1],
     )
 
+    # Compute the size explicitly: floor(size * minscale) can be a pixel too small, or 0.
+    new_size = [
+        min(max(int(size * minscale + 1e-6), 1), max_size)
+        for size, max_size in zip(image.shape[-2:], (image_height, image_width))
+    ]
     imre = torch.nn.functional.interpolate(
         image[None],
-        scale_factor=minscale,
+        size=new_size,
         mode=mode,
         align_corners=False if mode == "bilinear" else None,
-        recompute_scale_factor=True,
     )[0]
 
     imre_ = torch.zeros(image.shape[0], image_height, image_width)
-- 
2.43.0


From fd07de4bf8855ef08b39a21756f5cad1f54e0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 082/164] fix: mask_crop of FrameData when cropping or resizing
 a resized frame

---
 pytorch3d/implicitron/dataset/frame_data.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5ec6214..70dbff2 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -294,6 +294,13 @@ class FrameData(Mapping[str, Any]):
                 self.image_path,  # pyre-ignore
             )
 
+        if self.mask_crop is not None:
+            self.mask_crop = crop_around_box(
+                self.mask_crop,
+                clamp_bbox_xyxy,
+                self.image_path,  # pyre-ignore
+            )
+
         depth_map = self.depth_map
         if depth_map is not None:
             clamp_bbox_xyxy_depth = rescale_bbox(
@@ -362,9 +369,17 @@ class FrameData(Mapping[str, Any]):
             )
 
         if self.image_rgb is not None:
+            mask_crop = self.mask_crop
             self.image_rgb, _, self.mask_crop = resize_image(
                 self.image_rgb, image_height=image_height, image_width=image_width
             )
+            if mask_crop is not None:  # keep the padding of earlier resizes masked out
+                self.mask_crop, _, _ = resize_image(
+                    mask_crop,
+                    image_height=image_height,
+                    image_width=image_width,
+                    mode="nearest",
+                )
 
         if self.depth_map is not None:
             self.depth_map, _, _ = resize_image(
-- 
2.43.0


From bcfb1f1d0992ad3235dd59ed2e3c96cef02f75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 083/164] fix: crop of depth maps whose resolution differs from
 the image in FrameData

---
 pytorch3d/implicitron/dataset/frame_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 70dbff2..5f7a9e0 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -307,8 +307,8 @@ class FrameData(Mapping[str, Any]):
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
                 # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
                 tuple(depth_map.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_map = crop_around_box(
                 depth_map,
@@ -322,8 +322,8 @@ class FrameData(Mapping[str, Any]):
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
                 # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
                 tuple(depth_mask.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_mask = crop_around_box(
                 depth_mask,
-- 
2.43.0


From 053e14754787b59be55827a71db7c74a70696b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 084/164] fix: load annotations with lists of different lengths
 and keep the type of dict keys

The vectorised loading of a list of dataclasses cut all List fields to the
length of the shortest one and returned the keys of dicts as numpy strings.
The items are now converted together and split by the length of each object.
---
 pytorch3d/implicitron/dataset/types.py | 27 +++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/types.py b/pytorch3d/implicitron/dataset/types.py
index 2ddeb3b..04b2fb7 100644
--- a/pytorch3d/implicitron/dataset/types.py
+++ b/pytorch3d/implicitron/dataset/types.py
@@ -11,6 +11,7 @@ import dataclasses
 import gzip
 import json
 from dataclasses import dataclass, Field, MISSING
+from itertools import islice
 from typing import (
     Any,
     cast,
@@ -25,8 +26,6 @@ from typing import (
     Union,
 )
 
-import numpy as np
-
 
 _X = TypeVar("_X")
 
@@ -217,17 +216,21 @@ def _dataclass_list_from_dict_list(dlist, typeannot):
     elif issubclass(cls, (list, tuple)):
         # For list/tuple, call the function recursively on the lists of corresponding positions
         types = get_args(typeannot)
-        if len(types) == 1:  # probably List; replicate for all items
-            types = types * len(dlist[0])
+        if len(types) == 1:
+            # probably List; its length can differ between the objects, so call the
+            # function on the concatenated items
+            all_items_res = iter(
+                _dataclass_list_from_dict_list(
+                    [item for obj in dlist for item in obj], types[0]
+                )
+            )
+            return [cls(islice(all_items_res, len(obj))) for obj in dlist]
         dlist_T = zip(*dlist)
         res_T = (
             _dataclass_list_from_dict_list(pos_list, tp)
             for pos_list, tp in zip(dlist_T, types)
         )
-        if issubclass(cls, tuple):
-            return list(zip(*res_T))
-        else:
-            return [cls(converted_as_tuple) for converted_as_tuple in zip(*res_T)]
+        return [cls(converted_as_tuple) for converted_as_tuple in zip(*res_T)]
     elif issubclass(cls, dict):
         # For the dictionary, call the function recursively on concatenated keys and vertices
         key_t, val_t = get_args(typeannot)
@@ -237,12 +240,8 @@ def _dataclass_list_from_dict_list(dlist, typeannot):
         all_vals_res = _dataclass_list_from_dict_list(
             [k for obj in dlist for k in obj.values()], val_t
         )
-        indices = np.cumsum([len(obj) for obj in dlist])
-        assert indices[-1] == len(all_keys_res)
-
-        keys = np.split(list(all_keys_res), indices[:-1])
-        all_vals_res_iter = iter(all_vals_res)
-        return [cls(zip(k, all_vals_res_iter)) for k in keys]
+        all_items_res = zip(all_keys_res, all_vals_res)
+        return [cls(islice(all_items_res, len(obj))) for obj in dlist]
     elif not dataclasses.is_dataclass(typeannot):
         return dlist
 
-- 
2.43.0


From e7012293a02cf432222c14f2e64456cba7a51870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 085/164] fix: JsonIndexDataset returns a constant for absent
 timestamps

DatasetBase.get_frame_numbers_and_timestamps documents that absent timestamps
are replaced with a constant; with None the frames of a sequence could not be
put in order (None < None).
---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 2ea4b09..d20456a 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -651,8 +651,12 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 continue
 
             frame_annotation = self.frame_annots[idx]["frame_annotation"]
+            # absent timestamps are replaced with a constant
             out.append(
-                (frame_annotation.frame_number, frame_annotation.frame_timestamp)
+                (
+                    frame_annotation.frame_number,
+                    frame_annotation.frame_timestamp or 0.0,
+                )
             )
         return out
 
-- 
2.43.0


From 003f325a750e89ab77be1157b054f436cd83ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 086/164] fix: sequence_frames_in_order returns the indices of
 the frames in the subset

With a subset_filter, the numbers of the frames that pass it were paired with
the first indices of the whole sequence.
---
 pytorch3d/implicitron/dataset/dataset_base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_base.py b/pytorch3d/implicitron/dataset/dataset_base.py
index 78e6f20..0dc6826 100644
--- a/pytorch3d/implicitron/dataset/dataset_base.py
+++ b/pytorch3d/implicitron/dataset/dataset_base.py
@@ -122,9 +122,14 @@ class DatasetBase(GenericWorkaround, torch.utils.data.Dataset[FrameData]):
         """
         # pyre-ignore[16]
         seq_frame_indices = self._seq_to_idx[seq_name]
-        nos_timestamps = self.get_frame_numbers_and_timestamps(
-            seq_frame_indices, subset_filter
-        )
+        if subset_filter is not None:
+            # keep the indices aligned with the frames that pass the filter
+            seq_frame_indices = [
+                idx
+                for idx in seq_frame_indices
+                if len(self.get_frame_numbers_and_timestamps([idx], subset_filter)) > 0
+            ]
+        nos_timestamps = self.get_frame_numbers_and_timestamps(seq_frame_indices)
 
         yield from sorted(
             [
-- 
2.43.0


From d38028811475f2ee5d76fc61b8cf61b72cf4b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 087/164] fix: joining JsonIndexDatasets keeps eval_batches
 pointing to their frames

The batches of the joined datasets were appended with their original indices,
which are the indices of frames of the first dataset.
---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index d20456a..b9ddaf9 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -218,6 +218,11 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         """
         if not all(isinstance(d, JsonIndexDataset) for d in other_datasets):
             raise ValueError("This function can only join a list of JsonIndexDataset")
+        # the position in the joined dataset where the frames of each dataset start
+        frame_offsets = [0]
+        # pyre-ignore[16]
+        for d in [self, *other_datasets]:
+            frame_offsets.append(frame_offsets[-1] + len(d.frame_annots))
         # pyre-ignore[16]
         self.frame_annots.extend([fa for d in other_datasets for fa in d.frame_annots])
         # pyre-ignore[16]
@@ -242,7 +247,11 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 " eval_batches defined, or all should have their eval batches undefined."
             )
         if self.eval_batches is not None:
-            self.eval_batches = sum(all_eval_batches, [])
+            self.eval_batches = [
+                [frame_offset + idx for idx in batch]
+                for frame_offset, eval_batches in zip(frame_offsets, all_eval_batches)
+                for batch in eval_batches
+            ]
         self._invalidate_indexes(filter_seq_annots=True)
 
     def is_filtered(self) -> bool:
-- 
2.43.0


From 366ec77da645322f2ea5365a707948fb7aa01860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 088/164] fix: JsonIndexDataset drops sequences left without
 frames by remove_empty_masks

category_to_sequence_names listed sequences without any frame, unlike
sequence_names, which makes the category-aware SceneBatchSampler fail.
---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index b9ddaf9..e701be7 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -591,7 +591,7 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
             if f["frame_annotation"].sequence_name in self.seq_annots
         ]
 
-        self._invalidate_indexes()
+        self._invalidate_indexes(filter_seq_annots=True)
 
         if self.n_frames_per_sequence > 0:
             logger.info(f"Taking max {self.n_frames_per_sequence} per sequence.")
-- 
2.43.0


From f1499090830c59049714e5b4d3a5a96b699d5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 089/164] fix: DatasetMap.join joins datasets shared by several
 subsets only once

With test_on_train, the train, val and test sets are the same object, which
received the frames of each further category three times.
---
 pytorch3d/implicitron/dataset/dataset_map_provider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_map_provider.py b/pytorch3d/implicitron/dataset/dataset_map_provider.py
index 7133b36..d67e2b9 100644
--- a/pytorch3d/implicitron/dataset/dataset_map_provider.py
+++ b/pytorch3d/implicitron/dataset/dataset_map_provider.py
@@ -67,6 +67,7 @@ class DatasetMap:
             other_dataset_maps: The list of dataset maps to be joined into the
                 current dataset map.
         """
+        joined = set()  # the same datasets can be used for several subsets
         for set_ in ["train", "val", "test"]:
             dataset_list = [
                 getattr(self, set_),
@@ -77,8 +78,10 @@ class DatasetMap:
                 setattr(self, set_, None)
                 continue
             d0 = dataset_list[0]
-            if len(dataset_list) > 1:
+            dataset_ids = tuple(id(d) for d in dataset_list)
+            if len(dataset_list) > 1 and dataset_ids not in joined:
                 d0.join(dataset_list[1:])
+                joined.add(dataset_ids)
             setattr(self, set_, d0)
 
 
-- 
2.43.0


From d290007f104d20ff316c5fa97e1a79ddcbea9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 090/164] fix: masks of the known frames added to the val and
 test sets of a single scene

With n_known_frames_for_test the masks were selected before the training frames
were added, so that the items of these frames could not be read.
---
 .../implicitron/dataset/single_sequence_dataset.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/single_sequence_dataset.py b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
index 058db29..2ec168c 100644
--- a/pytorch3d/implicitron/dataset/single_sequence_dataset.py
+++ b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
@@ -127,12 +127,6 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
         # pyre-ignore[16]
         split = self.i_split[split_idx]
         frame_types = [frame_type] * len(split)
-        fg_probabilities = (
-            None
-            # pyre-ignore[16]
-            if self.fg_probabilities is None
-            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
-        )
         eval_batches = [[i] for i in range(len(split))]
         if split_idx != 0 and self.n_known_frames_for_test is not None:
             # pyrefly: ignore [missing-attribute]
@@ -148,6 +142,12 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
                     batch.extend((to_add + len(split)).tolist())
             split = np.concatenate([split, train_split])
             frame_types.extend([DATASET_TYPE_KNOWN] * len(train_split))
+        fg_probabilities = (
+            None
+            # pyre-ignore[16]
+            if self.fg_probabilities is None
+            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
+        )
 
         # pyre-ignore[28]
         return SingleSceneDataset(
-- 
2.43.0


From 5b0c7b8c745c7edd3137b0b0ecbf95cf028de61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 091/164] fix: SqlIndexDataset returns the frames of a sequence
 in order with their indices

The timestamps and frame numbers came in the order of the database while the
indices came in the order of the dataset, which are different for instance when
n_frames_per_sequence is set, and were not sorted by timestamp;
get_frame_numbers_and_timestamps returned triplets (row, timestamp, number)
instead of pairs (number, timestamp).
---
 pytorch3d/implicitron/dataset/sql_dataset.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 84a488b..28ab525 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -355,10 +355,13 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 "We encourage creating a dataset per subset."
             )
 
-        index_slice, _ = self._get_frame_no_coalesced_ts_by_row_indices(idxs)
-        # alternatively, we can use `.values.tolist()`, which may be faster
-        # but returns a list of lists
-        return list(index_slice.itertuples())
+        frame_no_ts, _ = self._get_frame_no_coalesced_ts_by_row_indices(idxs)
+        return list(
+            zip(
+                frame_no_ts["frame_number"].tolist(),
+                frame_no_ts["frame_timestamp"].tolist(),
+            )
+        )
 
     # override
     def sequence_frames_in_order(
@@ -393,6 +396,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             rows_seq, seq_name, subset_filter
         )
         index_slice["idx"] = idx
+        index_slice = index_slice.sort_values(["frame_timestamp", "frame_number"])
 
         yield from index_slice.itertuples(index=False)
 
@@ -848,7 +852,10 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 "do they belong to more than one sequence?"
             )
 
-        return frame_no_ts, idxs
+        # the database returns the rows in its own order; align them with `idxs`
+        frame_no_ts = frame_no_ts.set_index("frame_number").loc[frames].reset_index()
+
+        return frame_no_ts[["frame_timestamp", "frame_number"]], idxs
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
-- 
2.43.0


From 7dc0736812537158d12d40ac69889cc2e14c3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 092/164] fix: eval batches of SqlIndexDataset with
 pick_categories

Categories without any frame left raised KeyError, and with pick_sequences the
batches were those of either filter while the frames have to pass both, which
left batches of frames that are not in the dataset.
---
 pytorch3d/implicitron/dataset/sql_dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 28ab525..4cf4f49 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -759,11 +759,17 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         pick_sequences = set(self.pick_sequences)
         if self.pick_categories:
             cat_to_seq = self.category_to_sequence_names()
-            pick_sequences.update(
-                seq for cat in self.pick_categories for seq in cat_to_seq[cat]
+            category_sequences = {
+                seq for cat in self.pick_categories for seq in cat_to_seq.get(cat, [])
+            }
+            # a sequence has to pass all filters
+            pick_sequences = (
+                pick_sequences & category_sequences
+                if pick_sequences
+                else category_sequences
             )
 
-        if pick_sequences:
+        if self.pick_sequences or self.pick_categories:
             old_len = len(eval_batches)
             eval_batches = [b for b in eval_batches if b[0][0] in pick_sequences]
             logger.warning(
-- 
2.43.0


From 7db6715cc0a832471b5b8c76e76bc1e36224e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 093/164] fix: n_frames_per_sequence=0 does not restrict
 SqlIndexDataset

The frames are sampled if n_frames_per_sequence > 0 according to the
documentation and is_filtered(); with 0 (which JsonIndexDataset takes as no
limit) the dataset was empty and could not be created.
---
 pytorch3d/implicitron/dataset/sql_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 4cf4f49..08993fe 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -190,7 +190,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             # still use the concatenated lists, assuming they cover the whole dataset
             index = self._build_index_from_db(sequences)
 
-        if self.n_frames_per_sequence >= 0:
+        if self.n_frames_per_sequence > 0:
             index = self._stratified_sample_index(index)
 
         if len(index) == 0:
-- 
2.43.0


From 771973b3665538c518bfbc523e84fad98a193757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 094/164] fix: FrameDataBuilder with SQL annotations without
 point cloud or viewpoint

These are nullable in SqlFrameAnnotation and SqlSequenceAnnotation and are
read as annotations of None fields, which made every frame of such sequences
fail, while missing depth and masks were handled.
---
 pytorch3d/implicitron/dataset/frame_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5f7a9e0..8ec0f7f 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -634,7 +634,7 @@ class GenericFrameDataBuilder(FrameDataBuilderBase[FrameDataSubtype], ABC):
                 depth_path = os.path.join(dataset_root, depth_annotation.path)
                 frame_data.depth_path = depth_path
 
-            if point_cloud is not None:
+            if point_cloud is not None and point_cloud.path is not None:
                 pcl_path = os.path.join(dataset_root, point_cloud.path)
                 frame_data.sequence_point_cloud_path = pcl_path
 
@@ -684,13 +684,14 @@ class GenericFrameDataBuilder(FrameDataBuilderBase[FrameDataSubtype], ABC):
                 frame_annotation, depth_path, fg_mask_np
             )
 
-        if load_blobs and self.load_point_clouds and point_cloud is not None:
-            assert pcl_path is not None
+        if load_blobs and self.load_point_clouds and pcl_path is not None:
             frame_data.sequence_point_cloud = load_pointcloud(
                 self._local_path(pcl_path), max_points=self.max_points
             )
 
-        if frame_annotation.viewpoint is not None:
+        # in SQL annotations, fields of a missing viewpoint are set to None
+        viewpoint = frame_annotation.viewpoint
+        if viewpoint is not None and viewpoint.R is not None:
             frame_data.camera = self._get_pytorch3d_camera(frame_annotation)
 
         if self.box_crop:
-- 
2.43.0


From a5fa2be523b9f3034835f64ac75c9d4775eb981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 095/164] fix: order of the frames of a sequence with
 precompute_seq_to_idx

sequence_indices_in_order returned the precomputed indices in the order of the
dataset rather than sorted by timestamp and frame number.
---
 pytorch3d/implicitron/dataset/sql_dataset.py | 26 +++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 08993fe..698599b 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -213,10 +213,12 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             logger.warning(
                 "Using precompute_seq_to_idx is deprecated and will be removed in the future."
             )
-            self._index["rowid"] = np.arange(len(self._index))
-            groupby = self._index.groupby("sequence_name", sort=False)["rowid"]
+            frame_order = self._get_all_coalesced_ts().reindex(self._index.index)
+            frame_order = frame_order.reset_index()
+            frame_order["rowid"] = np.arange(len(self._index))
+            frame_order = frame_order.sort_values(["frame_timestamp", "frame_number"])
+            groupby = frame_order.groupby("sequence_name", sort=False)["rowid"]
             self._seq_to_indices = dict(groupby.apply(list))  # pyre-ignore
-            del self._index["rowid"]
 
     def __len__(self) -> int:
         return len(self._index)
@@ -804,6 +806,24 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
     def _get_frame_type(self, entry: SqlFrameAnnotation) -> Optional[str]:
         return self._index.loc[(entry.sequence_name, entry.frame_number), "subset"]
 
+    def _get_all_coalesced_ts(self) -> pd.DataFrame:
+        """
+        Loads the timestamps of all frames in the database, indexed by
+        the sequence name and frame number.
+        """
+        coalesced_ts = sa.sql.functions.coalesce(
+            self.frame_annotations_type.frame_timestamp, 0
+        )
+        stmt = sa.select(
+            self.frame_annotations_type.sequence_name,
+            self.frame_annotations_type.frame_number,
+            coalesced_ts.label("frame_timestamp"),
+        )
+        with self._sql_engine.connect() as connection:
+            frame_ts = pd.read_sql_query(stmt, connection)
+
+        return frame_ts.set_index(["sequence_name", "frame_number"])
+
     def _get_frame_no_coalesced_ts_by_row_indices(
         self,
         idxs: Sequence[int],
-- 
2.43.0


From d5d860f6839724c4a00b8a1d2fe03ddb3f1a9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 096/164] fix: limit_sequences_to with
 limit_sequences_per_category_to in SqlIndexDataset

The subquery that limits the sequences of each category has no ROWID, so that
the retained sequences were not the first ones.
---
 pytorch3d/implicitron/dataset/sql_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 698599b..fd5a6a7 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -501,9 +501,12 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
 
         if self.limit_sequences_per_category_to <= 0:
             stmt = add_where(sa.select(self.sequence_annotations_type.sequence_name))
+            row_id = sa.text("ROWID")  # NOTE: ROWID is SQLite-specific
         else:
             subquery = sa.select(
                 self.sequence_annotations_type.sequence_name,
+                # subqueries have no ROWID of their own
+                sa.literal_column("ROWID").label("row_id"),
                 sa.func.row_number()
                 .over(
                     order_by=sa.text("ROWID"),  # NOTE: ROWID is SQLite-specific
@@ -517,13 +520,13 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 # pyre-ignore[6]: SQLAlchemy column comparison returns ColumnElement, not bool
                 subquery.c.row_number <= self.limit_sequences_per_category_to
             )
+            row_id = subquery.c.row_id
 
         if self.limit_sequences_to > 0:
             logger.info(
                 f"Limiting dataset to first {self.limit_sequences_to} sequences"
             )
-            # NOTE: ROWID is SQLite-specific
-            stmt = stmt.order_by(sa.text("ROWID")).limit(self.limit_sequences_to)
+            stmt = stmt.order_by(row_id).limit(self.limit_sequences_to)
 
         if (
             not where_conditions
-- 
2.43.0


From 3778a9bd341be10a37ac5362476b312f1bc10aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 097/164] fix: SceneBatchSampler with consecutive frames of
 sequences without timestamps

Timestamps of -1 mark absent timestamps, and the first frame did not always
start a segment then, which raised IndexError for some values of
consecutive_frames_max_gap_seconds (e.g. 0.2).
---
 pytorch3d/implicitron/dataset/scene_batch_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/scene_batch_sampler.py b/pytorch3d/implicitron/dataset/scene_batch_sampler.py
index 2ce7e27..d007932 100644
--- a/pytorch3d/implicitron/dataset/scene_batch_sampler.py
+++ b/pytorch3d/implicitron/dataset/scene_batch_sampler.py
@@ -170,7 +170,7 @@ class SceneBatchSampler(Sampler[List[int]]):
 
         segments = []
         last_no = -self.consecutive_frames_max_gap - 1  # will trigger a new segment
-        last_ts = -self.consecutive_frames_max_gap_seconds - 1.0
+        last_ts = float("-inf")
         for ts, no, idx in sequence_timestamps:
             if ts <= 0.0 and no <= last_no:
                 raise AssertionError(
-- 
2.43.0


From 4953ed27fdfd977b54b275c3402bf1bfd68bd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 098/164] fix: jitter_extrinsics rotating by more than
 max_angle

---
 pytorch3d/implicitron/tools/camera_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/camera_utils.py b/pytorch3d/implicitron/tools/camera_utils.py
index 0c76373..59d5443 100644
--- a/pytorch3d/implicitron/tools/camera_utils.py
+++ b/pytorch3d/implicitron/tools/camera_utils.py
@@ -34,8 +34,9 @@ def jitter_extrinsics(
     assert all(x >= 0.0 for x in (max_angle, translation_std, scale_std))
     N = R.shape[0]
     R_jit = pt3d.transforms.random_rotations(1, device=R.device)
+    # the angle of a random rotation is between 0 and pi
     R_jit = pt3d.transforms.so3_exponential_map(
-        pt3d.transforms.so3_log_map(R_jit) * max_angle
+        pt3d.transforms.so3_log_map(R_jit) * (max_angle / math.pi)
     )
     T_jit = torch.randn_like(R_jit[:1, :, 0]) * translation_std
     rigid_transform = pt3d.ops.eyes(dim=4, N=N, device=R.device)
-- 
2.43.0


From 28159513c9b7587dcd50a312fabcce07de9d7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 099/164] fix: MLPWithInputSkips applying last_activation to
 all layers but the last

---
 .../implicitron/models/implicit_function/decoding_functions.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
index 5073d49..dba395e 100644
--- a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
+++ b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
@@ -192,7 +192,7 @@ class MLPWithInputSkips(Configurable, torch.nn.Module):
                 torch.nn.init.constant_(linear.bias, self.last_layer_bias_init)
             layers.append(
                 torch.nn.Sequential(linear, torch.nn.ReLU(True))
-                if not layeri + 1 < self.n_layers
+                if layeri + 1 < self.n_layers
                 else torch.nn.Sequential(linear, last_activation)
             )
         self.mlp = torch.nn.ModuleList(layers)
-- 
2.43.0


From 20bfb5eaf7e1daf68cae6badceb40bed3940d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 100/164] fix: VoxelGridImplicitFunction splitting scaffold
 points along their coordinates

---
 .../implicit_function/voxel_grid_implicit_function.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ecd8468..b7fb879 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -536,10 +536,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         chunk_size = (
             self.scaffold_occupancy_chunk_size
             if self.scaffold_occupancy_chunk_size > 0
-            else points.shape[-1]
+            else points.shape[-2]
         )
-        for k in range(0, points.shape[-1], chunk_size):
-            points_in_planes = points[..., k : k + chunk_size]
+        for k in range(0, points.shape[-2], chunk_size):
+            points_in_planes = points[..., k : k + chunk_size, :]
             planes.append(self._get_density(points_in_planes)[..., 0])
 
         density_cube = torch.cat(planes, dim=-1)
-- 
2.43.0


From c66d1a9222742d356863de95c8bee31af6f0ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 101/164] fix: VoxelGridImplicitFunction with
 xyz_ray_dir_in_camera_coords

---
 .../models/implicit_function/voxel_grid_implicit_function.py  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index b7fb879..613e142 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -409,7 +409,9 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = directions @ camera.R
+            directions = torch.bmm(
+                directions.reshape(camera.R.shape[0], -1, 3), camera.R
+            ).reshape(-1, 3)
 
         # ########## get voxel grid output ########## #
         # embeds_color.shape = [..., pts_per_ray, n_features]
-- 
2.43.0


From 38be8a55176cc8a0f2a1213e2bbeff833ea41aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 102/164] fix: VoxelGridModule.get_grid_points without
 align_corners for grids which are not cubes

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 26b64f5..270a28a 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1096,10 +1096,10 @@ class VoxelGridModule(Configurable, torch.nn.Module):
                 width * (xresolution - 1) / xresolution if xresolution > 1 else width
             )
             height = (
-                height * (xresolution - 1) / xresolution if xresolution > 1 else height
+                height * (yresolution - 1) / yresolution if yresolution > 1 else height
             )
             depth = (
-                depth * (xresolution - 1) / xresolution if xresolution > 1 else depth
+                depth * (zresolution - 1) / zresolution if zresolution > 1 else depth
             )
         xs = torch.linspace(
             -width / 2, width / 2, xresolution, device=self.get_device()
-- 
2.43.0


From cb08d71501e9e7ab805bdec73c2c868c9eea0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 103/164] fix: VoxelGridModule.get_grid_points ignoring the
 translation

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 270a28a..efd8d1c 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1111,7 +1111,8 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             -depth / 2, depth / 2, zresolution, device=self.get_device()
         )
         xmesh, ymesh, zmesh = torch.meshgrid(xs, ys, zs, indexing="ij")
-        return torch.stack((xmesh, ymesh, zmesh), dim=3)
+        grid_points = torch.stack((xmesh, ymesh, zmesh), dim=3)
+        return grid_points + grid_points.new_tensor(self.translation)
 
 
 class _RegistratedBufferDict(torch.nn.Module, Mapping):
-- 
2.43.0


From 3644a162b5dea8934ccf38c269e05915139f3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 104/164] fix: cropping voxel grids without align_corners at
 their borders

---
 .../models/implicit_function/voxel_grid.py    | 76 ++++++++++---------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index efd8d1c..259e99b 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -359,6 +359,37 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         """
         raise NotImplementedError()
 
+    def _get_crop_range(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        resolution: torch.Tensor,
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        Finds the voxels needed to calculate the points between two corners.
+
+        Args:
+            min_point_local, max_point_local: as for `crop_local`.
+            resolution: tensor of shape (3,), the resolution of the voxel grid.
+        Returns:
+            tuple of two integer tensors of shape (3,), the indices of the first and
+            of the last voxel to keep along each axis.
+        """
+        assert torch.all(min_point_local < max_point_local)
+        min_point_local01 = (torch.clamp(min_point_local, -1, 1) + 1) / 2
+        max_point_local01 = (torch.clamp(max_point_local, -1, 1) + 1) / 2
+
+        if self.align_corners:
+            first = torch.floor(min_point_local01 * (resolution - 1))
+            last = torch.ceil(max_point_local01 * (resolution - 1))
+        else:
+            first = torch.floor(min_point_local01 * resolution - 0.5)
+            last = torch.ceil(max_point_local01 * resolution - 0.5)
+        # points at the border can be closer to it than the outermost voxel centers
+        first = torch.clamp(first.long(), min=0)
+        last = torch.minimum(last.long(), resolution.long() - 1)
+        return first, last
+
 
 @dataclass
 class FullResolutionVoxelGridValues(VoxelGridValuesBase):
@@ -415,20 +446,11 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: FullResolutionVoxelGridValues,
     ) -> FullResolutionVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
         _, _, width, height, depth = grid_values.voxel_grid.shape
         resolution = grid_values.voxel_grid.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, resolution
+        )
 
         return FullResolutionVoxelGridValues(
             voxel_grid=grid_values.voxel_grid[
@@ -543,22 +565,13 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: CPFactorizedVoxelGridValues,
     ) -> CPFactorizedVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
         _, _, width = grid_values.vector_components_x.shape
         _, _, height = grid_values.vector_components_y.shape
         _, _, depth = grid_values.vector_components_z.shape
         resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, resolution
+        )
 
         return CPFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -771,22 +784,13 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: VMFactorizedVoxelGridValues,
     ) -> VMFactorizedVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
         _, _, width = grid_values.vector_components_x.shape
         _, _, height = grid_values.vector_components_y.shape
         _, _, depth = grid_values.vector_components_z.shape
         resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, resolution
+        )
 
         return VMFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
-- 
2.43.0


From 0f6a147ebc0587d49e3e287a6677a0fbe2c60c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 105/164] fix: VoxelGridModule changing resolution with
 align_corners=True always

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 259e99b..a89b477 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -955,7 +955,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         grid_values = self.voxel_grid.values_type(**self.params)
         grid_values, change = self.voxel_grid.change_resolution(
-            grid_values, epoch=epoch
+            grid_values,
+            epoch=epoch,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
         if change:
             self.set_voxel_grid_parameters(grid_values)
-- 
2.43.0


From ab9f5b2be3863c53188fb0245bea01330938127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 106/164] fix: VoxelGridModule.crop_self turning buffers into
 parameters

---
 .../implicitron/models/implicit_function/voxel_grid.py   | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index a89b477..f808762 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1041,14 +1041,7 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         grid_values, _ = self.voxel_grid.change_resolution(
             new_grid_values, grid_values_with_wanted_resolution=old_grid_values
         )
-        # pyre-fixme[16]: `VoxelGridModule` has no attribute `params`.
-        self.params = torch.nn.ParameterDict(
-            {
-                k: torch.nn.Parameter(val)
-                for k, val in vars(grid_values).items()
-                if val is not None
-            }
-        )
+        self.set_voxel_grid_parameters(grid_values)
         # New center of voxel grid is the middle point between max and min points.
         self.translation = tuple((max_point + min_point) / 2)
         # new extents of voxel grid are distances between min and max points
-- 
2.43.0


From 51d0a44668fbefb26106161dd302ad912720e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 107/164] fix: VoxelGridModule.crop_self moving the values of
 the voxels

---
 .../models/implicit_function/voxel_grid.py    | 82 +++++++++++++++----
 1 file changed, 64 insertions(+), 18 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index f808762..64e627d 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -388,8 +388,18 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         # points at the border can be closer to it than the outermost voxel centers
         first = torch.clamp(first.long(), min=0)
         last = torch.minimum(last.long(), resolution.long() - 1)
+        if self.align_corners:
+            # the space between two voxels is the least there can be
+            first = torch.minimum(first, torch.clamp(resolution.long() - 2, min=0))
+            last = torch.maximum(last, torch.clamp(resolution.long() - 1, max=1))
         return first, last
 
+    def _get_values_resolution(self, grid_values: VoxelGridValuesBase) -> torch.Tensor:
+        """
+        Returns the resolution of `grid_values` along each axis as a tensor of shape (3,).
+        """
+        raise NotImplementedError()
+
 
 @dataclass
 class FullResolutionVoxelGridValues(VoxelGridValuesBase):
@@ -446,10 +456,8 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: FullResolutionVoxelGridValues,
     ) -> FullResolutionVoxelGridValues:
-        _, _, width, height, depth = grid_values.voxel_grid.shape
-        resolution = grid_values.voxel_grid.new_tensor([width, height, depth])
         (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
-            min_point_local, max_point_local, resolution
+            min_point_local, max_point_local, self._get_values_resolution(grid_values)
         )
 
         return FullResolutionVoxelGridValues(
@@ -458,6 +466,12 @@ class FullResolutionVoxelGrid(VoxelGridBase):
             ]
         )
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: FullResolutionVoxelGridValues
+    ) -> torch.Tensor:
+        return grid_values.voxel_grid.new_tensor(grid_values.voxel_grid.shape[2:])
+
 
 @dataclass
 class CPFactorizedVoxelGridValues(VoxelGridValuesBase):
@@ -565,12 +579,8 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: CPFactorizedVoxelGridValues,
     ) -> CPFactorizedVoxelGridValues:
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
         (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
-            min_point_local, max_point_local, resolution
+            min_point_local, max_point_local, self._get_values_resolution(grid_values)
         )
 
         return CPFactorizedVoxelGridValues(
@@ -580,6 +590,15 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
             basis_matrix=grid_values.basis_matrix,
         )
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: CPFactorizedVoxelGridValues
+    ) -> torch.Tensor:
+        width = grid_values.vector_components_x.shape[-1]
+        height = grid_values.vector_components_y.shape[-1]
+        depth = grid_values.vector_components_z.shape[-1]
+        return grid_values.vector_components_x.new_tensor([width, height, depth])
+
 
 @dataclass
 class VMFactorizedVoxelGridValues(VoxelGridValuesBase):
@@ -784,12 +803,8 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: VMFactorizedVoxelGridValues,
     ) -> VMFactorizedVoxelGridValues:
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
         (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
-            min_point_local, max_point_local, resolution
+            min_point_local, max_point_local, self._get_values_resolution(grid_values)
         )
 
         return VMFactorizedVoxelGridValues(
@@ -808,6 +823,15 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
             basis_matrix=grid_values.basis_matrix,
         )
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: VMFactorizedVoxelGridValues
+    ) -> torch.Tensor:
+        width = grid_values.vector_components_x.shape[-1]
+        height = grid_values.vector_components_y.shape[-1]
+        depth = grid_values.vector_components_z.shape[-1]
+        return grid_values.vector_components_x.new_tensor([width, height, depth])
+
 
 class VoxelGridModule(Configurable, torch.nn.Module):
     """
@@ -1039,13 +1063,35 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             min_point, max_point, old_grid_values, locator
         )
         grid_values, _ = self.voxel_grid.change_resolution(
-            new_grid_values, grid_values_with_wanted_resolution=old_grid_values
+            new_grid_values,
+            grid_values_with_wanted_resolution=old_grid_values,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
+        # The volume between the first and the last preserved voxel, which contains
+        # the one between the two points.
+        # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
+        resolution = self.voxel_grid._get_values_resolution(old_grid_values)
+        # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
+        first, last = self.voxel_grid._get_crop_range(
+            locator.world_to_local_coords(min_point[None])[0],
+            locator.world_to_local_coords(max_point[None])[0],
+            resolution,
+        )
+        if self.voxel_grid.get_align_corners():
+            # an axis with only one voxel is preserved as a whole
+            n_intervals = torch.clamp(resolution - 1, min=1)
+            last = torch.where(resolution > 1, last, 1)
+        else:
+            n_intervals = resolution
+            last = last + 1
+        min_corner = locator.local_to_world_coords((first / n_intervals * 2 - 1)[None])
+        max_corner = locator.local_to_world_coords((last / n_intervals * 2 - 1)[None])
+
         self.set_voxel_grid_parameters(grid_values)
-        # New center of voxel grid is the middle point between max and min points.
-        self.translation = tuple((max_point + min_point) / 2)
-        # new extents of voxel grid are distances between min and max points
-        self.extents = tuple(max_point - min_point)
+        # New center of voxel grid is the middle point of that volume
+        self.translation = tuple(((max_corner + min_corner) / 2)[0].tolist())
+        # new extents of voxel grid are its size
+        self.extents = tuple((max_corner - min_corner)[0].tolist())
 
     def _get_volume_locator(self) -> VolumeLocator:
         """
-- 
2.43.0


From 150ae610231f59167c95252c1e0d40a1e20ac8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 108/164] fix: VoxelGridModule.load_state_dict without its own
 parameters

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 64e627d..187ab4a 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1032,6 +1032,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             key = prefix + "params." + name
             if key in state_dict:
                 new_params[name] = torch.zeros_like(state_dict[key])
+            else:
+                # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
+                new_params[name] = self.params[name]
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         self.set_voxel_grid_parameters(self.voxel_grid.values_type(**new_params))
 
-- 
2.43.0


From 1240ea4ccc830dd643bdae29ee1cf74ec35a367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 109/164] fix: TransformerWithInputSkips ignoring skip_dim

---
 .../implicitron/models/implicit_function/decoding_functions.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
index dba395e..fd98f30 100644
--- a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
+++ b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
@@ -346,7 +346,7 @@ class TransformerWithInputSkips(torch.nn.Module):
                 )
 
             if layeri in input_skips:
-                self.skip_linear.append(torch.nn.Linear(input_dim, dimin))
+                self.skip_linear.append(torch.nn.Linear(skip_dim, dimin))
 
         self.last = torch.nn.Linear(dimout, output_dim)
         _xavier_init(self.last)
-- 
2.43.0


From 8c82e4362d632eba6c49e9fc7e1b98e909456d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 110/164] fix: coordinates of volumes for points which are not
 contiguous

---
 pytorch3d/structures/volumes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 96d2c5e..fdad43a 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -936,8 +936,8 @@ class VolumeLocator:
         pts_shape = points_3d_world.shape
         return (
             self.get_world_to_local_coords_transform()
-            .transform_points(points_3d_world.view(pts_shape[0], -1, 3))
-            .view(pts_shape)
+            .transform_points(points_3d_world.reshape(pts_shape[0], -1, 3))
+            .reshape(pts_shape)
         )
 
     def local_to_world_coords(self, points_3d_local: torch.Tensor) -> torch.Tensor:
@@ -960,8 +960,8 @@ class VolumeLocator:
         pts_shape = points_3d_local.shape
         return (
             self.get_local_to_world_coords_transform()
-            .transform_points(points_3d_local.view(pts_shape[0], -1, 3))
-            .view(pts_shape)
+            .transform_points(points_3d_local.reshape(pts_shape[0], -1, 3))
+            .reshape(pts_shape)
         )
 
     def get_grid_sizes(self) -> torch.LongTensor:
-- 
2.43.0


From 104ef3964b096c2cdb9d4392c00d5fb83d5da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 111/164] fix: evaluating voxel grids at points which are not
 contiguous

---
 .../implicitron/models/implicit_function/voxel_grid.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 187ab4a..b10f04c 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -435,7 +435,7 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         """
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
         interpolated = interpolate_volume(
             points,
             grid_values.voxel_grid,
@@ -540,7 +540,7 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
 
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from all the vectors and multipy them out
         mult = factor("x") * factor("y") * factor("z")
@@ -672,7 +672,7 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
     ) -> torch.Tensor:
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from matrices and vectors and multiply them
         a = interpolate_plane(
-- 
2.43.0


From 12d70ffec8e4cb5cae39d3d30dac5c01d42e2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 112/164] fix: VolumeSampler with ray directions which are not
 contiguous

---
 pytorch3d/renderer/implicit/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 8fa08d4..539b5d4 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -385,8 +385,8 @@ class VolumeSampler(torch.nn.Module):
 
         # transform the directions to the local coords
         rays_directions_local = directions_transform.transform_points(
-            rays_directions_world.view(rays_lengths.shape[0], -1, 3)
-        ).view(rays_directions_world.shape)
+            rays_directions_world.reshape(rays_lengths.shape[0], -1, 3)
+        ).reshape(rays_directions_world.shape)
 
         ############################
         # 2) obtain the ray points #
-- 
2.43.0


From 831e3cf4c88a845ad7cd87a3015ed67b1447a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 113/164] fix: saving GLB files of tensors which are not
 contiguous

---
 pytorch3d/io/experimental_gltf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index ad164dd..957cb08 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -682,7 +682,7 @@ class _GLTFWriter:
             "count": count * 3 if key == "indices" else count,
         }
         self._json_data["accessors"].append(accessor_json)
-        return (byte_length, data)
+        return (byte_length, np.ascontiguousarray(data))
 
     def _write_bufferview(self, key: str, **kwargs):
         if key not in ["positions", "texcoords", "texvertices", "indices"]:
-- 
2.43.0


From 0cd2f1055e246e6f9e2c2f721b12c5c0e110c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 114/164] fix: rasterize_points with radii which are not
 contiguous

---
 pytorch3d/renderer/points/rasterize_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/rasterize_points.py b/pytorch3d/renderer/points/rasterize_points.py
index b9f853c..149d4bd 100644
--- a/pytorch3d/renderer/points/rasterize_points.py
+++ b/pytorch3d/renderer/points/rasterize_points.py
@@ -175,7 +175,7 @@ def _format_radius(
             raise ValueError(msg % (repr(radius.shape)))
         else:
             padded_to_packed_idx = pointclouds.padded_to_packed_idx()
-            radius = radius.view(-1)[padded_to_packed_idx]
+            radius = radius.reshape(-1)[padded_to_packed_idx]
     elif isinstance(radius, float):
         radius = torch.full((P_packed,), fill_value=radius).type_as(points_packed)
     else:
-- 
2.43.0


From 7455fe6e6e8578726f3daa4fdc34f93084ac243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 115/164] fix: interpolate_face_attributes_python for faces
 which are not contiguous

---
 pytorch3d/ops/interp_face_attrs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/ops/interp_face_attrs.py b/pytorch3d/ops/interp_face_attrs.py
index 4cf6b99..714787b 100644
--- a/pytorch3d/ops/interp_face_attrs.py
+++ b/pytorch3d/ops/interp_face_attrs.py
@@ -95,7 +95,7 @@ def interpolate_face_attributes_python(
     mask = pix_to_face < 0
     pix_to_face = pix_to_face.clone()
     pix_to_face[mask] = 0
-    idx = pix_to_face.view(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
+    idx = pix_to_face.reshape(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
     pixel_face_vals = face_attributes.gather(0, idx).view(N, H, W, K, 3, D)
     pixel_vals = (barycentric_coords[..., None] * pixel_face_vals).sum(dim=-2)
     pixel_vals[mask] = 0  # Replace masked values in output.
-- 
2.43.0


From dfc4fd1b0eb597c3028a2e8317d71ee668a983bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 116/164] fix: VolumeSampler with rays which are not contiguous

---
 pytorch3d/renderer/implicit/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 539b5d4..290acef 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -407,7 +407,7 @@ class VolumeSampler(torch.nn.Module):
         volumes_features = self._volumes.features()
 
         # reshape to a size which grid_sample likes
-        rays_points_local_flat = rays_points_local.view(
+        rays_points_local_flat = rays_points_local.reshape(
             rays_points_local.shape[0], -1, 1, 1, 3
         )
 
-- 
2.43.0


From aad3d3ca6cfbc92d892960a52152776be4253632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 117/164] fix: cot_laplacian of faces which are not contiguous

---
 pytorch3d/ops/laplacian_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/ops/laplacian_matrices.py b/pytorch3d/ops/laplacian_matrices.py
index a2c2997..e9d5e82 100644
--- a/pytorch3d/ops/laplacian_matrices.py
+++ b/pytorch3d/ops/laplacian_matrices.py
@@ -130,7 +130,7 @@ def cot_laplacian(
     L = L + L.t()
 
     # For each vertex, compute the sum of areas for triangles containing it.
-    idx = faces.view(-1)
+    idx = faces.reshape(-1)
     inv_areas = torch.zeros(V, dtype=torch.float32, device=verts.device)
     val = torch.stack([area] * 3, dim=1).view(-1)
     inv_areas.scatter_add_(0, idx, val)
-- 
2.43.0


From decb90fd81212b1c153026c9af3a3cd2a53af44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 118/164] fix: adding points to volumes which are not
 contiguous (python)

---
 pytorch3d/ops/points_to_volumes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index e86f9ee..11625c5 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -464,7 +464,7 @@ def _add_points_features_to_volume_densities_features_python(
 
     # flatten densities and features
     v_shape = volume_densities.shape[2:]
-    volume_densities_flatten = volume_densities.view(ba, -1, 1)
+    volume_densities_flatten = volume_densities.reshape(ba, -1, 1)
     n_voxels = volume_densities_flatten.shape[1]
 
     if volume_features is None:
@@ -472,7 +472,7 @@ def _add_points_features_to_volume_densities_features_python(
         volume_features_flatten = volume_densities.new_zeros(ba, feature_dim, n_voxels)
     else:
         # otherwise just flatten
-        volume_features_flatten = volume_features.view(ba, feature_dim, n_voxels)
+        volume_features_flatten = volume_features.reshape(ba, feature_dim, n_voxels)
 
     if mode == "trilinear":  # do the splatting (trilinear interp)
         volume_features, volume_densities = _splat_points_to_volumes(
-- 
2.43.0


From af50aa33c8e93d208abd6b98e18ae8eca5373855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 119/164] fix: RayPointRefiner for rays which are not
 contiguous

---
 pytorch3d/implicitron/models/renderer/ray_point_refiner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/ray_point_refiner.py b/pytorch3d/implicitron/models/renderer/ray_point_refiner.py
index df77eec..a23eb07 100644
--- a/pytorch3d/implicitron/models/renderer/ray_point_refiner.py
+++ b/pytorch3d/implicitron/models/renderer/ray_point_refiner.py
@@ -86,7 +86,7 @@ class RayPointRefiner(Configurable, torch.nn.Module):
                 ray_weights = apply_blurpool_on_weights(ray_weights)
 
             n_pts_per_ray = self.n_pts_per_ray
-            ray_weights = ray_weights.view(-1, ray_weights.shape[-1])
+            ray_weights = ray_weights.reshape(-1, ray_weights.shape[-1])
             if input_ray_bundle.bins is None:
                 z_vals: torch.Tensor = input_ray_bundle.lengths
                 ray_weights = ray_weights[..., 1:-1]
@@ -96,7 +96,7 @@ class RayPointRefiner(Configurable, torch.nn.Module):
                 n_pts_per_ray += 1
                 bins = z_vals
             z_samples = sample_pdf(
-                bins.view(-1, bins.shape[-1]),
+                bins.reshape(-1, bins.shape[-1]),
                 ray_weights,
                 n_pts_per_ray,
                 det=not self.random_sampling,
-- 
2.43.0


From fb9c2b510734e076e709832aa9846bc6497a4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 120/164] fix: flat_shading of fragments which are not
 contiguous

---
 pytorch3d/renderer/mesh/shading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index 5e709ba..c09e85a 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -214,7 +214,7 @@ def flat_shading(meshes, fragments, lights, cameras, materials, texels) -> torch
     pix_to_face[mask] = 0
 
     N, H, W, K = pix_to_face.shape
-    idx = pix_to_face.view(N * H * W * K, 1).expand(N * H * W * K, 3)
+    idx = pix_to_face.reshape(N * H * W * K, 1).expand(N * H * W * K, 3)
 
     # gather pixel coords
     pixel_coords = face_coords.gather(0, idx).view(N, H, W, K, 3)
-- 
2.43.0


From 8f1459001ed22d5993f441be83a7de9ab0c19477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 121/164] fix: VoxelGridImplicitFunction for rays which are not
 contiguous

---
 .../models/implicit_function/voxel_grid_implicit_function.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 613e142..542b281 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -254,7 +254,7 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         directions = ray_bundle.directions.reshape(-1, 3)
         input_shape = points.shape
         num_points_per_ray = input_shape[-2]
-        points = points.view(-1, 3)
+        points = points.reshape(-1, 3)
         non_empty_points = None
 
         # ########## filter the points using the scaffold ########## #
-- 
2.43.0


From 66fbf259a548d4fe0c021ab658cf70c5147a192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 122/164] fix: SplatterPhongShader for images of another size
 than the first

---
 pytorch3d/renderer/mesh/shader.py    | 11 +++++++----
 pytorch3d/renderer/splatter_blend.py |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index d6f1b43..f1c3f61 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -348,10 +348,13 @@ class SplatterPhongShader(ShaderBase):
             materials=materials,
         )
 
-        if not self.splatter_blender:
-            # Init only once, to avoid re-computing constants.
-            N, H, W, K, _ = colors.shape
-            self.splatter_blender = SplatterBlender((N, H, W, K), colors.device)
+        input_shape = tuple(colors.shape[:4])
+        if (
+            not self.splatter_blender
+            or self.splatter_blender.input_shape != input_shape
+        ):
+            # Init only once for each shape, to avoid re-computing constants.
+            self.splatter_blender = SplatterBlender(input_shape, colors.device)
 
         blend_params = kwargs.get("blend_params", self.blend_params)
         self.check_blend_params(blend_params)
diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 936944b..c8035d5 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -460,6 +460,7 @@ class SplatterBlender(torch.nn.Module):
                 constant tensors that do not change as long as this tuple is unchanged.
         """
         super().__init__()
+        self.input_shape = tuple(input_shape)
         self.crop_ids_h, self.crop_ids_w, self.offsets = _precompute(
             input_shape, device
         )
-- 
2.43.0


From b10c9318a740858c408e01cdcd164f51f8e5e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 123/164] fix: SplatterBlender takes the occlusion layer of
 each splat from its own direction

---
 pytorch3d/renderer/splatter_blend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index c8035d5..208fd9f 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -538,6 +538,11 @@ class SplatterBlender(torch.nn.Module):
         occlusion_layers = _compute_occlusion_layers(
             pixel_coords_screen[..., 2:3].squeeze(dim=-1)
         )  # (N, H, W, 9)
+        # The directions of the occlusion layers are ordered by rows, those of the splats
+        # by columns: offsets are (x, y).
+        occlusion_layers = (
+            occlusion_layers.unflatten(-1, (3, 3)).transpose(-1, -2).flatten(-2)
+        )
 
         splat_colors_and_weights = _compute_splatting_colors_and_weights(
             pixel_coords_screen,
-- 
2.43.0


From b5b06410924a107be869bcad35426d5c2a3c3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 124/164] fix: finite camera gradients through SplatterBlender
 for cameras at the origin

---
 pytorch3d/renderer/splatter_blend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 208fd9f..cd3c736 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -98,8 +98,13 @@ def _prepare_pixels_and_colors(
     # intersections, and [H+0.5, W+0.5, z] at valid intersections. It is important
     # to not flip the xy axes, otherwise the gradients will be inverted when the
     # splatter works with a detached rasterizer.
+    # eps keeps the gradients of the camera finite if it is where the (arbitrary)
+    # coordinates of the background are.
     pixel_coords_screen = cameras.transform_points_screen(
-        pixel_coords_cameras.view([N, -1, 3]), image_size=(H, W), with_xyflip=False
+        pixel_coords_cameras.reshape([N, -1, 3]),
+        eps=1e-8,
+        image_size=(H, W),
+        with_xyflip=False,
     ).reshape(pixel_coords_cameras.shape)
 
     # Set colors' alpha to 1 and background to 0.
-- 
2.43.0


From ce33d5bffa416286cd9e56226cb41af0d9b821d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 125/164] fix: finite camera gradients through the rasterizers
 for padded batches and cameras at the origin

---
 pytorch3d/renderer/mesh/rasterizer.py   | 7 +++++++
 pytorch3d/renderer/points/rasterizer.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/pytorch3d/renderer/mesh/rasterizer.py b/pytorch3d/renderer/mesh/rasterizer.py
index bad4e07..22282e1 100644
--- a/pytorch3d/renderer/mesh/rasterizer.py
+++ b/pytorch3d/renderer/mesh/rasterizer.py
@@ -201,6 +201,13 @@ class MeshRasterizer(nn.Module):
         verts_view = cameras.get_world_to_view_transform(**kwargs).transform_points(
             verts_world, eps=eps
         )
+        # Move the padding in front of the camera: where the projection is singular,
+        # it would make the gradients of the camera NaN.
+        padding = (
+            torch.arange(verts_view.shape[1], device=verts_view.device)
+            >= meshes_world.num_verts_per_mesh()[:, None]
+        )
+        verts_view = verts_view.masked_fill(padding[..., None], 1.0)
         to_ndc_transform = cameras.get_ndc_camera_transform(**kwargs)
         projection_transform = try_get_projection_transform(cameras, kwargs)
         if projection_transform is not None:
diff --git a/pytorch3d/renderer/points/rasterizer.py b/pytorch3d/renderer/points/rasterizer.py
index 73363cb..ec0fc73 100644
--- a/pytorch3d/renderer/points/rasterizer.py
+++ b/pytorch3d/renderer/points/rasterizer.py
@@ -128,6 +128,13 @@ class PointsRasterizer(nn.Module):
         pts_view = cameras.get_world_to_view_transform(**kwargs).transform_points(
             pts_world, eps=eps
         )
+        # Move the padding in front of the camera: where the projection is singular,
+        # it would make the gradients of the camera NaN.
+        padding = (
+            torch.arange(pts_view.shape[1], device=pts_view.device)
+            >= point_clouds.num_points_per_cloud()[:, None]
+        )
+        pts_view = pts_view.masked_fill(padding[..., None], 1.0)
         to_ndc_transform = cameras.get_ndc_camera_transform(**kwargs)
         projection_transform = try_get_projection_transform(cameras, kwargs)
         if projection_transform is not None:
-- 
2.43.0


From 47c9fea2243d836825cb60ad10b20d075230c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 126/164] fix: geometric initialisation of IdrFeatureField with
 harmonic functions or skips

The coordinates of a point are the last entries of its harmonic embedding,
but the first ones were used. Without harmonic functions, the weights of skip
layers were all zero, and NaN with weight normalisation.
---
 .../models/implicit_function/idr_feature_field.py   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/idr_feature_field.py b/pytorch3d/implicitron/models/implicit_function/idr_feature_field.py
index 385effb..dae4dce 100644
--- a/pytorch3d/implicitron/models/implicit_function/idr_feature_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/idr_feature_field.py
@@ -75,6 +75,8 @@ class IdrFeatureField(ImplicitFunctionBase, torch.nn.Module):
                 self.n_harmonic_functions_xyz, append_input=True
             )
             dims[0] = self.embed_fn.get_output_dim()
+        # the embedding ends with the coordinates of the point
+        xyz_start, xyz_end = dims[0] - 3, dims[0]
         if self.pooled_feature_dim > 0:
             dims[0] += self.pooled_feature_dim
         if self.encoding_dim > 0:
@@ -102,12 +104,17 @@ class IdrFeatureField(ImplicitFunctionBase, torch.nn.Module):
                     torch.nn.init.constant_(lin.bias, -self.bias)
                 elif self.n_harmonic_functions_xyz >= 0 and layer_idx == 0:
                     torch.nn.init.constant_(lin.bias, 0.0)
-                    torch.nn.init.constant_(lin.weight[:, 3:], 0.0)
-                    torch.nn.init.normal_(lin.weight[:, :3], 0.0, 2**0.5 / out_dim**0.5)
+                    torch.nn.init.constant_(lin.weight, 0.0)
+                    torch.nn.init.normal_(
+                        lin.weight[:, xyz_start:xyz_end], 0.0, 2**0.5 / out_dim**0.5
+                    )
                 elif self.n_harmonic_functions_xyz >= 0 and layer_idx in self.skip_in:
                     torch.nn.init.constant_(lin.bias, 0.0)
                     torch.nn.init.normal_(lin.weight, 0.0, 2**0.5 / out_dim**0.5)
-                    torch.nn.init.constant_(lin.weight[:, -(dims[0] - 3) :], 0.0)
+                    # of the appended network input, only use the point itself
+                    skip_weight = lin.weight[:, -dims[0] :]
+                    torch.nn.init.constant_(skip_weight[:, :xyz_start], 0.0)
+                    torch.nn.init.constant_(skip_weight[:, xyz_end:], 0.0)
                 else:
                     torch.nn.init.constant_(lin.bias, 0.0)
                     torch.nn.init.normal_(lin.weight, 0.0, 2**0.5 / out_dim**0.5)
-- 
2.43.0


From 7e99836b35cb8ac6145d8a040b09235259c48d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 127/164] fix: Autodecoder with ignore_input returns a code for
 each input

---
 pytorch3d/implicitron/models/global_encoder/autodecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/global_encoder/autodecoder.py b/pytorch3d/implicitron/models/global_encoder/autodecoder.py
index f4b4851..6f98a70 100644
--- a/pytorch3d/implicitron/models/global_encoder/autodecoder.py
+++ b/pytorch3d/implicitron/models/global_encoder/autodecoder.py
@@ -89,7 +89,7 @@ class Autodecoder(Configurable, torch.nn.Module):
                 key-specific autodecoder codes.
         """
         if self.ignore_input:
-            x = ["singleton"]
+            x = ["singleton"] * len(x)
 
         if isinstance(x[0], str):
             try:
-- 
2.43.0


From e319ecf4b84199ac35b35564e0ce2803c5ff7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 128/164] fix: dimension of aggregated features from a dict of
 sampled features

---
 .../implicitron/models/view_pooler/feature_aggregator.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 5d600b0..8d4ea24 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -443,7 +443,11 @@ def _get_reduction_aggregator_feature_dim(
     if isinstance(feats_or_feats_dim, int):
         feat_dim = feats_or_feats_dim
     else:
-        feat_dim = int(sum(f.shape[1] for f in feats_or_feats_dim.values()))
+        # each feature type is reduced on its own
+        return sum(
+            _get_reduction_aggregator_feature_dim(f.shape[-1], reduction_functions)
+            for f in feats_or_feats_dim.values()
+        )
     if len(reduction_functions) == 0:
         return feat_dim
     return sum(
-- 
2.43.0


From bc79b0aa0b961310eeaace99b9e3c7630c2cedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 129/164] fix: MAX reduction of view features

The weights lacked the feature dimension, and masked views won over views
whose features are negative.
---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 8d4ea24..3401927 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -689,6 +689,7 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
-    big_M = x.max(dim=dim, keepdim=True).values.abs() * big_M_factor
+    w = w[..., None]
+    big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From 039d9d664b272b90d495a9e92f390ba8623e11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 130/164] fix: ray directions in camera coordinates for batches
 of images

directions of shape (minibatch, H, W, 3) were multiplied by camera.R of shape
(minibatch, 3, 3), which broadcasts the cameras along the height.
---
 .../implicit_function/neural_radiance_field.py   |  9 +++++++--
 .../scene_representation_networks.py             |  9 +++++++--
 .../models/implicit_function/utils.py            | 16 ++++++++++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
index 7ba577e..3a1a917 100644
--- a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
@@ -26,7 +26,10 @@ from .decoding_functions import (  # noqa
     MLPWithInputSkips,
     TransformerWithInputSkips,
 )
-from .utils import create_embeddings_for_implicit_function
+from .utils import (
+    create_embeddings_for_implicit_function,
+    rotate_directions_to_camera_coords,
+)
 
 
 logger = logging.getLogger(__name__)
@@ -226,7 +229,9 @@ class NeuralRadianceFieldBase(ImplicitFunctionBase, torch.nn.Module):
 
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = rotate_directions_to_camera_coords(
+                ray_bundle.directions, camera
+            )
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 8c17077..f6b13f0 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -16,7 +16,10 @@ from pytorch3d.renderer.cameras import CamerasBase
 from pytorch3d.renderer.implicit import HarmonicEmbedding
 
 from .base import ImplicitFunctionBase
-from .utils import create_embeddings_for_implicit_function
+from .utils import (
+    create_embeddings_for_implicit_function,
+    rotate_directions_to_camera_coords,
+)
 
 
 def _kaiming_normal_init(module: torch.nn.Module) -> None:
@@ -210,7 +213,9 @@ class SRNPixelGenerator(Configurable, torch.nn.Module):
 
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = rotate_directions_to_camera_coords(
+                ray_bundle.directions, camera
+            )
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index d0e7ccd..e4ae960 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -30,6 +30,18 @@ def broadcast_global_code(embeds: torch.Tensor, global_code: torch.Tensor):
     return torch.cat([embeds, global_code_broadcast], dim=-1)
 
 
+def rotate_directions_to_camera_coords(
+    directions: torch.Tensor, camera: CamerasBase
+) -> torch.Tensor:
+    """
+    Rotates world `directions` of shape `(minibatch, ..., 3)` to the coordinates
+    of the `camera` of their batch element.
+    """
+    bs = directions.shape[0]
+    # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
+    return (directions.reshape(bs, -1, 3) @ camera.R).reshape(directions.shape)
+
+
 def create_embeddings_for_implicit_function(
     xyz_world: torch.Tensor,
     xyz_in_camera_coords: bool,
@@ -47,8 +59,8 @@ def create_embeddings_for_implicit_function(
 
         ray_points_for_embed = (
             camera.get_world_to_view_transform()
-            .transform_points(xyz_world.view(bs, -1, 3))
-            .view(xyz_world.shape)
+            .transform_points(xyz_world.reshape(bs, -1, 3))
+            .reshape(xyz_world.shape)
         )
     else:
         ray_points_for_embed = xyz_world
-- 
2.43.0


From a5996659aba70a0b597efe98b7539631a0851423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 131/164] fix: SRNRaymarchHyperNet outputs out_features

---
 .../models/implicit_function/scene_representation_networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index f6b13f0..70720af 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -119,7 +119,7 @@ class SRNRaymarchFunction(Configurable, torch.nn.Module):
         # otherwise the SRN layers consume huge amounts of memory.
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         raymarch_features = self._net(
-            embeds.view(embeds.shape[0], -1, embeds.shape[-1])
+            embeds.reshape(embeds.shape[0], -1, embeds.shape[-1])
         )
         # raymarch_features.shape = [minibatch x ... x self.n_hidden_neurons_xyz]
 
@@ -272,7 +272,7 @@ class SRNRaymarchHyperNet(Configurable, torch.nn.Module):
             hidden_ch=self.n_hidden_units,
             num_hidden_layers=self.n_layers,
             in_ch=raymarch_input_embedding_dim,
-            out_ch=self.n_hidden_units,
+            out_ch=self.out_features,
         )
 
         self.cached_srn_raymarch_function: Optional[Tuple[SRNRaymarchFunction]] = None
-- 
2.43.0


From 6e52a127d35a854836b2ac45fbf6f90209e0f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 132/164] fix: mask_background with a tensor as background
 colour and dim_color

---
 pytorch3d/implicitron/tools/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/image_utils.py b/pytorch3d/implicitron/tools/image_utils.py
index 7e8b3b0..f105094 100644
--- a/pytorch3d/implicitron/tools/image_utils.py
+++ b/pytorch3d/implicitron/tools/image_utils.py
@@ -27,7 +27,7 @@ def mask_background(
     tgt_view[dim_color] = 3
     # obtain the background color tensor
     if isinstance(bg_color, torch.Tensor):
-        bg_color_t = bg_color.view(1, 3, 1, 1).clone().to(image_rgb)
+        bg_color_t = bg_color.view(*tgt_view).clone().to(image_rgb)
     elif isinstance(bg_color, (float, tuple, list)):
         if isinstance(bg_color, float):
             bg_color = [bg_color] * 3
-- 
2.43.0


From 37a888569c9ea3428ad87eb354297a0abd86682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 133/164] fix: evaluation of frames without depth maps or crop
 masks

---
 pytorch3d/implicitron/evaluation/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/evaluation/evaluator.py b/pytorch3d/implicitron/evaluation/evaluator.py
index 449e53c..10c52a6 100644
--- a/pytorch3d/implicitron/evaluation/evaluator.py
+++ b/pytorch3d/implicitron/evaluation/evaluator.py
@@ -155,5 +155,6 @@ def _get_eval_frame_data(frame_data: Any) -> Any:
     frame_data_for_eval = copy.deepcopy(frame_data)
     for k in ("image_rgb", "depth_map", "fg_probability", "mask_crop"):
         value = getattr(frame_data_for_eval, k)
-        value[0].zero_()
+        if value is not None:
+            value[0].zero_()
     return frame_data_for_eval
-- 
2.43.0


From 9d6863e0797eba4c8f0fd57e407103dbf75d9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 134/164] fix: calc_bce bounds the probabilities, not the
 logits, by pred_eps

---
 pytorch3d/implicitron/tools/metric_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index bdb8cfa..0ef886f 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -136,7 +136,11 @@ def calc_bce(
     """
     if pred_eps > 0.0:
         # up/low bound the predictions
-        pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
+        if pred_logits:
+            max_logit = math.log((1.0 - pred_eps) / pred_eps)
+            pred = torch.clamp(pred, -max_logit, max_logit)
+        else:
+            pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
 
     if mask is None:
         mask = torch.ones_like(gt)
-- 
2.43.0


From 0ac2e0db86eb8655167f771aa8d5bd9d17ead006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 135/164] fix: finite gradients of log_lerp at zero

---
 pytorch3d/implicitron/tools/metric_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index 0ef886f..74166e7 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -196,7 +196,7 @@ def log_lerp(x: torch.Tensor, b: float):
     Linearly extrapolated log for x < b.
     """
     assert b > 0
-    return torch.where(x >= b, x.log(), math.log(b) + (x - b) / b)
+    return torch.where(x >= b, x.clamp(min=b).log(), math.log(b) + (x - b) / b)
 
 
 def rgb_l1(
-- 
2.43.0


From 2ab6783b53c0dee9bc27ef572c162fee56489e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 136/164] fix: Stats.add_log_vars adds a variable once

---
 pytorch3d/implicitron/tools/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 2798b63..9c4f79c 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -195,7 +195,7 @@ class Stats:
 
     def add_log_vars(self, added_log_vars):
         for add_log_var in added_log_vars:
-            if add_log_var not in self.stats:
+            if add_log_var not in self.log_vars:
                 logger.debug(f"Adding {add_log_var}")
                 self.log_vars.append(add_log_var)
 
-- 
2.43.0


From a70c8638bc8af9605b6a2e5d0e136d2507e13a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 137/164] fix: eikonal loss takes the norm over the last
 dimension

---
 pytorch3d/implicitron/models/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 9555b62..3c9a44e 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -391,7 +391,7 @@ def _rgb_metrics(
 
 
 def _get_eikonal_loss(grad_theta):
-    return ((grad_theta.norm(2, dim=1) - 1) ** 2).mean()
+    return ((grad_theta.norm(2, dim=-1) - 1) ** 2).mean()
 
 
 def _get_grid_tv_loss(grid, log_domain: bool = True, eps: float = 1e-5):
-- 
2.43.0


From daceb1ea6997d34a777e6b2b53b930508c5d87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 138/164] fix: total variation of density grids with a channel
 dimension

---
 pytorch3d/implicitron/models/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 3c9a44e..424dc16 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -395,6 +395,9 @@ def _get_eikonal_loss(grad_theta):
 
 
 def _get_grid_tv_loss(grid, log_domain: bool = True, eps: float = 1e-5):
+    if grid.shape[-1] == 1:
+        # drop the channel dimension of (B, Hg, Wg, Dg, 1)
+        grid = grid[..., 0]
     if log_domain:
         if (grid <= -eps).any():
             warnings.warn("Grid has negative values; this will produce NaN loss")
-- 
2.43.0


From f4e0c5c2b3459055faea8e2e88f8f688ff24e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 139/164] fix: ViewMetrics selects the images of packed rays
 once

---
 pytorch3d/implicitron/models/metrics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 424dc16..4e93ca1 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -269,11 +269,8 @@ class ViewMetrics(ViewMetricsBase):
             if tensor is None:
                 return tensor
 
-            # select images that corespond to sampled cameras if raybundle is packed
+            # select images that corespond to sampled cameras
             tensor = tensor[ray_bundle.camera_ids]
-            if ray_bundle.is_packed():
-                # select images that corespond to sampled cameras if raybundle is packed
-                tensor = tensor[ray_bundle.camera_ids]
             result = rend_utils.ndc_grid_sample(tensor, xys, mode=mode)
             return padded_to_packed(result, first_idxs, num_inputs, max_size_dim=2)[
                 :, :, None
-- 
2.43.0


From 05acfb0e834651029e2afd6693038ae81a5e1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 140/164] fix: ViewMetrics of several stages without
 keys_prefix

---
 pytorch3d/implicitron/models/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 4e93ca1..3be2e1d 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -219,7 +219,7 @@ class ViewMetrics(ViewMetricsBase):
                     depth_map,
                     fg_probability,
                     mask_crop,
-                    keys_prefix=(keys_prefix + "prev_stage_"),
+                    keys_prefix=((keys_prefix or "") + "prev_stage_"),
                 )
             )
 
-- 
2.43.0


From 49842052001852568cfec717064dd517b36ed4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 141/164] fix: global average pooling of ResNetFeatureExtractor

---
 .../models/feature_extractor/resnet_feature_extractor.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/feature_extractor/resnet_feature_extractor.py b/pytorch3d/implicitron/models/feature_extractor/resnet_feature_extractor.py
index d90b823..4355e0b 100644
--- a/pytorch3d/implicitron/models/feature_extractor/resnet_feature_extractor.py
+++ b/pytorch3d/implicitron/models/feature_extractor/resnet_feature_extractor.py
@@ -202,7 +202,7 @@ class ResNetFeatureExtractor(FeatureExtractorBase):
                 if (stage + 1) in self.stages:
                     f = proj(feats)
                     if self.global_average_pool:
-                        f = f.mean(dims=(2, 3))
+                        f = f.mean(dim=(2, 3), keepdim=True)
                     if self.l2_norm:
                         normfac = 1.0 / math.sqrt(len(self.stages))
                         f = Fu.normalize(f, dim=1) * normfac
-- 
2.43.0


From c43c63952d6fdc873d618fe86cce03a0f52b5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 142/164] fix: OverfitModel with IdrFeatureField

---
 pytorch3d/implicitron/models/overfit_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/overfit_model.py b/pytorch3d/implicitron/models/overfit_model.py
index 1f6af62..3485aae 100644
--- a/pytorch3d/implicitron/models/overfit_model.py
+++ b/pytorch3d/implicitron/models/overfit_model.py
@@ -623,7 +623,7 @@ class OverfitModel(ImplicitronModelBase):
             extra_args["color_dim"] = self.render_features_dimensions
 
         if self.implicit_function_class_type == "IdrFeatureField":
-            extra_args["feature_work_size"] = global_encoder_dim
+            extra_args["encoding_dim"] = global_encoder_dim
             extra_args["feature_vector_size"] = self.render_features_dimensions
 
         if self.implicit_function_class_type == "SRNImplicitFunction":
-- 
2.43.0


From c43228ecc30feea6c43fe8c61f556fd5346b8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 143/164] fix: soft mask of SignedDistanceFunctionRenderer when
 no ray hits the surface

---
 .../implicitron/models/renderer/sdf_renderer.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/sdf_renderer.py b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
index c769b5f..178d5cb 100644
--- a/pytorch3d/implicitron/models/renderer/sdf_renderer.py
+++ b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
@@ -199,9 +199,7 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
             )
             * self._bg_color
         )
-        mask_full = features.new_ones(
-            batch_size, *spatial_size, 1, requires_grad=empty_render
-        )
+        mask_full = features.new_ones(batch_size, *spatial_size, 1)
         if not empty_render:
             normals = implicit_function_gradient(differentiable_surface_points)[
                 None, :, 0, :
@@ -218,10 +216,10 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
                     pooling_fn=None,  # TODO
                 )
             )
-            mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
-                # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
-                -self.soft_mask_alpha * sdf_output[~surface_mask]
-            )
+        mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
+            # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
+            -self.soft_mask_alpha * sdf_output[~surface_mask]
+        )
 
         # scatter points with surface_mask
         points_full = ray_bundle.origins.detach().clone()
-- 
2.43.0


From 9525d348e39a01c9fd15b2ac5f27f80667465e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 144/164] fix: HarmonicTimeEncoder with one timestamp per frame
 of a batch

---
 pytorch3d/implicitron/models/global_encoder/global_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/models/global_encoder/global_encoder.py b/pytorch3d/implicitron/models/global_encoder/global_encoder.py
index c31dbfc..0c7b35a 100644
--- a/pytorch3d/implicitron/models/global_encoder/global_encoder.py
+++ b/pytorch3d/implicitron/models/global_encoder/global_encoder.py
@@ -119,6 +119,9 @@ class HarmonicTimeEncoder(GlobalEncoderBase, torch.nn.Module):
     ) -> torch.Tensor:
         if frame_timestamp is None:
             raise ValueError("frame_timestamp must be provided.")
+        if frame_timestamp.ndim == 1:
+            # one timestamp for each frame of the batch
+            frame_timestamp = frame_timestamp[:, None]
         if frame_timestamp.shape[-1] != 1:
             raise ValueError("Frame timestamp's last dimensions should be one.")
         time = frame_timestamp / self.time_divisor
-- 
2.43.0


From 988e31da326285f95ad229e435f8e20977a7ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 145/164] fix: cleanup_eval_depth with images which are not
 square

The clouds were projected to the NDC of a non-square image but sampled with
the grid of a square one.
---
 pytorch3d/implicitron/tools/depth_cleanup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/tools/depth_cleanup.py b/pytorch3d/implicitron/tools/depth_cleanup.py
index 76edf96..2a50bf0 100644
--- a/pytorch3d/implicitron/tools/depth_cleanup.py
+++ b/pytorch3d/implicitron/tools/depth_cleanup.py
@@ -7,9 +7,9 @@
 # pyre-unsafe
 
 import torch
-import torch.nn.functional as Fu
 from pytorch3d.ops import wmean
 from pytorch3d.renderer.cameras import CamerasBase
+from pytorch3d.renderer.utils import ndc_grid_sample
 from pytorch3d.structures import Pointclouds
 
 
@@ -41,9 +41,9 @@ def cleanup_eval_depth(
         dim=1,
     )
 
-    depth_and_idx_sampled = Fu.grid_sample(
-        depth_and_idx, -pcl_proj[:, None], mode="nearest"
-    )[:, :, 0].view(ba, 2, -1)
+    depth_and_idx_sampled = ndc_grid_sample(
+        depth_and_idx, pcl_proj, mode="nearest"
+    ).view(ba, 2, -1)
 
     depth_sampled, idx_sampled = depth_and_idx_sampled.split([1, 1], dim=1)
     df = (depth_sampled[:, 0] - pcl_depth).abs()
-- 
2.43.0


From f1cdb0a06a4859899d6a4b84d044a1aff98bcc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 146/164] fix: get_rotation_to_best_fit_xy with a batch of
 three sets of points

---
 pytorch3d/implicitron/tools/circle_fitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/circle_fitting.py b/pytorch3d/implicitron/tools/circle_fitting.py
index 7f6cd1a..49c507e 100644
--- a/pytorch3d/implicitron/tools/circle_fitting.py
+++ b/pytorch3d/implicitron/tools/circle_fitting.py
@@ -36,7 +36,11 @@ def get_rotation_to_best_fit_xy(
     # in general, evec can form either right- or left-handed basis,
     # but we need the former to have a proper rotation (not reflection)
     return torch.cat(
-        (evec[..., 1:], torch.cross(evec[..., 1], evec[..., 2])[..., None]), dim=-1
+        (
+            evec[..., 1:],
+            torch.cross(evec[..., 1], evec[..., 2], dim=-1)[..., None],
+        ),
+        dim=-1,
     )
 
 
-- 
2.43.0


From 33a246634401dc79484775744937dfd764b50ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 147/164] fix: traj_offset_canonical of the knot trajectories
 is in local coordinates

---
 pytorch3d/implicitron/tools/eval_video_trajectory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/eval_video_trajectory.py b/pytorch3d/implicitron/tools/eval_video_trajectory.py
index f46fe29..a70e5ca 100644
--- a/pytorch3d/implicitron/tools/eval_video_trajectory.py
+++ b/pytorch3d/implicitron/tools/eval_video_trajectory.py
@@ -112,15 +112,16 @@ def generate_eval_video_cameras(
                 for k in ("focal_length", "principal_point", "R", "T")
             }
         )
-        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale).compose(
-            mean_camera.get_world_to_view_transform().inverse()
-        )
+        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale)
 
         if traj_offset_canonical is not None:
             traj_trans = traj_trans.translate(
                 torch.FloatTensor(traj_offset_canonical)[None].to(traj)
             )
 
+        traj_trans = traj_trans.compose(
+            mean_camera.get_world_to_view_transform().inverse()
+        )
         traj = traj_trans.transform_points(traj)
 
         plane_normal = _fit_plane(cam_centers)[:, 0]
-- 
2.43.0


From c2da5d3f39d708c93f7d7dec1980fe068b3c8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 148/164] fix: slicing of textures given as tuples

TexturesAtlas and TexturesVertex accept a tuple of tensors but raised when
such textures were indexed by a slice.
---
 pytorch3d/renderer/mesh/textures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index f871281..5c13d47 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -438,7 +438,7 @@ class TexturesAtlas(TexturesBase):
                     "with the same value of R."
                 )
                 raise ValueError(msg)
-            self._atlas_list = atlas
+            self._atlas_list = list(atlas)
             self._atlas_padded = None
             self.device = torch.device("cpu")
 
@@ -1759,7 +1759,7 @@ class TexturesVertex(TexturesBase):
                     "Expected verts_features to be a list of tensors of shape (V, C)."
                 )
 
-            self._verts_features_list = verts_features
+            self._verts_features_list = list(verts_features)
             self._verts_features_padded = None
             self.device = torch.device("cpu")
 
-- 
2.43.0


From c285083c841e17a4a68127bb85f74fb99c822ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 149/164] fix: Pulsar draws spheres which reach beside the
 camera completely

The screen area of a sphere was computed from tan(alpha +- theta), which wraps
around for angles beyond 90 degrees, so that a sphere reaching beyond the image
plane next to the camera lost all but one column or row of its pixels.
---
 .../pulsar/include/renderer.get_screen_area.device.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h b/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
index 1a85a1b..7edd6e7 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
@@ -118,10 +118,13 @@ INLINE DEVICE bool get_screen_area(
         alpha.y,
         theta.x,
         theta.y);
-    *x_1 = tan(alpha.x - theta.x) * cam.focal_length;
-    *x_2 = tan(alpha.x + theta.x) * cam.focal_length;
-    *y_1 = tan(alpha.y - theta.y) * cam.focal_length;
-    *y_2 = tan(alpha.y + theta.y) * cam.focal_length;
+    // The sphere can reach beyond 90 degrees from the optical axis, where the
+    // projection onto the sensor plane is unbounded.
+    const float max_angle = 1.5707f; // slightly less than pi / 2.
+    *x_1 = tan(FMAX(alpha.x - theta.x, -max_angle)) * cam.focal_length;
+    *x_2 = tan(FMIN(alpha.x + theta.x, max_angle)) * cam.focal_length;
+    *y_1 = tan(FMAX(alpha.y - theta.y, -max_angle)) * cam.focal_length;
+    *y_2 = tan(FMIN(alpha.y + theta.y, max_angle)) * cam.focal_length;
     PULSAR_LOG_DEV(
         PULSAR_LOG_CALC_SIGNATURE,
         "signature %d|in sensor plane: x_1: %f, x_2: %f, y_1: %f, y_2: %f.\n",
-- 
2.43.0


From ea0ff6429c47e51862f8da161ccd275999b2083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 150/164] fix: Pulsar's orthographic gradients for turned
 cameras

The gradients of the position of a sphere and of the camera were multiplied
elementwise with the sum of the camera axes instead of being turned by them, so
that they were right for cameras along the axes of the world only.
---
 .../pulsar/include/renderer.draw.device.h     | 146 ++++--------------
 1 file changed, 34 insertions(+), 112 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index cb8ecab..64d0e51 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -544,37 +544,32 @@ INLINE DEVICE bool draw(
             const float pixel_size = length(cam.pixel_dir_x);
             // pixel_size is the same as length(pixeldiry)!
             const float pixel_size_rcp = FRCP(pixel_size);
-            float3 dcenterDdposglob =
-                (cam.pixel_dir_x + cam.pixel_dir_y) * pixel_size_rcp +
-                cam.sensor_dir_z;
-            PULSAR_LOG_DEV_PIX(
-                PULSAR_LOG_GRAD,
-                "grad %u|dcenterDdposglob: %.9f, %.9f, %.9f.\n",
-                idx,
-                dcenterDdposglob.x,
-                dcenterDdposglob.y,
-                dcenterDdposglob.z);
+            // The center is the position, rotated to the camera axes.
+            const float3 dimDdposglob =
+                cam.pixel_dir_x * (dimDdcenter.x * pixel_size_rcp) +
+                cam.pixel_dir_y * (dimDdcenter.y * pixel_size_rcp) +
+                cam.sensor_dir_z * dimDdcenter.z;
             if (calc_grad_pos) {
               //! dcenterDdposglob.
-              *grad_pos += dimDdcenter * dcenterDdposglob;
+              *grad_pos += dimDdposglob;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpos: %.9f, %.9f, %.9f.\n",
                   idx,
-                  dimDdcenter.x * dcenterDdposglob.x,
-                  dimDdcenter.y * dcenterDdposglob.y,
-                  dimDdcenter.z * dcenterDdposglob.z);
+                  dimDdposglob.x,
+                  dimDdposglob.y,
+                  dimDdposglob.z);
             }
             if (calc_grad_cam) {
               //! Camera.
-              grad_cam->cam_pos -= dimDdcenter * dcenterDdposglob;
+              grad_cam->cam_pos -= dimDdposglob;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdeye: %.9f, %.9f, %.9f.\n",
                   idx,
-                  -dimDdcenter.x * dcenterDdposglob.x,
-                  -dimDdcenter.y * dcenterDdposglob.y,
-                  -dimDdcenter.z * dcenterDdposglob.z);
+                  -dimDdposglob.x,
+                  -dimDdposglob.y,
+                  -dimDdposglob.z);
               // coord_world
               /*
               float3 dclosenessDdcoord_world =
@@ -623,100 +618,27 @@ INLINE DEVICE bool draw(
                   grad_cam->pixel_dir_x.x,
                   grad_cam->pixel_dir_x.y,
                   grad_cam->pixel_dir_x.z);
-              // dcenterkDdpixel_dir_k.
-              float3 center_in_pixels = draw_info.ray_center_norm *
-                  draw_info.t_center * pixel_size_rcp;
-              grad_cam->pixel_dir_x += dimDdcenter.x *
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp);
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenter0dpixel_dir_x: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .x,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .y,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .z);
-              grad_cam->pixel_dir_y += dimDdcenter.y *
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp);
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenter1dpixel_dir_y: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .x,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .y,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .z);
-              // dcenterzDdpixel_dir_k.
-              float sensordirz_norm_rcp = FRCP(
-                  FMAX(length(cross(cam.pixel_dir_y, cam.pixel_dir_x)), FEPS));
-              grad_cam->pixel_dir_x += dimDdcenter.z *
-                  (dot(center, cam.sensor_dir_z) *
-                       cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                   cross(cam.pixel_dir_y, center)) *
-                  sensordirz_norm_rcp;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenterzDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .x,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .y,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .z);
-              grad_cam->pixel_dir_y += dimDdcenter.z *
-                  (dot(center, cam.sensor_dir_z) *
-                       cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                   cross(cam.pixel_dir_x, center)) *
-                  sensordirz_norm_rcp;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenterzDdpixel_dir_y: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .x,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .y,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .z);
+              // dcenterkDdpixel_dir_k: the normalized pixel_dir_k can only turn.
+              const float3 center_world =
+                  draw_info.ray_center_norm * draw_info.t_center;
+              grad_cam->pixel_dir_x += (dimDdcenter.x * pixel_size_rcp) *
+                  (center_world -
+                   cam.pixel_dir_x * (center.x * pixel_size_rcp));
+              grad_cam->pixel_dir_y += (dimDdcenter.y * pixel_size_rcp) *
+                  (center_world -
+                   cam.pixel_dir_y * (center.y * pixel_size_rcp));
+              // dcenterzDdpixel_dir_k: sensor_dir_z is the normalized cross
+              // product of both directions (up to the sign for the handedness).
+              const float3 dir_z = cross(cam.pixel_dir_y, cam.pixel_dir_x);
+              const float dimDddir_z = dimDdcenter.z *
+                  sign_dir(dot(dir_z, cam.sensor_dir_z)) *
+                  FRCP(length(dir_z));
+              const float3 center_in_plane =
+                  center_world - cam.sensor_dir_z * center.z;
+              grad_cam->pixel_dir_x +=
+                  dimDddir_z * cross(center_in_plane, cam.pixel_dir_y);
+              grad_cam->pixel_dir_y +=
+                  dimDddir_z * cross(cam.pixel_dir_x, center_in_plane);
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
-- 
2.43.0


From 0575f9c39fd19bfc85528d31056af7a84ca484c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 151/164] fix: finite Pulsar gradients for rays through the
 centre of a sphere

The derivative of the distance of a ray to the centre of a sphere was divided by
this distance: a sphere on the optical axis of an image with an odd number of
pixels had NaN as its gradient and the gradient of the camera.
---
 pytorch3d/csrc/pulsar/include/renderer.draw.device.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 64d0e51..4a61e71 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -674,12 +674,13 @@ INLINE DEVICE bool draw(
             const float3 tmp1 = center - ray_dir_norm * o__p1_;
             const float3 tmp1n = tmp1 / p1__p2_safe;
             const float ray_dir_normDotRaydiff = dot(ray_dir_norm, raydiff);
+            const float closeness_rcp =
+                FRCP(FMAX(closeness_world * draw_info.radius, FEPS));
             const float3 dcoeffDdray = dcoeffDdintersection_depth *
                     (tmp1 - o__p1_ * tmp1n) / *norm_ray_dir +
                 dcoeffDdcloseness *
-                    (ray_dir_norm * -ray_dir_normDotRaydiff + raydiff) /
-                    (closeness_world * draw_info.radius) *
-                    (draw_info.t_center / *norm_ray_dir);
+                    (ray_dir_norm * -ray_dir_normDotRaydiff + raydiff) *
+                    closeness_rcp * (draw_info.t_center / *norm_ray_dir);
             PULSAR_LOG_DEV_PIX(
                 PULSAR_LOG_GRAD,
                 "grad %u|dcoeffDdray: %.9f, %.9f, %.9f. dimDdray: "
@@ -695,8 +696,8 @@ INLINE DEVICE bool draw(
                 dcoeffDdintersection_depth * (ray_dir_norm + tmp1n) +
                 dcoeffDdcloseness *
                     (draw_info.ray_center_norm * ray_dir_normDotRaydiff -
-                     raydiff) /
-                    (closeness_world * draw_info.radius);
+                     raydiff) *
+                    closeness_rcp;
             PULSAR_LOG_DEV_PIX(
                 PULSAR_LOG_GRAD,
                 "grad %u|dcoeffDdcenter: %.9f, %.9f, %.9f. "
-- 
2.43.0


From 97b7b6af30c840a00f87451afc658f2a663c41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 152/164] fix: Pulsar's camera gradient counts the spheres
 which contribute to it

Spheres too small for a camera gradient were counted once for each of their
pixels, and the gradient was NaN when no sphere contributed.
---
 .../csrc/pulsar/include/renderer.norm_cam_gradients.device.h   | 3 ++-
 .../pulsar/include/renderer.norm_sphere_gradients.device.h     | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h b/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h
index e1dfd55..7220c11 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h
@@ -25,7 +25,8 @@ template <bool DEV>
 GLOBAL void norm_cam_gradients(Renderer renderer) {
   GET_PARALLEL_IDX_1D(idx, 1);
   CamGradInfo* cgi = reinterpret_cast<CamGradInfo*>(renderer.grad_cam_d);
-  *cgi = *cgi * FRCP(static_cast<float>(*renderer.n_grad_contributions_d));
+  *cgi = *cgi *
+      FRCP(FMAX(static_cast<float>(*renderer.n_grad_contributions_d), 1.f));
   END_PARALLEL_NORET();
 };
 
diff --git a/pytorch3d/csrc/pulsar/include/renderer.norm_sphere_gradients.device.h b/pytorch3d/csrc/pulsar/include/renderer.norm_sphere_gradients.device.h
index f69d3be..5e26aaa 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.norm_sphere_gradients.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.norm_sphere_gradients.device.h
@@ -66,6 +66,8 @@ GLOBAL void norm_sphere_gradients(Renderer renderer, const int num_balls) {
   if (renderer.ids_sorted_d[idx] > 0 && ii.max.x >= ii.min.x + 3 &&
       ii.max.y >= ii.min.y + 3) {
     renderer.ids_sorted_d[idx] = 1;
+  } else {
+    renderer.ids_sorted_d[idx] = 0;
   }
   END_PARALLEL_NORET();
 };
-- 
2.43.0


From 268d35e018a41a92ece9f172774ff0986a67d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 153/164] fix: rendering with Pulsar leaves the field of view
 of the cameras alone

Degrees were converted to radians in place, so that every further image of the
same FoVPerspectiveCameras was rendered with a smaller field of view.
---
 pytorch3d/renderer/points/pulsar/unified.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 14081b7..e5dd76d 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -276,7 +276,7 @@ class PulsarPointsRenderer(nn.Module):
                 afov = kwargs.get("fov", cameras.fov)[cloud_idx]
                 # pyrefly: ignore [missing-attribute]
                 if kwargs.get("degrees", cameras.degrees):
-                    afov *= math.pi / 180.0
+                    afov = afov * (math.pi / 180.0)
                 sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length
                 if not (
                     # pyrefly: ignore [missing-attribute]
-- 
2.43.0


From 24dcf2255be2dbbaaa877721d749a9c60b8ddf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 154/164] fix: one camera for several clouds in
 PulsarPointsRenderer

The parameters of a single camera were indexed by the number of the cloud.
---
 pytorch3d/renderer/points/pulsar/unified.py | 57 ++++++++++++---------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index e5dd76d..902e175 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -176,6 +176,17 @@ class PulsarPointsRenderer(nn.Module):
             )
         return orthogonal_projection
 
+    def _camera_param(self, name: str, kwargs: Dict[str, Any], cloud_idx: int):
+        """
+        Get a camera parameter for a point cloud: from the kwargs or the cameras
+        of the rasterizer, which can be one camera for all clouds.
+        """
+        if name in kwargs:
+            return kwargs[name][cloud_idx]
+        cameras = self.rasterizer.cameras
+        # pyrefly: ignore [bad-argument-type]
+        return getattr(cameras, name)[cloud_idx if len(cameras) > 1 else 0]
+
     def _extract_intrinsics(  # noqa: C901
         self, orthogonal_projection, kwargs, cloud_idx, device
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor, torch.Tensor, float, float]:
@@ -187,12 +198,12 @@ class PulsarPointsRenderer(nn.Module):
         if orthogonal_projection:
             focal_length = torch.zeros((1,), dtype=torch.float32)
             if isinstance(cameras, FoVOrthographicCameras):
-                znear = kwargs.get("znear", cameras.znear)[cloud_idx]
-                zfar = kwargs.get("zfar", cameras.zfar)[cloud_idx]
-                max_y = kwargs.get("max_y", cameras.max_y)[cloud_idx]
-                min_y = kwargs.get("min_y", cameras.min_y)[cloud_idx]
-                max_x = kwargs.get("max_x", cameras.max_x)[cloud_idx]
-                min_x = kwargs.get("min_x", cameras.min_x)[cloud_idx]
+                znear = self._camera_param("znear", kwargs, cloud_idx)
+                zfar = self._camera_param("zfar", kwargs, cloud_idx)
+                max_y = self._camera_param("max_y", kwargs, cloud_idx)
+                min_y = self._camera_param("min_y", kwargs, cloud_idx)
+                max_x = self._camera_param("max_x", kwargs, cloud_idx)
+                min_x = self._camera_param("min_x", kwargs, cloud_idx)
                 if max_y != -min_y:
                     raise ValueError(
                         "The orthographic camera must be centered around 0. "
@@ -204,11 +215,11 @@ class PulsarPointsRenderer(nn.Module):
                         f"Max is {max_x} and min is {min_x}."
                     )
                 if not torch.all(
-                    kwargs.get("scale_xyz", cameras.scale_xyz)[cloud_idx] == 1.0
+                    self._camera_param("scale_xyz", kwargs, cloud_idx) == 1.0
                 ):
                     raise ValueError(
                         "The orthographic camera scale must be ((1.0, 1.0, 1.0),). "
-                        f"{kwargs.get('scale_xyz', cameras.scale_xyz)[cloud_idx]}."
+                        f"{self._camera_param('scale_xyz', kwargs, cloud_idx)}."
                     )
                 sensor_width = max_x - min_x
                 if not sensor_width > 0.0:
@@ -222,9 +233,7 @@ class PulsarPointsRenderer(nn.Module):
             else:
                 # Currently, this means it must be an 'OrthographicCameras' object.
                 # pyrefly: ignore [missing-attribute]
-                focal_length_conf = kwargs.get("focal_length", cameras.focal_length)[
-                    cloud_idx
-                ]
+                focal_length_conf = self._camera_param("focal_length", kwargs, cloud_idx)
                 if (
                     focal_length_conf.numel() == 2
                     and focal_length_conf[0] * self.renderer._renderer.width
@@ -253,13 +262,13 @@ class PulsarPointsRenderer(nn.Module):
                 zfar = kwargs["zfar"][cloud_idx]
                 principal_point_x = (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][0]
+                    self._camera_param("principal_point", kwargs, cloud_idx)[0]
                     * 0.5
                     * self.renderer._renderer.width
                 )
                 principal_point_y = (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
+                    self._camera_param("principal_point", kwargs, cloud_idx)[1]
                     * 0.5
                     * self.renderer._renderer.height
                 )
@@ -267,27 +276,27 @@ class PulsarPointsRenderer(nn.Module):
             if not isinstance(cameras, PerspectiveCameras):
                 # Create a virtual focal length that is closer than znear.
                 # pyrefly: ignore [missing-attribute]
-                znear = kwargs.get("znear", cameras.znear)[cloud_idx]
+                znear = self._camera_param("znear", kwargs, cloud_idx)
                 # pyrefly: ignore [missing-attribute]
-                zfar = kwargs.get("zfar", cameras.zfar)[cloud_idx]
+                zfar = self._camera_param("zfar", kwargs, cloud_idx)
                 focal_length = znear - 1e-6
                 # Create a sensor size that matches the expected fov assuming this f.
                 # pyrefly: ignore [missing-attribute]
-                afov = kwargs.get("fov", cameras.fov)[cloud_idx]
+                afov = self._camera_param("fov", kwargs, cloud_idx)
                 # pyrefly: ignore [missing-attribute]
                 if kwargs.get("degrees", cameras.degrees):
                     afov = afov * (math.pi / 180.0)
                 sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length
                 if not (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("aspect_ratio", cameras.aspect_ratio)[cloud_idx]
+                    self._camera_param("aspect_ratio", kwargs, cloud_idx)
                     - self.renderer._renderer.width / self.renderer._renderer.height
                     < 1e-6
                 ):
                     raise ValueError(
                         # pyrefly: ignore [missing-attribute]
                         "The aspect ratio ("
-                        f"{kwargs.get('aspect_ratio', cameras.aspect_ratio)[cloud_idx]}) "
+                        f"{self._camera_param('aspect_ratio', kwargs, cloud_idx)}) "
                         "must agree with the resolution width / height ("
                         f"{self.renderer._renderer.width / self.renderer._renderer.height})."  # noqa: B950
                     )
@@ -296,9 +305,7 @@ class PulsarPointsRenderer(nn.Module):
                     torch.zeros((1,), dtype=torch.float32),
                 )
             else:
-                focal_length_conf = kwargs.get("focal_length", cameras.focal_length)[
-                    cloud_idx
-                ]
+                focal_length_conf = self._camera_param("focal_length", kwargs, cloud_idx)
                 if (
                     focal_length_conf.numel() == 2
                     and focal_length_conf[0] * self.renderer._renderer.width
@@ -334,12 +341,12 @@ class PulsarPointsRenderer(nn.Module):
                 )
                 sensor_width = focal_length / focal_length_px * 2.0
                 principal_point_x = (
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][0]
+                    self._camera_param("principal_point", kwargs, cloud_idx)[0]
                     * 0.5
                     * self.renderer._renderer.width
                 )
                 principal_point_y = (
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
+                    self._camera_param("principal_point", kwargs, cloud_idx)[1]
                     * 0.5
                     * self.renderer._renderer.height
                 )
@@ -373,9 +380,9 @@ class PulsarPointsRenderer(nn.Module):
         # Shorthand:
         cameras = self.rasterizer.cameras
         # pyrefly: ignore [missing-attribute]
-        R = kwargs.get("R", cameras.R)[cloud_idx]
+        R = self._camera_param("R", kwargs, cloud_idx)
         # pyrefly: ignore [missing-attribute]
-        T = kwargs.get("T", cameras.T)[cloud_idx]
+        T = self._camera_param("T", kwargs, cloud_idx)
         tmp_cams = PerspectiveCameras(
             R=R.unsqueeze(0), T=T.unsqueeze(0), device=R.device
         )
-- 
2.43.0


From 9989523f14133af6c105e9db08639d701bc87aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 155/164] fix: Pulsar uses the opacities of every element of a
 batch

---
 pytorch3d/csrc/pulsar/pytorch/renderer.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/pytorch/renderer.cpp b/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
index 79e6817..3f8607a 100644
--- a/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
+++ b/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
@@ -733,9 +733,12 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
   // in scope to keep it alive.
   torch::Tensor opacity_contiguous;
   float const* opacity_ptr = nullptr;
+  // Distance between the opacity values of consecutive batch elements.
+  size_t opacity_stride = 0;
   if (opacity.has_value()) {
     opacity_contiguous = opacity.value().contiguous();
     opacity_ptr = opacity_contiguous.data_ptr<float>();
+    opacity_stride = n_points;
   }
   if (this->device_type == c10::DeviceType::CUDA) {
 // No else check necessary - if not compiled with CUDA
@@ -761,7 +764,7 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
             percent_allowed_difference,
             max_n_hits,
             real_bg_col.contiguous().data_ptr<float>(),
-            opacity_ptr,
+            opacity_ptr + batch_i * opacity_stride,
             n_points,
             mode,
             at::cuda::getCurrentCUDAStream());
@@ -808,7 +811,7 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
             percent_allowed_difference,
             max_n_hits,
             real_bg_col.contiguous().data_ptr<float>(),
-            opacity_ptr,
+            opacity_ptr + batch_i * opacity_stride,
             n_points,
             mode,
             nullptr);
@@ -1091,9 +1094,12 @@ Renderer::backward(
   // in scope to keep it alive.
   torch::Tensor opacity_contiguous;
   float const* opacity_ptr = nullptr;
+  // Distance between the opacity values of consecutive batch elements.
+  size_t opacity_stride = 0;
   if (opacity.has_value()) {
     opacity_contiguous = opacity.value().contiguous();
     opacity_ptr = opacity_contiguous.data_ptr<float>();
+    opacity_stride = n_points;
   }
   if (this->device_type == c10::DeviceType::CUDA) {
 // No else check necessary - it's not possible to move
@@ -1121,7 +1127,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr + batch_i * opacity_stride,
               n_points,
               mode,
               dif_pos,
@@ -1145,7 +1151,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr + batch_i * opacity_stride,
               n_points,
               mode,
               dif_pos,
@@ -1234,7 +1240,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr + batch_i * opacity_stride,
               n_points,
               mode,
               dif_pos,
@@ -1258,7 +1264,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr + batch_i * opacity_stride,
               n_points,
               mode,
               dif_pos,
-- 
2.43.0


From d908f87673188b3c0e1dadde071d419e788fa8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 156/164] fix: vertical principal points in
 PulsarPointsRenderer

The rendered image is flipped vertically, and with it the direction in
which the principal point moves it.
---
 pytorch3d/renderer/points/pulsar/unified.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 902e175..8f31f75 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -266,10 +266,11 @@ class PulsarPointsRenderer(nn.Module):
                     * 0.5
                     * self.renderer._renderer.width
                 )
+                # The image is flipped vertically after the rendering.
                 principal_point_y = (
                     # pyrefly: ignore [missing-attribute]
                     self._camera_param("principal_point", kwargs, cloud_idx)[1]
-                    * 0.5
+                    * -0.5
                     * self.renderer._renderer.height
                 )
         else:
@@ -345,9 +346,10 @@ class PulsarPointsRenderer(nn.Module):
                     * 0.5
                     * self.renderer._renderer.width
                 )
+                # The image is flipped vertically after the rendering.
                 principal_point_y = (
                     self._camera_param("principal_point", kwargs, cloud_idx)[1]
-                    * 0.5
+                    * -0.5
                     * self.renderer._renderer.height
                 )
         focal_length = _ensure_float_tensor(focal_length, device)
-- 
2.43.0


From 6923d9e194a724a88db1ff30949a1f9be584d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 157/164] fix: Pulsar's camera gradients with shifted principal
 points

---
 .../pulsar/include/renderer.draw.device.h     | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 4a61e71..854aba9 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -736,24 +736,29 @@ INLINE DEVICE bool draw(
                   dimDdcoeff * dcoeffDdray.x,
                   dimDdcoeff * dcoeffDdray.y,
                   dimDdcoeff * dcoeffDdray.z);
-              grad_cam->pixel_dir_x +=
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray;
+              // The center of the first pixel of the aperture was found by
+              // moving pixel_0_0_center by the principal point offset along
+              // the pixel directions.
+              const float pixel_x = static_cast<float>(coord_x) -
+                  FABS(static_cast<float>(cam.principal_point_offset_x));
+              const float pixel_y = static_cast<float>(coord_y) -
+                  FABS(static_cast<float>(cam.principal_point_offset_y));
+              grad_cam->pixel_dir_x += (dimDdcoeff * pixel_x) * dcoeffDdray;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
                   idx,
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.x,
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.y,
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.z);
-              grad_cam->pixel_dir_y +=
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray;
+                  (dimDdcoeff * pixel_x) * dcoeffDdray.x,
+                  (dimDdcoeff * pixel_x) * dcoeffDdray.y,
+                  (dimDdcoeff * pixel_x) * dcoeffDdray.z);
+              grad_cam->pixel_dir_y += (dimDdcoeff * pixel_y) * dcoeffDdray;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_y: %.9f, %.9f, %.9f.\n",
                   idx,
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray.x,
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray.y,
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray.z);
+                  (dimDdcoeff * pixel_y) * dcoeffDdray.x,
+                  (dimDdcoeff * pixel_y) * dcoeffDdray.y,
+                  (dimDdcoeff * pixel_y) * dcoeffDdray.z);
             }
           }
         }
-- 
2.43.0


From 0f0b9f5f84b4141bffacc18a5b393a31e899f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 158/164] fix: collating ShapeNet items without textures

---
 pytorch3d/datasets/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/datasets/utils.py b/pytorch3d/datasets/utils.py
index 935023c..c1d94cd 100644
--- a/pytorch3d/datasets/utils.py
+++ b/pytorch3d/datasets/utils.py
@@ -38,7 +38,9 @@ def collate_batched_meshes(batch: List[Dict]):  # pragma: no cover
     collated_dict["mesh"] = None
     if {"verts", "faces"}.issubset(collated_dict.keys()):
         textures = None
-        if "textures" in collated_dict:
+        if "textures" in collated_dict and all(
+            t is not None for t in collated_dict["textures"]
+        ):
             textures = TexturesAtlas(atlas=collated_dict["textures"])
 
         # pyrefly: ignore [unsupported-operation]
-- 
2.43.0


From 1d7cf3ecf3a065f2d90d4d463a0be62e0d8cc054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 159/164] fix: reading binvox files without filled voxels

---
 pytorch3d/datasets/r2n2/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/datasets/r2n2/utils.py b/pytorch3d/datasets/r2n2/utils.py
index 3bfcac6..c12bb51 100644
--- a/pytorch3d/datasets/r2n2/utils.py
+++ b/pytorch3d/datasets/r2n2/utils.py
@@ -240,6 +240,10 @@ def _compute_idxs(vals, counts):  # pragma: no cover
     counts = counts[mask].to(end_idxs)
     start_idxs = end_idxs - counts
 
+    # There may be no filled voxels at all.
+    if counts.shape[0] == 0:
+        return torch.zeros((0,), dtype=torch.int64)
+
     # We initialize delta as:
     # [2, 1, 1, 1, 1, 1]
     delta = torch.ones(counts.sum().item(), dtype=torch.int64)
-- 
2.43.0


From b4ec3fab023dfaeb864f5644d200addf8510defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 160/164] fix: NeRF's knot trajectories are around the central
 camera

---
 projects/nerf/nerf/eval_video_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/nerf/nerf/eval_video_utils.py b/projects/nerf/nerf/eval_video_utils.py
index 0dca5f8..22b8db5 100644
--- a/projects/nerf/nerf/eval_video_utils.py
+++ b/projects/nerf/nerf/eval_video_utils.py
@@ -9,6 +9,7 @@ from typing import Tuple
 
 import torch
 from pytorch3d.renderer import look_at_view_transform, PerspectiveCameras
+from pytorch3d.transforms import Scale
 from torch.utils.data.dataset import Dataset
 
 
@@ -65,12 +66,12 @@ def generate_eval_video_cameras(
         traj[:, 2] -= traj[:, 2].max()
 
         # transform the canonical knot to the coord frame of the mean camera
-        traj_trans = (
+        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale)
+        traj_trans = traj_trans.compose(
             train_dataset[mean_camera_idx]["camera"]
             .get_world_to_view_transform()
             .inverse()
         )
-        traj_trans = traj_trans.scale(cam_centers.std(dim=0).mean() * trajectory_scale)
         traj = traj_trans.transform_points(traj)
 
     elif trajectory_type == "circular":
-- 
2.43.0


From 2e93b03dc687b6670e66fa18b0d54260a889a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 161/164] fix: NeRF compares with the pixels of the images, not
 with locations beside them

---
 projects/nerf/nerf/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/nerf/nerf/utils.py b/projects/nerf/nerf/utils.py
index dbe5e91..064b031 100644
--- a/projects/nerf/nerf/utils.py
+++ b/projects/nerf/nerf/utils.py
@@ -53,7 +53,10 @@ def sample_images_at_mc_locs(
     images_sampled = torch.nn.functional.grid_sample(
         target_images.permute(0, 3, 1, 2),
         xy_sample,
-        align_corners=True,
+        # The outer edges of the image, not the centers of its outermost
+        # pixels, are at -1 and 1.
+        align_corners=False,
         mode="bilinear",
+        padding_mode="border",
     )
     return images_sampled.permute(0, 2, 3, 1).view(ba, *spatial_size, dim)
-- 
2.43.0


From 88bff381a3a04a96f0c4cfdf0a56fda17f73787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 162/164] fix: resumed trainings with MultiStepLR do not decay
 the learning rate twice

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 2305979..7257b63 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -160,6 +160,12 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
         if optimizer_state is not None:
             logger.info("Setting loaded optimizer state.")
             optimizer.load_state_dict(optimizer_state)
+            # The loaded learning rates are those of the epoch which was stored.
+            # The scheduler has to begin with the initial ones because it is
+            # stepped through all the past epochs below.
+            for param_group in optimizer.param_groups:
+                if "initial_lr" in param_group:
+                    param_group["lr"] = param_group["initial_lr"]
 
         # Initialize the learning rate scheduler
         if self.lr_policy.casefold() == "MultiStepLR".casefold():
-- 
2.43.0


From fcc58ed34d6ed90c3b2e752781f7e5a69d4b4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 163/164] fix: the self key of param_groups as a part of a
 longer key

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 7257b63..efa79ae 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -303,16 +303,17 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
                 mapping: known mappings of parameters to groups for this module,
                     destructively modified by this function.
             """
+            if hasattr(module, "param_groups"):
+                mapping.update(module.param_groups)
+
             # If key self is defined in param_groups then chenge the default param
             # group for all parameters and children in the module.
-            if hasattr(module, "param_groups") and "self" in module.param_groups:
-                default_group = module.param_groups["self"]
+            if "self" in mapping:
+                default_group = mapping["self"]
 
             # Collect all the parameters that are directly inside the `module`,
             # they will be in the default param group if they don't have
             # defined group.
-            if hasattr(module, "param_groups"):
-                mapping.update(module.param_groups)
 
             for name, param in module.named_parameters(recurse=False):
                 if param.requires_grad:
-- 
2.43.0


From 46322a0bba9a0da51ec679cdca785a037d39543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 164/164] fix: optimizer states of configured trainings can be
 loaded again

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index efa79ae..458a055 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -141,7 +141,9 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
             optimizer_class = torch.optim.Adagrad
         elif self.breed == "Adam":
             optimizer_class = torch.optim.Adam
-            optimizer_kwargs["betas"] = self.betas
+            # A ListConfig in the state of the optimizer could not be loaded again
+            # with weights_only=True.
+            optimizer_kwargs["betas"] = tuple(self.betas)
         else:
             raise ValueError(f"No such solver type {self.breed}")
 
-- 
2.43.0

