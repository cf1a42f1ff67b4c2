From e2752a88dbb9ee19f51b67fadd26298d0df735b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 01/25] fix: keep the Lorentz factor of a single reflection
 one-dimensional

---
 xrd_simulator/scattering_factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b58454d..69c0f28 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -64,7 +64,7 @@ def _lorentz(
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
     result = torch.where(condition, torch.tensor(float("inf")), result)
 
-    return result.squeeze()  # Remove singleton dimensions for single vector input
+    return result[0] if k_out.dim() == 1 else result  # Scalar for single vector input
 
 
 def _polarization(k_out: torch.Tensor, pol_vec: torch.Tensor) -> torch.Tensor | float:
-- 
2.43.0


From bfaf1c59c1eb6a6d08ecc45afc1b9dbd224169f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 02/25] fix: TetraMesh.translate no longer drops earlier
 motions or writes into the caller's node array

---
 xrd_simulator/mesh.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..fc312ef 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -222,15 +222,14 @@ class TetraMesh(object):
         translation_vector : numpy.ndarray or torch.Tensor
             Translation vector ``[x, y, z]``, shape ``(3,)``.
         """
-        # Convert to numpy if torch tensor
-        if torch.is_tensor(translation_vector):
-            translation_vector = utils.ensure_numpy(translation_vector)
-        
-        self._mesh.points += translation_vector
-        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
-        self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-        self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-        self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)
+        # The nodes are moved from where they are now and out of place, such that neither
+        # earlier rotations are lost nor the arrays of the caller are modified.
+        translation = utils.ensure_torch(translation_vector, dtype=torch.float64)
+        self.coord = self.coord + translation
+        self._mesh.points = utils.ensure_numpy(self.coord)
+        self.ecentroids = self.ecentroids + translation
+        self.espherecentroids = self.espherecentroids + translation
+        self.centroid = self.centroid + translation
 
     def rotate(self, rotation_axis, angle):
         """Rotate the mesh.
-- 
2.43.0


From c786b77392d2aefb89be52fdb5134473b667b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 03/25] fix: TetraMesh.save does not rewrite the caller's
 element data

---
 xrd_simulator/mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index fc312ef..d952d9e 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -285,6 +285,7 @@ class TetraMesh(object):
             save_path = file
 
         if element_data is not None:
+            element_data = dict(element_data)
             for key in element_data:
                 if torch.is_tensor(element_data[key]):
                     element_data[key] = [list(utils.ensure_numpy(element_data[key]))]
-- 
2.43.0


From edbb35b2e519f4f609e05a1901ecfff2ddfd06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 04/25] fix: Polycrystal.save places the xdmf file next to the
 pickle for any path

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..13a79de 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -456,7 +456,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0


From 487bfb9a8b99297a28096eb83a45207b1f4c4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 05/25] fix: a polycrystal without phase map can be diffracted

---
 xrd_simulator/polycrystal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 13a79de..a1d70b5 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -625,8 +625,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        else:
-            element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 878a776b200e6d8315d455da54dcdd0f3cba0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 06/25] fix: render method auto respects render_dtype

---
 xrd_simulator/detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..cbc757a 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -349,6 +349,7 @@ class Detector:
                     self.pixel_coordinates.shape[1],
                 ),
                 device=peaks.device,
+                dtype=target_dtype,
             )
 
             # Collect contributions (each returns frames_to_render-length tensors)
-- 
2.43.0


From 1d7f5463afecd9f77891787cdb675010e248dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 07/25] fix: render method auto draws a peak once also when the
 grain limits overlap

---
 xrd_simulator/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index cbc757a..b985de0 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -339,7 +339,7 @@ class Detector:
             if macro_grain_limit is None:
                 macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3
             large_grains_mask = peaks[:, 21] >= macro_grain_limit
-            small_grains_mask = peaks[:, 21] < micro_grain_limit
+            small_grains_mask = (peaks[:, 21] < micro_grain_limit) & (~large_grains_mask)
             medium_grains_mask = (~large_grains_mask) & (~small_grains_mask)
 
             diffraction_frames = torch.zeros(
-- 
2.43.0


From 98d41e23b63c3e9bd87318388fa7600c1e346c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 08/25] fix: building a polycrystal does not convert the
 caller's mesh in place

---
 xrd_simulator/polycrystal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index a1d70b5..1be7f20 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -742,6 +742,7 @@ class Polycrystal:
         TetraMesh
             Mesh with torch tensors.
         """
+        mesh = copy.copy(mesh)
         mesh.coord = ensure_torch(mesh.coord)
         mesh.enod = ensure_torch(mesh.enod).to(dtype=torch.int32)
         mesh.dof = ensure_torch(mesh.dof)
-- 
2.43.0


From 46aa6ce265c0e80c91552de99b09552fa98aff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 09/25] fix: a diffraction result keeps the mesh as it was when
 diffracted

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 1be7f20..7e81924 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -223,7 +223,7 @@ class Polycrystal:
             "wavelength": beam.wavelength,
             "rotation_axis": rigid_body_motion.rotation_axis,
             # Store mesh and motion data for on-demand hull computation
-            "mesh_lab": self.mesh_lab,
+            "mesh_lab": copy.deepcopy(self.mesh_lab),
             "rigid_body_motion": rigid_body_motion,
             "beam": beam,
             "verbose": verbose,
-- 
2.43.0


From 59fe893d8be04c97d6599fa3db7bffe922618b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 10/25] fix: number of detector pixels is not changed by
 floating point rounding

---
 xrd_simulator/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b985de0..cf7593f 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -414,8 +414,11 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # Number of pixels per side, insensitive to the rounding of e.g. 2.1 / 0.3
+        n_z = int(torch.ceil(self.zmax / self.pixel_size_z - 1e-6))
+        n_y = int(torch.ceil(self.ymax / self.pixel_size_y - 1e-6))
+        zds = torch.arange(n_z, dtype=torch.float64, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, dtype=torch.float64, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
-- 
2.43.0


From 35ef282b6f9a0969c7f0e11b75bd02726fe0cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 11/25] fix: macro renderer reaches the last row and column of
 pixels

---
 xrd_simulator/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index cf7593f..64e0c7d 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -591,8 +591,8 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        max_row_indx = min(max_row_indx + 1, self.pixel_coordinates.shape[0])
+        max_col_indx = min(max_col_indx + 1, self.pixel_coordinates.shape[1])
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
-- 
2.43.0


From b5c381d6ced920ba69155973876000833fd71df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 12/25] fix: macro intensity is that of the illuminated volume
 for any pixel size

---
 xrd_simulator/detector.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 64e0c7d..41f9bb1 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1576,12 +1576,9 @@ class Detector:
                         # by peaks_detector_intersection. This check is defensive.
                         if torch.isfinite(intensity):
                             projection_torch = ensure_torch(projection)
-                            # projection is path length, multiply by pixel area to get volume
-                            projected_volume = (
-                                projection_torch * self.pixel_size_z * self.pixel_size_y
-                            )
-                            # Multiply intensity per volume by projected volume
-                            result = (intensity * projected_volume).to(render_dtype)
+                            # projection is the scattering volume seen by each pixel,
+                            # multiply by the intensity per volume
+                            result = (intensity * projection_torch).to(render_dtype)
                             frames[box[0] : box[1], box[2] : box[3]] += result
 
             # Apply Gaussian convolution for point spread function
-- 
2.43.0


From 655d75aa179448526b60f19ae79924d06a8b2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 13/25] fix: micro renderer does not drop weak peaks

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 41f9bb1..1eb3ffa 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -920,7 +920,6 @@ class Detector:
             weights = torch.exp(-dist_sq / (2 * sigma**2))
             weight_sums = weights.sum(dim=1, keepdim=True)
             weights = weights / (weight_sums + 1e-12)
-            weights = weights * intensities[start:end].unsqueeze(1)
 
             valid = (
                 (z_pixels >= 0)
@@ -930,6 +929,8 @@ class Detector:
                 & (weights > 1e-6)
             )  # Only significant weights
 
+            weights = weights * intensities[start:end].unsqueeze(1)
+
             if valid.any():
                 valid_peaks, valid_offsets = valid.nonzero(as_tuple=True)
                 z_coords = z_pixels[valid].long()  # Convert to long for indexing
-- 
2.43.0


From 1b281df97187b6129b845a890798442385b04a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 14/25] fix: RigidBodyMotion.translate accepts points of shape
 (N, 3)

---
 xrd_simulator/motion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..60d674a 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -191,10 +191,10 @@ class RigidBodyMotion:
         
         vectors = ensure_torch(vectors)
         
-        if len(vectors.shape) > 1:
-            translation = self.translation.reshape(3, 1)
-        else:
+        if vectors.shape[-1] == 3:
             translation = self.translation
+        else:
+            translation = self.translation.reshape(3, 1)
 
         return vectors + translation * time
 
-- 
2.43.0


From 9c0627417cfe4839cf4644c358b5200daf7691c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 15/25] fix: a hull missed by all pixel rays does not turn the
 frame into NaN

---
 xrd_simulator/detector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 1eb3ffa..911bd06 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1678,6 +1678,10 @@ class Detector:
                 ray_points, ray_direction, plane_points, plane_normals
             )
 
+            # a thin hull can pass between all pixel rays, spread it over its box
+            if clip_lengths.sum() == 0:
+                clip_lengths = torch.ones_like(clip_lengths)
+
             # ensure that scattering is proportional to the material volume
             # that is scattering.
             clip_lengths /= clip_lengths.sum()
-- 
2.43.0


From a9bf6f8d7c7ddcee1709b6c382665afa245c1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 16/25] fix: macro samples outside of the detector are dropped
 instead of wrapped or raising

---
 xrd_simulator/detector.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 911bd06..6149fe3 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1658,12 +1658,19 @@ class Detector:
             zd = out[:, 0]
             yd = out[:, 1]
 
-            row_index = ensure_numpy(zd / self.pixel_size_z).astype(int) - box[0]
-            col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
+            row_index = np.floor(ensure_numpy(zd / self.pixel_size_z)) - box[0]
+            col_index = np.floor(ensure_numpy(yd / self.pixel_size_y)) - box[2]
 
+            # the hull may reach outside of the detector, such samples are dropped
             box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
+            inside = (row_index >= 0) & (row_index < box_intensities.shape[0])
+            inside &= (col_index >= 0) & (col_index < box_intensities.shape[1])
+            row_index = row_index[inside].astype(int)
+            col_index = col_index[inside].astype(int)
+            clip_lengths = ensure_numpy(clip_lengths)[inside]
+
             np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
+            box_intensities /= max(box_intensities.sum(), np.finfo(float).tiny)
             box_intensities *= proj_context["convex_hull"].volume
 
             return ensure_torch(box_intensities)
-- 
2.43.0


From 7f749110f94db42dca3057487bbbe02327fda796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 17/25] fix: RigidBodyMotion keeps the shape of its input for
 all documented combinations of points and times

---
 xrd_simulator/motion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 60d674a..23f46ef 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -99,6 +99,8 @@ class RigidBodyMotion:
         # assert time <= 1 and time >= 0, "The rigid body motion is only valid on the interval time=[0,1]"
         vectors = ensure_torch(vectors)
         time = ensure_torch(time)
+        if time.ndim == 1 and len(time) == 1:
+            time = time[0]
 
         if len(vectors.shape) == 1:
             translation = self.translation
@@ -126,6 +128,7 @@ class RigidBodyMotion:
         elif len(vectors.shape) == 3:
             # Handle (N, M, 3) input shapes - typically (N_peaks, 4_vertices, 3_coords)
             N, M, _ = vectors.shape
+            time = time.expand(N)
             translation = self.translation.reshape(1, 3)
             origin = self.origin.reshape(1, 3)
             centered_vectors = vectors - origin
@@ -362,13 +365,15 @@ class _RodriguezRotator(object):
         R = self.get_rotation_matrix(rotation_angle)
         vectors = ensure_torch(vectors)
 
-        if len(vectors.shape) == 1:
+        single_vector = len(vectors.shape) == 1
+        if single_vector:
             vectors = vectors[None, :]
         
         # Handle both scalar and vector rotation_angle cases
         if rotation_angle.ndim == 0:
             # Scalar case: R is (3,3), vectors is (N,3) -> output (N,3)
-            return torch.squeeze(torch.matmul(R, vectors[:, :, None]))
+            rotated = torch.matmul(R, vectors[:, :, None]).squeeze(-1)
+            return rotated[0] if single_vector else rotated
         else:
             # Vector case: R is (N,3,3), vectors is (N,3) -> output (N,3)
             # Use bmm: (N,3,3) × (N,3,1) -> (N,3,1) -> squeeze to (N,3)
-- 
2.43.0


From 0e54992602a6a91222bd7d6ae214f9aa967546aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 18/25] fix: report the diffraction time when the half angle
 equation is linear

---
 xrd_simulator/laue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..54d19ee 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -101,8 +101,11 @@ def _find_solutions_to_tangens_half_angle_equation(
     numerator = rho_2 + rho_0
 
     del rho_2
+    # Where the quadratic term vanishes the equation is linear with a single solution
+    is_linear = denominator == 0
+    linear_solution = -numerator / (2 * torch.matmul(rho_1_factor, G_0))
     #Remove 0 denominators
-    denominator[denominator==0] = torch.nan
+    denominator[is_linear] = torch.nan
 
     # Calculate coefficients for quadratic equation
     a = torch.divide(
@@ -132,6 +135,8 @@ def _find_solutions_to_tangens_half_angle_equation(
     s1 = -a + torch.sqrt(discriminant)
     s2 = -a - torch.sqrt(discriminant)
     del a, discriminant
+    s1 = torch.where(is_linear, linear_solution, s1)
+    del is_linear, linear_solution
     t1 = 2 * torch.arctan(s1) / delta_omega
     del s1
     indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))
-- 
2.43.0


From 623a6420cd815fed93978b5b91ee698907fe1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 19/25] fix: sample Airy kernels on a grid centred on the peak

A kernel radius that is not a whole number of pixels gave a grid without
r = 0, shifting the rendered peaks by up to a pixel and mixing up the
sizes of the kernels of a batch.
---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 6149fe3..c577e2f 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1225,7 +1225,8 @@ class Detector:
         # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
         # for small crystallites (broad patterns)
         # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
+        # A whole number of pixels, such that the central pixel is at r = 0
+        radius = torch.tensor(float(np.ceil(max(4.0 * float(max_first_zero), 8.0))))
 
         # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-- 
2.43.0


From 6a60a8d743e34bb7bce41056b7b732dffc8af581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 20/25] fix: element volumes are positive for every node order

---
 xrd_simulator/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index d952d9e..8d27062 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -455,7 +455,8 @@ class TetraMesh(object):
         a = vertices[:, 1, :] - vertices[:, 0, :]
         b = vertices[:, 2, :] - vertices[:, 0, :]
         c = vertices[:, 3, :] - vertices[:, 0, :]
-        evolumes = (1 / 6.0) * torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
+        # the triple product is negative for nodes listed in left handed order
+        evolumes = (1 / 6.0) * torch.abs(torch.sum(torch.cross(a, b, dim=1) * c, dim=1))
         return evolumes
 
     def _compute_mesh_spheres(self, coord, enod):
-- 
2.43.0


From 7762c67f630ac538a0d8fafe94462151742b9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 21/25] fix: beam clipping finds the common interior of an
 element and the beam

The point between the half-spaces was a corner of the feasible region pushed
off the planes it touches exactly; with planes rounded to six decimals other
planes are missed by a hair, the pushed point was rejected and elements inside
the beam were dropped.
---
 xrd_simulator/beam.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 8724621..d4892ef 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -272,11 +272,13 @@ class Beam:
             Interior point if found, otherwise ``None``.
         """
         halfspaces = ensure_numpy(halfspaces)
+        normals = halfspaces[:, :-1]
+        # centre of the largest ball that fits between all the halfspaces
         res = linprog(
-            c=np.zeros((3,)),
-            A_ub=halfspaces[:, :-1],
+            c=np.array([0.0, 0.0, 0.0, -1.0]),
+            A_ub=np.hstack((normals, np.linalg.norm(normals, axis=1, keepdims=True))),
             b_ub=-halfspaces[:, -1],
-            bounds=(None, None),
+            bounds=[(None, None), (None, None), (None, None), (0, None)],
             method="highs",
             options={
                 "maxiter": 5000,
@@ -284,15 +286,9 @@ class Beam:
             },  # typical solve time is ~1-2 ms
         )
         if res.success:
-            if np.any(res.slack == 0):
-                A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.solve(
-                    A.T.dot(A), A.T.dot(-np.ones((A.shape[0],)) * 1e-5)
-                )
-                trial = res.x + dx
-            else:
-                trial = res.x
-            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
+            trial = res.x[:3]
+            # (the halfspaces are rounded to six decimals)
+            if np.all((normals.dot(trial) + halfspaces[:, -1]) < -1e-6):
                 return trial
             else:
                 return None
-- 
2.43.0


From f50f0325ce13f79639dbaec8d1a8a7025d730924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 22/25] fix: sample candidate spheres at steps of at most one
 degree and half a radius

Truncating the number of samples made the steps longer than documented.
---
 xrd_simulator/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index d4892ef..07a522a 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -332,7 +332,7 @@ class Beam:
         dx = torch.min(sphere_radius) / 2.0
         translation = torch.abs(rigid_body_motion.translation / dx)
         number_of_sampling_points = int(
-            torch.max(
+            np.ceil(torch.max(
                 ensure_torch(
                     [
                         torch.max(translation),
@@ -340,7 +340,7 @@ class Beam:
                         ensure_torch(2.0),
                     ]
                 )
-            ).item()
+            ).item())
             + 1
         )
         sample_times = torch.linspace(0, 1, number_of_sampling_points)
-- 
2.43.0


From ddc98ef4b98d0456abbff31f498a2367154b6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:10 +0000
Subject: [PATCH 23/25] fix: candidate spheres move by the length of the
 translation, not by its largest component

---
 xrd_simulator/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 07a522a..557ba8d 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -330,7 +330,7 @@ class Beam:
         inverse_rigid_body_motion = rigid_body_motion.inverse()
 
         dx = torch.min(sphere_radius) / 2.0
-        translation = torch.abs(rigid_body_motion.translation / dx)
+        translation = torch.linalg.norm(rigid_body_motion.translation) / dx
         number_of_sampling_points = int(
             np.ceil(torch.max(
                 ensure_torch(
-- 
2.43.0


From c3eb84645f14a966eba369e876ca6f4c9a721be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:33 +0000
Subject: [PATCH 24/25] fix: clipping an element by the beam does not depend on
 the load of the machine

The search for a point common to the element and the beam was given up after
0.1 s of wall time, such that on a busy machine elements lost part of their
diffracting volume at random.
---
 xrd_simulator/beam.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 557ba8d..204b97a 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -280,10 +280,8 @@ class Beam:
             b_ub=-halfspaces[:, -1],
             bounds=[(None, None), (None, None), (None, None), (0, None)],
             method="highs",
-            options={
-                "maxiter": 5000,
-                "time_limit": 0.1,
-            },  # typical solve time is ~1-2 ms
+            # (no time limit: the answer must not depend on the load of the machine)
+            options={"maxiter": 5000},  # typical solve time is ~1-2 ms
         )
         if res.success:
             trial = res.x[:3]
-- 
2.43.0


From ae6cbee79ad860a44132e43c4e05db462132fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:19 +0000
Subject: [PATCH 25/25] fix: a stack of one strain tensor gives a stack of one
 B matrix

---
 xrd_simulator/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..2a69046 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -268,6 +268,7 @@ def _lab_strain_to_B_matrix(
     crystal_orientation = ensure_torch(crystal_orientation)
     B0 = ensure_torch(B0)
 
+    single = strain_tensor.ndim == 2 and crystal_orientation.ndim == 2
     if strain_tensor.ndim == 2:
         strain_tensor = strain_tensor.unsqueeze(0)
     if crystal_orientation.ndim == 2:
@@ -278,7 +279,7 @@ def _lab_strain_to_B_matrix(
         torch.matmul(strain_tensor, crystal_orientation),
     )
     B = _epsilon_to_b(crystal_strain, B0)
-    return B.squeeze()
+    return B[0] if single else B
 
 
 def _set_xfab_logging(disabled):
-- 
2.43.0

