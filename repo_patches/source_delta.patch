From fceb07d8ba0fcff86f1426335269ed12ddaa4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 01/47] fix: diffract() crashed when exactly one reflection was
 found

_lorentz() squeezes a single reflection to a 0-dim tensor, on which
unsqueeze(1) raises IndexError.
---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..c202d82 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -376,7 +376,7 @@ class Polycrystal:
                 Gxyz,
                 K_out_xyz,
                 Sources_xyz,
-                lorentz_factors.unsqueeze(1),
+                lorentz_factors.reshape(-1, 1),
                 polarization_factors.unsqueeze(1),
                 volumes.unsqueeze(1),
                 two_theta.unsqueeze(1),
-- 
2.43.0


From fc9245cd5d9d33dda670b3d726d04c62e41b15ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 02/47] fix: polycrystals built without element_phase_map could
 not diffract

The default map was left as a numpy array and torch.where() raised.
---
 xrd_simulator/polycrystal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index c202d82..b901625 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -625,8 +625,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        else:
-            element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 260a62571bbda0827822f8134bf6f4c95fc57e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 03/47] fix: write the .xdmf next to the .pc when the path
 contains other dots

path.split(".")[0] cut "./x.pc" to "" and "run.1/x.pc" to "run".
---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index b901625..97585e4 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -456,7 +456,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0


From ca83c6e2888feb892ed66fe217202e898a30993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/47] fix: TetraMesh.save() no longer rewrites the caller's
 element_data

---
 xrd_simulator/mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..95341ae 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -286,6 +286,7 @@ class TetraMesh(object):
             save_path = file
 
         if element_data is not None:
+            element_data = dict(element_data)  # leave the caller's dict untouched
             for key in element_data:
                 if torch.is_tensor(element_data[key]):
                     element_data[key] = [list(utils.ensure_numpy(element_data[key]))]
-- 
2.43.0


From ca3fb9f0029e223275b3777e54589a440af99eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 05/47] fix: report unfeasible strain as ValueError for every
 batch size

Formatting the message indexed the batch axis and raised IndexError for
one or two elements.
---
 xrd_simulator/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..008030c 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -333,7 +333,7 @@ def _epsilon_to_b(crystal_strain, B0):
     if torch.any(eigen_vals < 0):
         raise ValueError(
             "Unfeasible strain tensor with value: "
-            + str(_strain_as_vector(crystal_strain))
+            + str(ensure_numpy(crystal_strain).tolist())
             + ", will invert the unit cell with negative deformation gradient tensor determinant"
         )
     if C.ndim == 3:
-- 
2.43.0


From 150d3c27fb0e965d14656ec5cf59c0f27b85089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 06/47] fix: TetraMesh.translate() after rotate()/update() lost
 the rotation

The translation was added to the points stored at construction, which
update() does not maintain.
---
 xrd_simulator/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 95341ae..e4adfe9 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -226,7 +226,7 @@ class TetraMesh(object):
         if torch.is_tensor(translation_vector):
             translation_vector = utils.ensure_numpy(translation_vector)
         
-        self._mesh.points += translation_vector
+        self._mesh.points = utils.ensure_numpy(self.coord) + translation_vector
         self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
         self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
         self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-- 
2.43.0


From 4d8a4a41f63804a668f41f7fe7b423d5919cad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 07/47] fix: TetraMesh.evolumes was negative for left-handed
 node orderings

---
 xrd_simulator/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index e4adfe9..3eb6c78 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -456,7 +456,7 @@ class TetraMesh(object):
         a = vertices[:, 1, :] - vertices[:, 0, :]
         b = vertices[:, 2, :] - vertices[:, 0, :]
         c = vertices[:, 3, :] - vertices[:, 0, :]
-        evolumes = (1 / 6.0) * torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
+        evolumes = (1 / 6.0) * torch.abs(torch.sum(torch.cross(a, b, dim=1) * c, dim=1))
         return evolumes
 
     def _compute_mesh_spheres(self, coord, enod):
-- 
2.43.0


From 1d87dbe4e7c96a6963120c73f245578d09284663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 08/47] fix: rotating a single (1, 3) vector dropped its
 leading dimension

---
 xrd_simulator/motion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..e6b4f0d 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -364,11 +364,13 @@ class _RodriguezRotator(object):
 
         if len(vectors.shape) == 1:
             vectors = vectors[None, :]
-        
+            if rotation_angle.ndim == 0:
+                return torch.matmul(R, vectors[0])
+
         # Handle both scalar and vector rotation_angle cases
         if rotation_angle.ndim == 0:
             # Scalar case: R is (3,3), vectors is (N,3) -> output (N,3)
-            return torch.squeeze(torch.matmul(R, vectors[:, :, None]))
+            return torch.matmul(R, vectors[:, :, None]).squeeze(-1)
         else:
             # Vector case: R is (N,3,3), vectors is (N,3) -> output (N,3)
             # Use bmm: (N,3,3) × (N,3,1) -> (N,3,1) -> squeeze to (N,3)
-- 
2.43.0


From d512349bc899a89a13c9344de68553e6bbc48b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 09/47] fix: allow a scalar time for (N, 4, 3) point sets in
 RigidBodyMotion

---
 xrd_simulator/motion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index e6b4f0d..9c5a244 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -126,6 +126,7 @@ class RigidBodyMotion:
         elif len(vectors.shape) == 3:
             # Handle (N, M, 3) input shapes - typically (N_peaks, 4_vertices, 3_coords)
             N, M, _ = vectors.shape
+            time = time.expand(N)
             translation = self.translation.reshape(1, 3)
             origin = self.origin.reshape(1, 3)
             centered_vectors = vectors - origin
-- 
2.43.0


From 6b5d293727b47e554d72d0721b09a929257b4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 10/47] fix: motions shared their origin and arrays with the
 caller

ensure_torch() does not copy, so every motion with the default origin
shared a single tensor and later edits of the input arrays moved it.
---
 xrd_simulator/motion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 9c5a244..d569904 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -70,10 +70,10 @@ class RigidBodyMotion:
             rotation_angle < torch.pi and rotation_angle > 0
         ), "The rotation angle must be in [0 pi]"
         self.rotator = _RodriguezRotator(rotation_axis)
-        self.rotation_axis = ensure_torch(rotation_axis)
-        self.rotation_angle = ensure_torch(rotation_angle)
-        self.translation = ensure_torch(translation)
-        self.origin = ensure_torch(origin)
+        self.rotation_axis = ensure_torch(rotation_axis).clone()
+        self.rotation_angle = ensure_torch(rotation_angle).clone()
+        self.translation = ensure_torch(translation).clone()
+        self.origin = ensure_torch(origin).clone()
 
     def __call__(self, vectors, time):
         """Find the transformation of a set of points at a prescribed time.
@@ -286,7 +286,7 @@ class _RodriguezRotator(object):
         assert torch.allclose(
             torch.linalg.norm(rotation_axis), ensure_torch(1.0)
         ), "The rotation axis must be length unity."
-        self.rotation_axis = rotation_axis
+        self.rotation_axis = rotation_axis.clone()
         rx, ry, rz = self.rotation_axis
         self.K = ensure_torch([[0, -rz, ry], [rz, 0, -rx], [-ry, rx, 0]])
         self.K2 = torch.matmul(self.K, self.K)
-- 
2.43.0


From 4283a3b62fa9cf2b6e5ee85098ebc7c5000e9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 11/47] fix: polycrystals shared memory with the caller's
 orientation and strain arrays

Only the sample frame copies were cloned; editing the input afterwards
changed the lab frame orientation, strain and phase map.
---
 xrd_simulator/polycrystal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 97585e4..fd8504a 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -82,8 +82,8 @@ class Polycrystal:
         element_phase_map: npt.NDArray | Tensor | None = None,
     ) -> None:
         mesh = self._move_mesh_to_torch(mesh)
-        orientation = ensure_torch(orientation)
-        strain = ensure_torch(strain)
+        orientation = ensure_torch(orientation).clone()
+        strain = ensure_torch(strain).clone()
 
         # Compute and store mesh volumes during initialization
         element_vertices = mesh.coord[mesh.enod]
@@ -625,7 +625,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map).clone()
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 0920e4890332c7498ad488365716a5e9858ae1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 12/47] fix: detectors shared their corner coordinates with the
 caller's arrays

---
 xrd_simulator/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..2204dc6 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -135,9 +135,9 @@ class Detector:
         use_polarization: bool = True,
         use_structure_factor: bool = True,
     ):
-        self.det_corner_0 = ensure_torch(det_corner_0)
-        self.det_corner_1 = ensure_torch(det_corner_1)
-        self.det_corner_2 = ensure_torch(det_corner_2)
+        self.det_corner_0 = ensure_torch(det_corner_0).clone()
+        self.det_corner_1 = ensure_torch(det_corner_1).clone()
+        self.det_corner_2 = ensure_torch(det_corner_2).clone()
 
         self.zmax = torch.linalg.norm(self.det_corner_2 - self.det_corner_0)
         self.ymax = torch.linalg.norm(self.det_corner_1 - self.det_corner_0)
-- 
2.43.0


From 302f4c39f3633d373f81f59dbd091b8bc3586caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 13/47] fix: find the interior point of beam and grain without
 singular solves

Stepping inwards from the vertices of an arbitrary linprog solution solved
a rank deficient system when fewer than three faces were active, raising
LinAlgError from macro rendering for ~2% of partially illuminated grains,
and the 0.1 s time limit silently dropped grains on a loaded machine. Use
the Chebyshev centre instead.
---
 xrd_simulator/beam.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 8724621..f84839b 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -272,26 +272,18 @@ class Beam:
             Interior point if found, otherwise ``None``.
         """
         halfspaces = ensure_numpy(halfspaces)
+        # Chebyshev centre: the centre of the largest ball inside the halfspaces.
+        norms = np.linalg.norm(halfspaces[:, :-1], axis=1)
         res = linprog(
-            c=np.zeros((3,)),
-            A_ub=halfspaces[:, :-1],
+            c=np.array([0.0, 0.0, 0.0, -1.0]),
+            A_ub=np.column_stack((halfspaces[:, :-1], norms)),
             b_ub=-halfspaces[:, -1],
-            bounds=(None, None),
+            bounds=[(None, None)] * 3 + [(0, None)],
             method="highs",
-            options={
-                "maxiter": 5000,
-                "time_limit": 0.1,
-            },  # typical solve time is ~1-2 ms
+            options={"maxiter": 5000},  # typical solve time is ~1-2 ms
         )
         if res.success:
-            if np.any(res.slack == 0):
-                A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.solve(
-                    A.T.dot(A), A.T.dot(-np.ones((A.shape[0],)) * 1e-5)
-                )
-                trial = res.x + dx
-            else:
-                trial = res.x
+            trial = res.x[:3]
             if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
                 return trial
             else:
-- 
2.43.0


From b9dfcac1e1b0b6ca5aaa80c916c4dc89462f48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 14/47] fix: keep the valid Laue solution when the quadratic
 degenerates

A reflection whose second solution lies at exactly half a turn has a zero
leading coefficient; it was discarded together with its valid solution,
and close to that case the solution lost all precision to cancellation.
---
 xrd_simulator/laue.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..f15092d 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -101,37 +101,23 @@ def _find_solutions_to_tangens_half_angle_equation(
     numerator = rho_2 + rho_0
 
     del rho_2
-    #Remove 0 denominators
-    denominator[denominator==0] = torch.nan
-
-    # Calculate coefficients for quadratic equation
-    a = torch.divide(
-        torch.matmul(rho_1_factor, G_0),
-        denominator,
-        out=torch.full_like(rho_0, torch.nan)
-    )
-
-    b = torch.divide(
-        numerator, denominator, out=torch.full_like(rho_0, torch.nan)
-    )
-
-    # Clean up unnecessary variables
-
-    del denominator, numerator, rho_0
+    rho_1 = torch.matmul(rho_1_factor, G_0)
+    del rho_0
 
     # Calculate discriminant
 
-    discriminant = a**2 - b
-    del b
+    discriminant = rho_1**2 - denominator * numerator
 
     # Handle cases where discriminant is negative
     discriminant[discriminant<0] = torch.nan
     # discriminant[discriminant>10] = torch.nan 
 
-    # Calculate solutions for s
-    s1 = -a + torch.sqrt(discriminant)
-    s2 = -a - torch.sqrt(discriminant)
-    del a, discriminant
+    # Calculate solutions for s. The product of the roots gives the smaller one without
+    # cancellation; a zero denominator then puts a single root at s=inf (half a turn).
+    q = -(rho_1 + torch.copysign(torch.sqrt(discriminant), rho_1))
+    s1 = q / denominator
+    s2 = numerator / q
+    del denominator, numerator, rho_1, discriminant, q
     t1 = 2 * torch.arctan(s1) / delta_omega
     del s1
     indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))
-- 
2.43.0


From cc651ea0fbef75cb73f7069f6d11cebad4357067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 15/47] fix: detectors could get one pixel row or column too
 many

torch.arange(0, zmax, pixel_size) includes zmax when the division rounds
up, e.g. n_pixels=29 or pixel_size=0.1 with 3 pixels.
---
 xrd_simulator/detector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 2204dc6..5bf94af 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -413,8 +413,12 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # Round off before counting: zmax / pixel_size is only a whole number up to
+        # floating point error, which must not add a row or column.
+        n_z = max(int(torch.ceil(self.zmax / self.pixel_size_z - 1e-6)), 1)
+        n_y = max(int(torch.ceil(self.ymax / self.pixel_size_y - 1e-6)), 1)
+        zds = torch.arange(n_z, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
-- 
2.43.0


From b3e37286913dcaa9d7a174a62f8e77d7de7306bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 16/47] fix: render(method='auto') ignored render_dtype

---
 xrd_simulator/detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 5bf94af..be08055 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -349,6 +349,7 @@ class Detector:
                     self.pixel_coordinates.shape[1],
                 ),
                 device=peaks.device,
+                dtype=target_dtype,
             )
 
             # Collect contributions (each returns frames_to_render-length tensors)
-- 
2.43.0


From 4ee9166ffd7037ab1fc627ceae235244f2e98b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 17/47] fix: micro rendering dropped weak peaks

The cut on insignificant kernel weights was applied after scaling with
the peak intensity, so peaks with a small intensity * volume lost part or
all of their signal. Apply it to the normalized weights.
---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index be08055..c0c562e 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -921,6 +921,7 @@ class Detector:
             weights = torch.exp(-dist_sq / (2 * sigma**2))
             weight_sums = weights.sum(dim=1, keepdim=True)
             weights = weights / (weight_sums + 1e-12)
+            significant = weights > 1e-6
             weights = weights * intensities[start:end].unsqueeze(1)
 
             valid = (
@@ -928,7 +929,7 @@ class Detector:
                 & (z_pixels < diffraction_frames.shape[1])
                 & (y_pixels >= 0)
                 & (y_pixels < diffraction_frames.shape[2])
-                & (weights > 1e-6)
+                & significant
             )  # Only significant weights
 
             if valid.any():
-- 
2.43.0


From fa372335bd929140725284f42cd9a9163fdd52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 18/47] fix: peaks changed when the sample, beam or motion was
 changed afterwards

diffract() returned references to the live mesh, motion and beam, so
macro rendering of peaks from before a Polycrystal.transform() or
Beam.set_beam_vertices() projected the grains at the wrong place.
---
 xrd_simulator/polycrystal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index fd8504a..b74cfe4 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -222,10 +222,11 @@ class Polycrystal:
             "incident_vector": beam.wave_vector,
             "wavelength": beam.wavelength,
             "rotation_axis": rigid_body_motion.rotation_axis,
-            # Store mesh and motion data for on-demand hull computation
-            "mesh_lab": self.mesh_lab,
-            "rigid_body_motion": rigid_body_motion,
-            "beam": beam,
+            # Store mesh and motion data for on-demand hull computation. Copies, since
+            # the originals may be transformed or changed before the peaks are rendered.
+            "mesh_lab": copy.deepcopy(self.mesh_lab),
+            "rigid_body_motion": copy.deepcopy(rigid_body_motion),
+            "beam": copy.deepcopy(beam),
             "verbose": verbose,
         }
 
-- 
2.43.0


From 449cf5a54590da4d26e612caf603ddc00b6d541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 19/47] fix: diffract() ignored max_bragg_angle when given a
 detector

---
 xrd_simulator/polycrystal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index b74cfe4..c1b6e5e 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -713,9 +713,13 @@ class Polycrystal:
         else:
             source_point = ensure_torch(self.mesh_lab.centroid)
         
-        max_bragg_angle = detector._get_wrapping_cone(
+        wrapping_cone = detector._get_wrapping_cone(
             beam.wave_vector, source_point
         ).item()
+        if max_bragg_angle is None:
+            max_bragg_angle = wrapping_cone
+        else:
+            max_bragg_angle = min(max_bragg_angle, wrapping_cone)
 
         assert (
             min_bragg_angle >= 0
-- 
2.43.0


From 6cb297a91ca4c0df9ef76cf4e62c977200e3b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 20/47] fix: rays parallel to and outside a face were given a
 clip length

---
 xrd_simulator/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index 008030c..8a3c721 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -213,8 +213,11 @@ def _clip_line_with_convex_polyhedron(
     t_e = torch.max(t_i[:, te_mask], dim=1).values
     t_l = torch.min(t_i[:, tl_mask], dim=1).values
 
+    # A line parallel to a face and on its outer side misses the polyhedron
+    outside = torch.any(numerator[:, t2 == 0] < 0, dim=1)
+
     # Return clipped lengths, using zero for non-intersecting lines
-    return torch.where(t_l > t_e + 1e-12, t_l - t_e, 0.0)
+    return torch.where((t_l > t_e + 1e-12) & ~outside, t_l - t_e, 0.0)
 
 
 def _alpha_to_quarternion(alpha_1, alpha_2, alpha_3):
-- 
2.43.0


From 3861159084ecbcd11d100962a4a705af0d1aeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 21/47] fix: nano spots were shifted and depended on the other
 peaks of the batch

The Airy kernel was sampled on arange(-radius, radius + 1) with a radius that
is generally not a whole number, so its middle element was not the centre of
the pattern and the rendered spot was moved by up to a pixel or more. The
radius was also shared by the peaks of a batch.
---
 xrd_simulator/detector.py | 55 ++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index c0c562e..beee3ad 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1219,32 +1219,39 @@ class Detector:
         first_zero_pixels = fwhm_pixels * AIRY_FWHM_TO_FIRST_ZERO
 
         sigma = self.gaussian_sigma
-        max_first_zero = first_zero_pixels.max()
         threshold = self.kernel_threshold / 2
 
-        # Calculate kernel radius - need to capture several Airy rings
-        # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
-        # for small crystallites (broad patterns)
-        # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
-
-        # Ensure we also capture Gaussian tails (cap at 128 pixels)
-        max_airy_radius = 128
-        while radius <= max_airy_radius:
-            g_val = torch.exp(-(radius**2) / (2 * sigma**2))
-            if g_val < threshold:
-                break
-            radius = radius * 2
-        if radius > max_airy_radius:
-            if self._verbose:
-                print(
-                    f"Airy kernel radius should be {radius.item()} but limited to {max_airy_radius}"
-                )
-            radius = torch.tensor(max_airy_radius)
+        def radial_grid(first_zero: float) -> npt.NDArray:
+            """Radial distances (pixels) on the grid of a single Airy kernel.
+
+            The grid has a whole number of pixels on either side of its central
+            pixel, so that the kernel is centred on the peak. It is chosen for
+            each peak on its own, so that a peak does not change with the other
+            peaks of the batch.
+            """
+            # Calculate kernel radius - need to capture several Airy rings
+            # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
+            # for small crystallites (broad patterns)
+            # Use ~4 times the first zero to capture sufficient rings
+            radius = int(np.ceil(max(4.0 * first_zero, 8.0)))
+
+            # Ensure we also capture Gaussian tails (cap at 128 pixels)
+            max_airy_radius = 128
+            while radius <= max_airy_radius:
+                g_val = np.exp(-(radius**2) / (2 * float(sigma) ** 2))
+                if g_val < threshold:
+                    break
+                radius = radius * 2
+            if radius > max_airy_radius:
+                if self._verbose:
+                    print(
+                        f"Airy kernel radius should be {radius} but limited to {max_airy_radius}"
+                    )
+                radius = max_airy_radius
 
-        ax = torch.arange(-radius, radius + 1, dtype=torch.float64)
-        yy, zz = torch.meshgrid(ax, ax, indexing="ij")
-        r = torch.sqrt(yy**2 + zz**2)
+            ax = np.arange(-radius, radius + 1, dtype=np.float64)
+            yy, zz = np.meshgrid(ax, ax, indexing="ij")
+            return np.sqrt(yy**2 + zz**2)
 
         kernels = []
         max_size = 0
@@ -1301,7 +1308,6 @@ class Detector:
             else:
                 return airy
 
-        r_np = r.cpu().numpy()
         sigma_np = float(sigma)
 
         for first_zero in first_zero_pixels:
@@ -1311,6 +1317,7 @@ class Detector:
             if first_zero_np < 0.5:
                 kernel = self.gaussian_kernel
             else:
+                r_np = radial_grid(first_zero_np)
                 kernel = ensure_torch(airy_profile(r_np, first_zero_np, sigma_np))
 
             kernel = kernel / kernel.sum()
-- 
2.43.0


From 9b0144d7e0722c80742771a18ed7967b889b12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 22/47] fix: nano spot width used the distance to the detector
 corner

The length of the scattered ray is the perpendicular distance to the detector
plane over the cosine of the incident angle, of either sign.
---
 xrd_simulator/detector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index beee3ad..78176f5 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -979,9 +979,9 @@ class Detector:
         torch.Tensor
             Estimated memory per peak in bytes, shape ``(N,)``.
         """
-        detector_distance = torch.linalg.norm(self.det_corner_0)
+        detector_distance = torch.abs(torch.dot(self.det_corner_0, self.normal))
         incident_angles_rad = incident_angles * torch.pi / 180
-        R = detector_distance / torch.cos(incident_angles_rad)
+        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
         # Compute characteristic width parameter in pixels
         # Airy: first_zero = FWHM * R / pixel_size * 1.1861
@@ -1205,9 +1205,9 @@ class Detector:
         torch.Tensor
             Batch of normalized Airy disk kernels with shape ``(N, 1, H, W)``.
         """
-        detector_distance = torch.linalg.norm(self.det_corner_0)
+        detector_distance = torch.abs(torch.dot(self.det_corner_0, self.normal))
         incident_angles_rad = incident_angles * torch.pi / 180
-        R = detector_distance / torch.cos(incident_angles_rad)
+        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
         # Convert FWHM in radians to pixel scale
         fwhm_pixels = fwhm_rad * R / self.pixel_size_z
-- 
2.43.0


From f77c328cddc385b07a987d85bd91adb2f30995f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 23/47] fix: nano spots ignored the pixel width of detectors
 with rectangular pixels

---
 xrd_simulator/detector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 78176f5..3a317bb 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1209,8 +1209,12 @@ class Detector:
         incident_angles_rad = incident_angles * torch.pi / 180
         R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
-        # Convert FWHM in radians to pixel scale
-        fwhm_pixels = fwhm_rad * R / self.pixel_size_z
+        # Convert FWHM in radians to pixel scale. The pattern is round on the detector:
+        # for rectangular pixels, radii are counted in the smallest pixel side length.
+        pixel_size = min(float(self.pixel_size_z), float(self.pixel_size_y))
+        pixel_z = float(self.pixel_size_z) / pixel_size
+        pixel_y = float(self.pixel_size_y) / pixel_size
+        fwhm_pixels = fwhm_rad * R / pixel_size
 
         # The Airy pattern has FWHM ≈ 0.843 * first_zero_radius
         # Therefore: first_zero_radius = FWHM / 0.843 ≈ FWHM * 1.1861
@@ -1250,7 +1254,7 @@ class Detector:
                 radius = max_airy_radius
 
             ax = np.arange(-radius, radius + 1, dtype=np.float64)
-            yy, zz = np.meshgrid(ax, ax, indexing="ij")
+            zz, yy = np.meshgrid(ax * pixel_z, ax * pixel_y, indexing="ij")
             return np.sqrt(yy**2 + zz**2)
 
         kernels = []
-- 
2.43.0


From 4740d2a366707b3aa721eae6657d790aa1558fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 24/47] fix: macro intensities were multiplied by the pixel
 area

_project_convex_hull() returns the volume that scatters into each pixel, which
was scaled with the pixel area once more. Macro spots now have the same units
as micro and nano spots, which matters when method='auto' mixes them.
---
 xrd_simulator/detector.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 3a317bb..98742fc 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1589,12 +1589,9 @@ class Detector:
                         # by peaks_detector_intersection. This check is defensive.
                         if torch.isfinite(intensity):
                             projection_torch = ensure_torch(projection)
-                            # projection is path length, multiply by pixel area to get volume
-                            projected_volume = (
-                                projection_torch * self.pixel_size_z * self.pixel_size_y
-                            )
-                            # Multiply intensity per volume by projected volume
-                            result = (intensity * projected_volume).to(render_dtype)
+                            # the projection is the volume behind each pixel: multiply
+                            # by the intensity per volume
+                            result = (intensity * projection_torch).to(render_dtype)
                             frames[box[0] : box[1], box[2] : box[3]] += result
 
             # Apply Gaussian convolution for point spread function
-- 
2.43.0


From 76a4a0bc0023964eb267af32bfc0d48b26a914a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 25/47] fix: macro spots were lost on the last pixel row and
 column

int(zmax / pixel_size) rounds down, which can be one less than the number of
pixels in the frame.
---
 xrd_simulator/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 98742fc..607c5ce 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -592,8 +592,11 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        n_rows, n_cols = self.pixel_coordinates.shape[0:2]
+        min_row_indx = min(min_row_indx, n_rows - 1)
+        min_col_indx = min(min_col_indx, n_cols - 1)
+        max_row_indx = min(max_row_indx + 1, n_rows)
+        max_col_indx = min(max_col_indx + 1, n_cols)
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
-- 
2.43.0


From d0c811683c19e20a303ffe781c1371e48be9843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 26/47] fix: macro spots of slivers and of grains at the
 detector edge

A hull that no pixel ray hits gave NaN intensities, a hull that is small
compared to the pixels raised IndexError or wrapped around when part of it
projects outside of the detector, and a hull partly outside of the detector
scattered all of its volume into the part inside.
---
 xrd_simulator/detector.py | 101 ++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 37 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 607c5ce..054fe22 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1648,42 +1648,20 @@ class Detector:
         scattered_vec = proj_context["scattered_wave_vector"]
         ray_direction = scattered_vec / torch.linalg.norm(scattered_vec)
 
-        if n_pixels_in_box == 1:
+        # Parts of the hull may project outside of the detector.
+        vertices = ensure_torch(hull.points[hull.vertices])
+        projected_vertices = self._get_intersection(
+            torch.tile(ray_direction, (vertices.shape[0], 1)), vertices
+        )
+        fully_on_detector = bool(
+            self.contains(projected_vertices[:, 0], projected_vertices[:, 1]).all()
+        )
+
+        if n_pixels_in_box == 1 and fully_on_detector:
             # tetra is fully contained in a detector pixel, use the volume of the tetra as intensity
             return torch.ones(1, 1) * proj_context["convex_hull"].volume
-        elif (
-            n_pixels_in_box <= 4
-        ):  # tetra is small compared to the pixel size, adapt to sampling approach.
-            # This is a decent approximation when the tetras are small in relation to the pixel size
-            n_samples = (
-                7 * n_pixels_in_box
-            )  # TODO the ad-hoc number 7 here should perhaps be a parameter to give controll over the accuracy of the statistics.
-            ray_points = utils._sample_convex_hull_3d(
-                proj_context["convex_hull"], n_samples
-            )
-            ray_points.reshape(n_samples, 3)
-            ray_points = ensure_torch(ray_points)
-
-            clip_lengths = utils._clip_line_with_convex_polyhedron(
-                ray_points, ray_direction, plane_points, plane_normals
-            )
-            # now map the clip lengths to the detector pixels
-            ray_directions = torch.tile(ray_direction, (n_samples, 1))
-            out = self._get_intersection(ray_directions, ray_points)
-            zd = out[:, 0]
-            yd = out[:, 1]
-
-            row_index = ensure_numpy(zd / self.pixel_size_z).astype(int) - box[0]
-            col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
-
-            box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
-            np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
-            box_intensities *= proj_context["convex_hull"].volume
 
-            return ensure_torch(box_intensities)
-
-        else:
+        if n_pixels_in_box > 4:
             # This is a good approximation when the tetras are large in relation to the pixel size
             # Get pixel coordinates and project on pixel centorid ray-lines
             pixel_coords = self.pixel_coordinates[box[0] : box[1], box[2] : box[3], :]
@@ -1695,11 +1673,60 @@ class Detector:
 
             # ensure that scattering is proportional to the material volume
             # that is scattering.
-            clip_lengths /= clip_lengths.sum()
-            clip_lengths *= proj_context["convex_hull"].volume
-            clip_lengths = clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
+            total_length = clip_lengths.sum()
+            if total_length > 0:
+                volume_per_length = proj_context["convex_hull"].volume / total_length
+                if not fully_on_detector:
+                    # only the part of the volume behind the pixels of the box
+                    volume_per_length = torch.minimum(
+                        volume_per_length,
+                        self.pixel_size_z
+                        * self.pixel_size_y
+                        * torch.abs(torch.dot(ray_direction, self.normal)),
+                    )
+                clip_lengths *= volume_per_length
+                return clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
+            # otherwise the hull is so thin that it passes between the pixel rays
+
+        # tetra is small compared to the pixel size, adapt to sampling approach.
+        # This is a decent approximation when the tetras are small in relation to the pixel size
+        n_samples = (
+            7 * n_pixels_in_box
+        )  # TODO the ad-hoc number 7 here should perhaps be a parameter to give controll over the accuracy of the statistics.
+        ray_points = utils._sample_convex_hull_3d(
+            proj_context["convex_hull"], n_samples
+        )
+        ray_points.reshape(n_samples, 3)
+        ray_points = ensure_torch(ray_points)
+
+        clip_lengths = utils._clip_line_with_convex_polyhedron(
+            ray_points, ray_direction, plane_points, plane_normals
+        )
+        # now map the clip lengths to the detector pixels
+        ray_directions = torch.tile(ray_direction, (n_samples, 1))
+        out = self._get_intersection(ray_directions, ray_points)
+        zd = out[:, 0]
+        yd = out[:, 1]
+
+        row_index = np.floor(ensure_numpy(zd / self.pixel_size_z)).astype(int) - box[0]
+        col_index = np.floor(ensure_numpy(yd / self.pixel_size_y)).astype(int) - box[2]
+        in_box = (
+            (row_index >= 0)
+            & (row_index < box[1] - box[0])
+            & (col_index >= 0)
+            & (col_index < box[3] - box[2])
+        )
+
+        box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
+        clip_lengths = ensure_numpy(clip_lengths / clip_lengths.sum())
+        np.add.at(
+            box_intensities,
+            (row_index[in_box], col_index[in_box]),
+            clip_lengths[in_box],
+        )
+        box_intensities *= proj_context["convex_hull"].volume
 
-        return clip_lengths
+        return ensure_torch(box_intensities)
 
     # ------------------------------------------------------------------
     # 6. Convolution / kernel helpers
-- 
2.43.0


From 5253567209286809fe544c44ef38b162d5c5894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 27/47] fix: bounding spheres of some tetrahedra were not
 minimal

The smallest sphere can pass through three vertices that do not include the two
most distant ones. For such elements the circumsphere of all four vertices was
used, with a centroid (the source point of scattering) that can lie far away
from the element.
---
 xrd_simulator/mesh.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 3eb6c78..c50f6f5 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -468,7 +468,7 @@ class TetraMesh(object):
         The method follows these steps:
 
         1. Calculate the minimal sphere for the two most distant vertices.
-        2. Calculate the minimal sphere for the three most distant vertices.
+        2. Calculate the minimal sphere through three of the vertices.
         3. Calculate the sphere containing all four vertices on their surface.
 
         Parameters
@@ -529,21 +529,30 @@ class TetraMesh(object):
             (dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0, dim=1
         )
 
-        # Compute spheres through farthest 3 vertices
-        next_furthest_index = torch.argmax(dist_centers_1D_to_vertices, dim=1)
-        third_vertex = other2_vertices.permute(1, 0, 2)[
-            next_furthest_index, torch.arange(n_tetra, device=coord.device)
-        ]
-        largest_triangles = torch.cat(
-            [furthest2_vertices, third_vertex.unsqueeze(1)], dim=1
+        # Compute spheres through 3 vertices and keep the smallest one that holds the fourth
+        faces = torch.tensor(
+            [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]],
+            dtype=torch.int64,
+            device=coord.device,
+        )
+        centers_faces, radii_faces = utils._circumsphere_of_triangles(
+            vertices[:, faces].reshape(-1, 3, 3)
+        )
+        centers_faces = centers_faces.reshape(n_tetra, 4, 3)
+        radii_faces = radii_faces.reshape(n_tetra, 4)
+        dist_centers_faces_to_vertices = torch.linalg.norm(
+            vertices.unsqueeze(1) - centers_faces.unsqueeze(2), dim=3
         )
-        centers_2D, radii_2D = utils._circumsphere_of_triangles(largest_triangles)
-        dist_centers_2D_to_vertices = torch.linalg.norm(
-            vertices - centers_2D.unsqueeze(1), dim=2
+        face_solves = torch.all(
+            dist_centers_faces_to_vertices <= radii_faces.unsqueeze(2), dim=2
         )
-        spheres_solved_with_2D = torch.all(
-            (dist_centers_2D_to_vertices - radii_2D.unsqueeze(1)) <= 0, dim=1
+        smallest_face = torch.argmin(
+            torch.where(face_solves, radii_faces, torch.inf), dim=1
         )
+        all_tetra = torch.arange(n_tetra, device=coord.device)
+        centers_2D = centers_faces[all_tetra, smallest_face]
+        radii_2D = radii_faces[all_tetra, smallest_face]
+        spheres_solved_with_2D = face_solves[all_tetra, smallest_face]
 
         # Compute spheres containing all 4 points
         centers_3D, radii_3D = utils._circumsphere_of_tetrahedrons(vertices)
-- 
2.43.0


From 8a0d8c645c86d0b989cc3f34f40755f4b807f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 28/47] fix: pass numpy coordinates to the ODF and strain
 functions as documented

---
 xrd_simulator/templates.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/templates.py b/xrd_simulator/templates.py
index d5d5e9b..fb1e981 100644
--- a/xrd_simulator/templates.py
+++ b/xrd_simulator/templates.py
@@ -243,14 +243,18 @@ def polycrystal_from_odf(
 
     # Sample spatial texture
     orientation = _sample_ODF(
-        orientation_density_function, maximum_sampling_bin_seperation, mesh.ecentroids
+        orientation_density_function,
+        maximum_sampling_bin_seperation,
+        utils.ensure_numpy(mesh.ecentroids),
     )
 
     # Sample spatial strain
     strain_lab = np.zeros((mesh.number_of_elements, 3, 3))
     for ei in range(mesh.number_of_elements):
         # strain in lab/sample-coordinates
-        strain_lab[ei] = strain_tensor(mesh.ecentroids[ei])
+        strain_lab[ei] = utils.ensure_numpy(
+            strain_tensor(utils.ensure_numpy(mesh.ecentroids[ei]))
+        )
 
     return Polycrystal(
         mesh,
-- 
2.43.0


From 48644f7c4d0be395ccf9c0c8491c2356d7b839c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 29/47] fix: reflections of monoclinic and triclinic cells were
 lost

xfab.tools.genhkl_all leaves a lattice row at the first point beyond the
upper bound of sin(theta)/lambda, although the row of an oblique cell can
re-enter the bound.
---
 xrd_simulator/phase.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 8821f60..a2d50bb 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -100,11 +100,41 @@ class Phase(object):
         """
         sintlmin = np.sin(min_bragg_angle) / wavelength
         sintlmax = np.sin(max_bragg_angle) / wavelength
-        self.miller_indices = tools.genhkl_all(
-            self.unit_cell, sintlmin, sintlmax, sgname=self.sgname)
+        self.miller_indices = self._get_miller_indices(sintlmin, sintlmax)
         if self.path_to_cif_file is not None:
             self._set_structure_factors(self.miller_indices)
 
+    def _get_miller_indices(self, sintlmin, sintlmax):
+        """Generate all allowed Miller indices with ``sin(theta)/lambda`` in bounds.
+
+        ``xfab.tools.genhkl_all`` stops walking along a lattice row at the first
+        reflection beyond the upper bound. In an oblique unit cell a row can leave
+        and re-enter the bound. The rows are therefore walked up to a bound that
+        no Miller index component of a reflection within ``sintlmax`` exceeds.
+
+        Parameters
+        ----------
+        sintlmin, sintlmax : float
+            Lower and upper bounds of ``sin(theta)/lambda`` in inverse angstrom.
+
+        Returns
+        -------
+        numpy.ndarray
+            Miller indices, shape ``(n, 3)``.
+        """
+        B = tools.form_b_mat(self.unit_cell) / (2 * np.pi)
+        obliquity = np.max(
+            np.linalg.norm(np.linalg.inv(B), axis=1) * np.linalg.norm(B, axis=0)
+        )
+        reflections = tools.genhkl_all(
+            self.unit_cell,
+            sintlmin,
+            sintlmax * obliquity * (1 + 1e-9),
+            sgname=self.sgname,
+            output_stl=True,
+        )
+        return reflections[reflections[:, 3] <= sintlmax, 0:3]
+
     def _set_structure_factors(self, miller_indices):
         """Generate unit cell structure factors for all Miller indices.
 
-- 
2.43.0


From e5ddcc2fa40fab9192ad3f4bd736dde6f0be1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 30/47] fix: strained unit cells did not follow the
 Green-Lagrange strain

The deformation gradient maps the direct lattice, i.e. it is the inverse
transpose of what maps the reciprocal lattice. The transpose was dropped,
which gave wrong lattice spacings at second order in shear strains.
---
 xrd_simulator/utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index 8a3c721..edcb485 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -339,12 +339,9 @@ def _epsilon_to_b(crystal_strain, B0):
             + str(ensure_numpy(crystal_strain).tolist())
             + ", will invert the unit cell with negative deformation gradient tensor determinant"
         )
-    if C.ndim == 3:
-        F = torch.transpose(torch.linalg.cholesky(C), 2, 1)
-    else:
-        F = torch.transpose(torch.linalg.cholesky(C), 1, 0)
-
-    B = torch.matmul(torch.linalg.inv(F), B0)
+    # The deformed reciprocal metric is B^T B = B0^T C^-1 B0 with B upper triangular.
+    F_inv = torch.linalg.cholesky(torch.linalg.inv(C))
+    B = torch.matmul(F_inv.transpose(-2, -1), B0)
     return B
 
 
@@ -356,7 +353,8 @@ def _b_to_epsilon(B_matrix, B0):
     B_matrix = ensure_torch(B_matrix)
     B0 = ensure_torch(B0)
 
-    F = torch.matmul(B0, torch.linalg.inv(B_matrix))
+    # Direct lattices are the inverse transpose of the reciprocal: F = B^-T B0^T
+    F = torch.matmul(B0, torch.linalg.inv(B_matrix)).T
     strain_tensor = 0.5 * (torch.matmul(F.T, F) - torch.eye(3))  # large deformations
     return _strain_as_vector(strain_tensor)
 
-- 
2.43.0


From 6be4cbab1ffab95d1db30e2fa3e8eba2f010f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 31/47] fix: incident angle of perpendicular rays was NaN and
 crashed nano rendering

---
 xrd_simulator/detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 054fe22..3867178 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -469,6 +469,8 @@ class Detector:
         ray_dir_norm = ray_direction / torch.norm(ray_direction, dim=1).unsqueeze(-1)
         normal_norm = self.normal / torch.linalg.norm(self.normal)
         cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)
+        # rounding may take the cosine of a perpendicular ray out of [-1, 1]
+        cosine_theta = torch.clamp(cosine_theta, -1.0, 1.0)
         incident_angle_deg = torch.arccos(cosine_theta) * (180 / torch.pi)
         return torch.stack((zd, yd, incident_angle_deg), dim=1)
 
-- 
2.43.0


From d5535059372d959fa745d9aadad2350bb5367a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 32/47] fix: render(method='auto') drew grains between
 overlapping limits twice

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 3867178..02088b1 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -339,7 +339,8 @@ class Detector:
             if macro_grain_limit is None:
                 macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3
             large_grains_mask = peaks[:, 21] >= macro_grain_limit
-            small_grains_mask = peaks[:, 21] < micro_grain_limit
+            # (with pixels below 0.1 micron the default limits overlap)
+            small_grains_mask = (peaks[:, 21] < micro_grain_limit) & (~large_grains_mask)
             medium_grains_mask = (~large_grains_mask) & (~small_grains_mask)
 
             diffraction_frames = torch.zeros(
-- 
2.43.0


From 5183b6e4efbf704f083b4a6348e7bc7ba6918cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 33/47] fix: Phase shared the unit cell list of the caller

---
 xrd_simulator/phase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index a2d50bb..7e8de37 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -19,6 +19,8 @@ functions.
 
 .. _The .cif file used in the above example can be found here.: https://github.com/FABLE-3DXRD/xrd_simulator/blob/main/docs/source/examples/quartz.cif?raw=true
 """
+import copy
+
 import numpy as np
 from xfab import tools, structure
 from xrd_simulator import utils
@@ -66,7 +68,7 @@ class Phase(object):
     """
 
     def __init__(self, unit_cell, sgname, path_to_cif_file=None):
-        self.unit_cell = unit_cell
+        self.unit_cell = copy.copy(unit_cell)
         self.sgname = sgname
         self.miller_indices = None
         self.structure_factors = None
-- 
2.43.0


From cb315fa1f53a6c761b2de1a322a458647df9843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 34/47] fix: Polycrystal shared the list of phases of the
 caller

---
 xrd_simulator/polycrystal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index c1b6e5e..896785a 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -622,6 +622,7 @@ class Polycrystal:
         """
         if not isinstance(phases, list):
             phases = [phases]
+        phases = list(phases)
         if element_phase_map is None:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
-- 
2.43.0


From 5f3013ce660daa05db235389ccf753b6d3c9da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 35/47] fix: translate points given as rows, as documented

---
 xrd_simulator/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index d569904..2e3d20c 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -192,7 +192,7 @@ class RigidBodyMotion:
         
         vectors = ensure_torch(vectors)
         
-        if len(vectors.shape) > 1:
+        if len(vectors.shape) > 1 and vectors.shape[0] == 3:
             translation = self.translation.reshape(3, 1)
         else:
             translation = self.translation
-- 
2.43.0


From a66772b7cf8f0ce8d23a31ee19f9be4f8b2b13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 36/47] fix: Bragg bounds were NaN for detectors with a corner
 on the beam axis

---
 xrd_simulator/detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 02088b1..c602be9 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -510,9 +510,11 @@ class Detector:
         ):
             geom_mat[:, i] = det_corner - source_point
         normalised_local_coord_geom_mat = geom_mat / torch.linalg.norm(geom_mat, axis=0)
-        cone_opening = torch.arccos(
-            torch.matmul(normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k))
+        cosines = torch.matmul(
+            normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k)
         )
+        # rounding may take the cosine of a corner on the beam axis out of [-1, 1]
+        cone_opening = torch.arccos(torch.clamp(cosines, -1.0, 1.0))
         return torch.max(cone_opening) / 2.0
 
     def _detector_coordinate_to_pixel_index(
-- 
2.43.0


From 0691b7fa255934c5909f7e8f266dce330667f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 37/47] fix: reflections were lost on detectors reaching
 upstream of the sample

---
 xrd_simulator/detector.py | 49 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index c602be9..5bc6802 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -515,7 +515,54 @@ class Detector:
         )
         # rounding may take the cosine of a corner on the beam axis out of [-1, 1]
         cone_opening = torch.arccos(torch.clamp(cosines, -1.0, 1.0))
-        return torch.max(cone_opening) / 2.0
+        max_opening = torch.max(cone_opening)
+        if max_opening > torch.pi / 2.0:
+            # Upstream of the source the corners need not be the points farthest from
+            # the beam direction.
+            max_opening = torch.maximum(
+                max_opening, self._get_upstream_opening(k, geom_mat, source_point)
+            )
+        return max_opening / 2.0
+
+    def _get_upstream_opening(
+        self, k: torch.Tensor, corners: torch.Tensor, source_point: torch.Tensor
+    ) -> torch.Tensor:
+        """Compute the largest angle to the wavevector along the detector edges.
+
+        The angle is pi for a detector that holds the point opposite to the wavevector.
+
+        Parameters
+        ----------
+        k : torch.Tensor
+            Wavevector, shape ``(3,)``.
+        corners : torch.Tensor
+            Detector corners relative to the source point in the order of
+            :meth:`_get_wrapping_cone`, shape ``(3, 4)``.
+        source_point : torch.Tensor
+            Cone vertex point, shape ``(3,)``.
+
+        Returns
+        -------
+        torch.Tensor
+            Angle in radians.
+        """
+        zd, yd = self._get_intersection(-k, source_point)[0, :2]
+        if self.contains(zd, yd):
+            return ensure_torch(torch.pi)
+
+        khat = k / torch.linalg.norm(k)
+        start = corners[:, [0, 1, 3, 2]].T
+        edge = torch.roll(start, -1, dims=0) - start
+        ks, ke = start @ khat, edge @ khat
+        ss, se = torch.sum(start * start, dim=1), torch.sum(start * edge, dim=1)
+        ee = torch.sum(edge * edge, dim=1)
+
+        # the angle to k is stationary along the line through each edge at t
+        t = (ks * se - ke * ss) / (ke * se - ks * ee)
+        t = torch.clamp(torch.nan_to_num(t), 0.0, 1.0)
+        points = start + t.unsqueeze(1) * edge
+        cosines = (points @ khat) / torch.linalg.norm(points, dim=1)
+        return torch.max(torch.arccos(torch.clamp(cosines, -1.0, 1.0)))
 
     def _detector_coordinate_to_pixel_index(
         self, zd: float, yd: float
-- 
2.43.0


From 3170bb5c427ab7dc9679c8d004d572b12e069ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 38/47] fix: Lorentz factors were NaN for peaks exactly in the
 plane of axis and beam

---
 xrd_simulator/scattering_factors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b58454d..c416c67 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -46,12 +46,14 @@ def _lorentz(
     # Normalize k for dot product calculation
     k_norm_sq = torch.linalg.norm(k_in) ** 2
     k_kp_norm = torch.matmul(k_in, kp.T) / k_norm_sq
-    theta = torch.arccos(k_kp_norm) / 2.0
+    # (rounding may take the cosines out of [-1, 1] exactly at the singularities)
+    theta = torch.arccos(torch.clamp(k_kp_norm, -1.0, 1.0)) / 2.0
 
     # Calculate korthogonal same way as in old version
     korthogonal = kp - k_in.reshape(1, 3) * (k_kp_norm.reshape(-1, 1))
     korth_norm = torch.linalg.norm(korthogonal, dim=1)
-    eta = torch.arccos(torch.matmul(rot_axis, korthogonal.T) / korth_norm)
+    cos_eta = torch.matmul(rot_axis, korthogonal.T) / korth_norm
+    eta = torch.arccos(torch.clamp(cos_eta, -1.0, 1.0))
 
     # Apply tolerance conditions
     tol = 0.5
-- 
2.43.0


From 58702abc4493d795a072ff918bbf2554238321b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:27 +0000
Subject: [PATCH 39/47] fix: report exactly singular strains as unfeasible
 instead of failing in the factorisation

---
 xrd_simulator/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index edcb485..a9e887b 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -333,7 +333,9 @@ def _epsilon_to_b(crystal_strain, B0):
     C = 2 * crystal_strain + torch.eye(3, device=device)
 
     eigen_vals = torch.linalg.eigvalsh(C)
-    if torch.any(eigen_vals < 0):
+    # A singular C (to rounding) is a collapsed, not a deformed, unit cell.
+    rounding = 8 * torch.finfo(C.dtype).eps * torch.clamp(eigen_vals[..., -1:], min=1)
+    if torch.any(eigen_vals <= rounding):
         raise ValueError(
             "Unfeasible strain tensor with value: "
             + str(ensure_numpy(crystal_strain).tolist())
-- 
2.43.0


From d57c9eed5eeb0cd9f949789305cb4b72e683caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 40/47] fix: intersect beam and grain relative to the grain, so
 that grains far from the origin do not fail

---
 xrd_simulator/beam.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index f84839b..2111365 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -161,22 +161,26 @@ class Beam:
                 vertices.cpu().numpy()
             )  # Tetra completely contained by beam
 
-        poly_halfspace = ConvexHull(vertices.cpu().numpy()).equations
+        # The halfspaces are expressed relative to the polyhedra centroid: their rounded
+        # equations would not describe a polyhedra that is small and far from the origin.
+        centroid = torch.mean(vertices, axis=0)
+        poly_halfspace = ConvexHull((vertices - centroid).cpu().numpy()).equations
         poly_halfspace = np.unique(poly_halfspace.round(decimals=6), axis=0)
-        combined_halfspaces = np.vstack((poly_halfspace, self.halfspaces.cpu().numpy()))
+        beam_halfspace = self.halfspaces.clone()
+        beam_halfspace[:, 3] += torch.matmul(beam_halfspace[:, 0:3], centroid)
+        combined_halfspaces = np.vstack((poly_halfspace, beam_halfspace.cpu().numpy()))
 
         # Since _find_feasible_point() is expensive it is worth checking for if the polyhedra
         # centroid is contained by the beam, being a potential cheaply computed interior_point.
 
-        centroid = torch.mean(vertices, axis=0)
         if self._contains(centroid):
-            interior_point = centroid
+            interior_point = torch.zeros_like(centroid)
         else:
             trial_points = centroid + (vertices - centroid) * 0.99
 
             for i, is_contained in enumerate(self._contains(trial_points.T)):
                 if is_contained:
-                    interior_point = trial_points[i, :].flatten()
+                    interior_point = trial_points[i, :].flatten() - centroid
                     break
             else:
                 interior_point = self._find_feasible_point(combined_halfspaces)
@@ -188,7 +192,7 @@ class Beam:
             hs = HalfspaceIntersection(
                 combined_halfspaces, interior_point.cpu().numpy()
             )
-            return ConvexHull(hs.intersections)
+            return ConvexHull(hs.intersections + centroid.cpu().numpy())
         else:
             return None
 
-- 
2.43.0


From 30507cec968837769ecabd9866c109bc2ebabd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:55 +0000
Subject: [PATCH 41/47] fix: nano spot width used the distance from the lab
 origin

The Scherrer width was scaled by the distance of the detector plane to the
origin of the lab frame instead of that to the source of the peak, so that spot
widths changed when sample, beam and detector were moved together.
---
 xrd_simulator/detector.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 5bc6802..4da04e5 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1009,6 +1009,7 @@ class Detector:
         self,
         fwhm_rad: torch.Tensor,
         incident_angles: torch.Tensor,
+        source_points: torch.Tensor,
     ) -> torch.Tensor:
         """Estimate memory requirement per peak based on Airy kernel size.
 
@@ -1028,13 +1029,17 @@ class Detector:
             Scherrer FWHM in radians, shape ``(N,)``.
         incident_angles : torch.Tensor
             Incident angles in degrees, shape ``(N,)``.
+        source_points : torch.Tensor
+            Points from which the peaks are scattered, shape ``(N, 3)``.
 
         Returns
         -------
         torch.Tensor
             Estimated memory per peak in bytes, shape ``(N,)``.
         """
-        detector_distance = torch.abs(torch.dot(self.det_corner_0, self.normal))
+        detector_distance = torch.abs(
+            torch.matmul(self.det_corner_0 - source_points, self.normal)
+        )
         incident_angles_rad = incident_angles * torch.pi / 180
         R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
@@ -1150,7 +1155,9 @@ class Detector:
 
         # 1. Estimate memory per peak based on kernel fwhm_rad
         memory_per_peak = (
-            self._estimate_airy_kernel_memory(peaks[:, 23], peaks[:, 27])
+            self._estimate_airy_kernel_memory(
+                peaks[:, 23], peaks[:, 27], peaks[:, 16:19]
+            )
             * memory_safety_factor
         )
 
@@ -1195,7 +1202,9 @@ class Detector:
             intensities = batch_peaks[:, 29] * batch_peaks[:, 21]
 
             # Generate Airy disk kernels
-            kernels = self._airy_kernel_batch(fwhm_rad, incident_angles)
+            kernels = self._airy_kernel_batch(
+                fwhm_rad, incident_angles, batch_peaks[:, 16:19]
+            )
             kernels = (kernels * intensities.view(-1, 1, 1, 1)).to(render_dtype)
 
             # Deposit kernels to appropriate frames
@@ -1227,7 +1236,10 @@ class Detector:
         return frames
 
     def _airy_kernel_batch(
-        self, fwhm_rad: torch.Tensor, incident_angles: torch.Tensor
+        self,
+        fwhm_rad: torch.Tensor,
+        incident_angles: torch.Tensor,
+        source_points: torch.Tensor,
     ) -> torch.Tensor:
         """Generate multiple 2D Airy disk kernels for crystallite diffraction.
 
@@ -1254,13 +1266,17 @@ class Detector:
             FWHM values in radians from Scherrer broadening, shape ``(N,)``.
         incident_angles : torch.Tensor
             Incident angles in degrees for each peak, shape ``(N,)``.
+        source_points : torch.Tensor
+            Points from which the peaks are scattered, shape ``(N, 3)``.
 
         Returns
         -------
         torch.Tensor
             Batch of normalized Airy disk kernels with shape ``(N, 1, H, W)``.
         """
-        detector_distance = torch.abs(torch.dot(self.det_corner_0, self.normal))
+        detector_distance = torch.abs(
+            torch.matmul(self.det_corner_0 - source_points, self.normal)
+        )
         incident_angles_rad = incident_angles * torch.pi / 180
         R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
-- 
2.43.0


From 6f63988f11874d8153b3433b24196c8ca5ca2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:55 +0000
Subject: [PATCH 42/47] fix: scattering angle of backscattered peaks was NaN

Rounding could take the cosine of a peak at a scattering angle of 180 degrees
below -1, which made its 2theta and Scherrer width NaN and crashed nano
rendering.
---
 xrd_simulator/polycrystal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 896785a..d774f6e 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -368,7 +368,9 @@ class Polycrystal:
         # Calculate 2theta (scattering angle)
         k_in = beam.wave_vector / torch.linalg.norm(beam.wave_vector)
         k_out = K_out_xyz / torch.linalg.norm(K_out_xyz, dim=1, keepdim=True)
-        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1))
+        # rounding may take the cosine of a backscattered peak out of [-1, 1]
+        cos_two_theta = torch.clamp(torch.sum(k_in * k_out, dim=1), -1.0, 1.0)
+        two_theta = torch.arccos(cos_two_theta)
         scherrer_fwhm = _scherrer(volumes, two_theta, beam.wavelength)
 
         peaks = torch.cat(
-- 
2.43.0


From f8d6ce2b31371d662db353788864b1b001111b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:40 +0000
Subject: [PATCH 43/47] fix: concurrent diffraction of a shared sample mixed up
 the reflections

---
 xrd_simulator/polycrystal.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index d774f6e..abc259d 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -157,12 +157,17 @@ class Polycrystal:
                 detector, beam, min_bragg_angle, max_bragg_angle
             )
 
-        for phase in self.phases:
-            phase._setup_diffracting_planes(
+        # The diffracting planes are set up on copies, since a concurrent call with another
+        # beam or other bounds must not exchange them while the peaks are computed.
+        phases = [copy.copy(phase) for phase in self.phases]
+        for phase, phase_copy in zip(self.phases, phases):
+            phase_copy._setup_diffracting_planes(
                 beam.wavelength, min_bragg_angle, max_bragg_angle
             )
+            phase.miller_indices = phase_copy.miller_indices
+            phase.structure_factors = phase_copy.structure_factors
 
-        peaks = self._compute_peaks(beam, rigid_body_motion, verbose=verbose)
+        peaks = self._compute_peaks(beam, rigid_body_motion, phases, verbose=verbose)
 
         # Filter peaks by beam illumination using source positions
         source_points = peaks[:, 16:19].T  # Get source points (x,y,z) and transpose for contains method
@@ -232,7 +237,7 @@ class Polycrystal:
 
         return peaks_dict
 
-    def _compute_peaks(self, beam, rigid_body_motion, verbose=True):
+    def _compute_peaks(self, beam, rigid_body_motion, phases, verbose=True):
         """Compute diffraction for the polycrystal.
 
         Parameters
@@ -241,6 +246,8 @@ class Polycrystal:
             Object representing the incident X-ray beam.
         rigid_body_motion : RigidBodyMotion
             Object describing the polycrystal's transformation.
+        phases : list of Phase
+            Phases of the polycrystal, with their diffracting planes set up.
         verbose : bool, optional
             If ``True``, print progress messages. Default is ``True``.
 
@@ -267,7 +274,6 @@ class Polycrystal:
 
         beam = beam
         rigid_body_motion = rigid_body_motion
-        phases = self.phases
         espherecentroids = self.mesh_lab.espherecentroids
         orientation_lab = self.orientation_lab
         eB = self._eB
-- 
2.43.0


From 25dbf9aba7788fe1fd2608fa14f16ad86bfcb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:24 +0000
Subject: [PATCH 44/47] fix: allowed reflections of several space groups were
 lost

The extinction conditions that xfab.tools.genhkl_all looks up are in error
for 14 space groups (e.g. I432, P63mc, Pn-3m, Ia-3d), so that allowed
reflections were missing and forbidden ones were listed. Derive the
systematic absences from the symmetry operations instead.
---
 xrd_simulator/phase.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 7e8de37..b387d6d 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -22,7 +22,7 @@ functions.
 import copy
 
 import numpy as np
-from xfab import tools, structure
+from xfab import tools, structure, sg
 from xrd_simulator import utils
 
 class Phase(object):
@@ -109,10 +109,11 @@ class Phase(object):
     def _get_miller_indices(self, sintlmin, sintlmax):
         """Generate all allowed Miller indices with ``sin(theta)/lambda`` in bounds.
 
-        ``xfab.tools.genhkl_all`` stops walking along a lattice row at the first
-        reflection beyond the upper bound. In an oblique unit cell a row can leave
-        and re-enter the bound. The rows are therefore walked up to a bound that
-        no Miller index component of a reflection within ``sintlmax`` exceeds.
+        A reflection ``h`` is systematically absent if a symmetry operation ``(R, t)``
+        of the space group leaves it in place, ``h R = h``, but shifts its phase, i.e.
+        ``h t`` is not an integer. (``xfab.tools.genhkl_all`` is not used since it loses
+        reflections of oblique unit cells and since the tabulated extinction conditions
+        that it builds upon are in error for some of the space groups.)
 
         Parameters
         ----------
@@ -125,17 +126,23 @@ class Phase(object):
             Miller indices, shape ``(n, 3)``.
         """
         B = tools.form_b_mat(self.unit_cell) / (2 * np.pi)
-        obliquity = np.max(
-            np.linalg.norm(np.linalg.inv(B), axis=1) * np.linalg.norm(B, axis=0)
-        )
-        reflections = tools.genhkl_all(
-            self.unit_cell,
-            sintlmin,
-            sintlmax * obliquity * (1 + 1e-9),
-            sgname=self.sgname,
-            output_stl=True,
-        )
-        return reflections[reflections[:, 3] <= sintlmax, 0:3]
+        limits = 2 * sintlmax * np.linalg.norm(np.linalg.inv(B), axis=1)
+        h, k, l = [np.arange(-n, n + 1) for n in np.floor(limits * (1 + 1e-9))]
+        hkl = np.stack(np.meshgrid(h, k, l, indexing="ij"), axis=-1).reshape(-1, 3)
+
+        # Equivalent reflections should not be separated by rounding.
+        sintl = np.round(np.linalg.norm(hkl @ B.T, axis=1) / 2, 12)
+        within = (sintl > np.round(sintlmin, 12)) & (sintl <= np.round(sintlmax, 12))
+        hkl = hkl[within]
+
+        space_group = sg.sg(sgname=self.sgname)
+        absent = np.zeros(len(hkl), dtype=bool)
+        for R, t in zip(space_group.rot, space_group.trans):
+            phase = hkl @ t
+            shifted = np.abs(phase - np.round(phase)) > 0.01
+            absent |= shifted & np.all(hkl @ R == hkl, axis=1)
+
+        return hkl[~absent]
 
     def _set_structure_factors(self, miller_indices):
         """Generate unit cell structure factors for all Miller indices.
-- 
2.43.0


From 6966bf4527954a5e88dac8eb994c11540a9d80af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:22 +0000
Subject: [PATCH 45/47] fix: Lorentz factor of peaks scattered straight back
 was NaN

---
 xrd_simulator/scattering_factors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index c416c67..927f9bb 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -61,6 +61,7 @@ def _lorentz(
         (torch.abs(torch.rad2deg(eta)) < tol)
         | (torch.abs(torch.rad2deg(eta)) > 180 - tol)
         | (torch.rad2deg(theta) < tol)
+        | (korth_norm == 0)  # scattered straight back, eta is undefined
     )
 
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
-- 
2.43.0


From e13c6d01eeae0d897dfbffd81b2a729ad90be96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:06 +0000
Subject: [PATCH 46/47] fix: accept reversed views and foreign byte orders of
 NumPy arrays

---
 xrd_simulator/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index a9e887b..851f3d5 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -585,6 +585,9 @@ def ensure_torch(
         dtype = torch.float64
 
     if isinstance(data, np.ndarray):
+        if not data.dtype.isnative or any(stride < 0 for stride in data.strides):
+            # torch takes neither foreign byte orders nor reversed views.
+            data = np.array(data, dtype=data.dtype.newbyteorder("="), order="C")
         return torch.from_numpy(data).to(device=device, dtype=dtype)
     elif torch.is_tensor(data):
         return data.to(device=device, dtype=dtype)
-- 
2.43.0


From bbefea15e6a4a4ea40e3c711bc09a3baabccb409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:26 +0000
Subject: [PATCH 47/47] fix: keep double precision with single precision
 wavelengths and unit cells

---
 xrd_simulator/beam.py  | 1 +
 xrd_simulator/phase.py | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 2111365..7796226 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -73,6 +73,7 @@ class Beam:
     ):
         # Convert to torch tensors first, then normalize using torch operations
         xray_dir = ensure_torch(xray_propagation_direction)
+        wavelength = float(wavelength)  # a single precision number would set the precision
         self.wave_vector = (
             (2 * np.pi / wavelength) * xray_dir / torch.linalg.norm(xray_dir)
         )
diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index b387d6d..a212e0e 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -19,7 +19,6 @@ functions.
 
 .. _The .cif file used in the above example can be found here.: https://github.com/FABLE-3DXRD/xrd_simulator/blob/main/docs/source/examples/quartz.cif?raw=true
 """
-import copy
 
 import numpy as np
 from xfab import tools, structure, sg
@@ -68,7 +67,7 @@ class Phase(object):
     """
 
     def __init__(self, unit_cell, sgname, path_to_cif_file=None):
-        self.unit_cell = copy.copy(unit_cell)
+        self.unit_cell = [float(parameter) for parameter in unit_cell]
         self.sgname = sgname
         self.miller_indices = None
         self.structure_factors = None
-- 
2.43.0

