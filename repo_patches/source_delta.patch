From 7715147eee9bbd2f4b849d02c417d9b7c0cfe2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 01/13] fix: do not count rays that start behind a planar
 target as hits

---
 artist/raytracing/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..7ea3440 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -174,13 +174,15 @@ def line_plane_intersections(
     )
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
-    # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays that hit the backside of the target, rays that are parallel to the target or rays that
+    # start behind the target and travel away from it.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances > 0.0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From a8177149bd9185b7fd7db05a2617f331cb60749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 02/13] fix: measure cylindrical target angles from the target
 normal

---
 artist/raytracing/geometry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 7ea3440..332de3f 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -397,14 +397,9 @@ def line_cylinder_intersections(
     # z-values range from negative half cylinder height to positive half the cylinder height, therefore we add half the cylinder height
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
-    # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
-    )
+    # Angles are measured around the cylinder axis with 0° where the normal vector points to, which is the positive local y-axis.
+    # They are in (-pi, pi] before half the opening angle is added, so that valid angles range from 0° to the opening angle.
+    angles = torch.atan2(-x, y) + opening_angles.view(-1, 1, 1) / 2
 
     intersections_on_target = (
         (z >= 0)
-- 
2.43.0


From c5d2fb65b118c50e1090679172e62c73698cd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 03/13] fix: keep rays that hit the last pixel row or column of
 a target

---
 artist/raytracing/heliostat_ray_tracer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 273eb55..214ab4f 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -671,8 +671,9 @@ class HeliostatRayTracer:
         # (for E this corresponds to pixel 1 and 4, for U to 3 and 4).
         # The eastern and upper neighbored pixels are accessed via indices_low_e + 1 and
         # indices_low_u + 1 (for E this corresponds to 2 and 3, for U to 1 and 2).
-        indices_low_e = bitmap_intersections_e.long()
-        indices_low_u = bitmap_intersections_u.long()
+        # Intersections exactly on the last pixel belong to the last pair of neighbored pixels.
+        indices_low_e = bitmap_intersections_e.floor().long().clamp(max=bitmap_width - 2)
+        indices_low_u = bitmap_intersections_u.floor().long().clamp(max=bitmap_height - 2)
 
         # When distributing the continuously positioned value/intensity to
         # the discretely positioned pixels, we assign the corresponding
@@ -722,9 +723,9 @@ class HeliostatRayTracer:
         # in the bitmap (i.e., we prevent out-of-bounds access).
         intersection_indices_on_target = (
             (0 <= indices_low_e)
-            & (indices_low_e + 1 < bitmap_width)
+            & (bitmap_intersections_e <= bitmap_width - 1)
             & (0 <= indices_low_u)
-            & (indices_low_u + 1 < bitmap_height)
+            & (bitmap_intersections_u <= bitmap_height - 1)
         )
 
         # Flux density maps for each active heliostat.
-- 
2.43.0


From 4e72ade1420806a4bff506361eeb4565d99b892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:07 +0000
Subject: [PATCH 04/13] fix: search all split positions when building the
 blocking hierarchy

---
 artist/raytracing/blocking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index aee2a39..41ca1e0 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -647,7 +647,7 @@ def build_linear_bounding_volume_hierarchies(
         )
         mask = candidates_lcp > delta_node
         split = torch.where(mask, split + t, split)
-        t = t // 2
+        t = torch.where(t > 1, (t + 1) // 2, 0)
 
     gamma = (
         blocker_ids
-- 
2.43.0


From 3c95bc21a857baa9a782c2e2a29ae7d6d4130496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:07 +0000
Subject: [PATCH 05/13] fix: build the blocking hierarchy for identical Morton
 codes

---
 artist/raytracing/blocking.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 41ca1e0..8161de7 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -477,7 +477,7 @@ def longest_common_prefix(
     Returns
     -------
     torch.Tensor
-        The longest common prefixes in the range from 0 to ``total_bits``.
+        The longest common prefixes, identical codes are extended by the common prefixes of their indices.
         Shape is ``[number_of_blocking_planes]``.
     """
     device = get_device(device=device)
@@ -488,6 +488,12 @@ def longest_common_prefix(
         differing_bits = torch.zeros_like(i, device=device)
         differing_bits[valid] = codes[i[valid]] ^ codes[j[valid]]
 
+        # Identical Morton codes are told apart by their positions in the sorted order.
+        identical_codes = valid & (differing_bits == 0)
+        differing_bits = torch.where(
+            identical_codes, (i ^ j).to(differing_bits.dtype), differing_bits
+        )
+
         nonzero_mask = differing_bits != 0
         msb = torch.full_like(i, -1, device=device)
         if nonzero_mask.any():
@@ -505,7 +511,9 @@ def longest_common_prefix(
 
             msb[nonzero_mask] = 31 - leading_zeros
 
-        lcp[valid] = torch.where(differing_bits[valid] == 0, 30, (30 - 1) - msb[valid])
+        lcp[valid] = torch.where(
+            identical_codes[valid], (30 + 30) - msb[valid], (30 - 1) - msb[valid]
+        )
 
     return lcp
 
-- 
2.43.0


From 9987bb5ccf71a43f0e2f735be9c5f1f048a0f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 06/13] fix: return the orientation of the stored motor
 positions after alignment

---
 artist/field/kinematics_rigid_body.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/artist/field/kinematics_rigid_body.py b/artist/field/kinematics_rigid_body.py
index e14361d..cb23b38 100644
--- a/artist/field/kinematics_rigid_body.py
+++ b/artist/field/kinematics_rigid_body.py
@@ -628,6 +628,12 @@ class RigidBody(Kinematics):
             motor_positions = self._compute_motor_positions_from_normal(
                 normals=desired_concentrator_normals, device=device
             )
+        else:
+            # The motor positions were updated last, the orientations must belong to them.
+            orientations = self._compute_orientations_from_motor_positions(
+                motor_positions=motor_positions,
+                device=device,
+            )
 
         self.active_motor_positions = motor_positions
 
-- 
2.43.0


From 61a8915544dcd041039fce166250c3071c2bdaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:03 +0000
Subject: [PATCH 07/13] fix: trace all samples when heliostats are activated
 unequally often

---
 artist/raytracing/sampling.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..5f43bde 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -130,15 +130,12 @@ class RestrictedDistributedSampler(Sampler):
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
             indices: list[int] = []
 
             for index in range(number_of_active_heliostats):
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
+                    start = index * number_of_samples // number_of_active_heliostats
+                    end = (index + 1) * number_of_samples // number_of_active_heliostats
                     indices.extend(range(start, end))
 
             self.rank_indices = indices
-- 
2.43.0


From 1ce5ecf9abc3693f01cffc08a5788cc660109012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 08/13] fix: identify the own heliostat among the blocking
 surfaces of all groups

---
 artist/raytracing/heliostat_ray_tracer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 214ab4f..d04d49b 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -163,11 +163,17 @@ class HeliostatRayTracer:
                     for group in self.scenario.heliostat_field.heliostat_groups
                 ]
             )
-            blocking_heliostat_surfaces_active_list = []
+            blocking_heliostat_surfaces_active_list: list[torch.Tensor] = []
+            self.blocking_index_offset = 0
             self.blocking_heliostat_surfaces_active = torch.zeros_like(
                 self.blocking_heliostat_surfaces
             )
             for group in self.scenario.heliostat_field.heliostat_groups:
+                if group is self.heliostat_group:
+                    self.blocking_index_offset = sum(
+                        len(surfaces)
+                        for surfaces in blocking_heliostat_surfaces_active_list
+                    )
                 surfaces = group.surface_points + group.positions.unsqueeze(1)
                 mask = group.active_heliostats_mask.bool()
                 if mask.any():
@@ -443,7 +449,11 @@ class HeliostatRayTracer:
                 device=device,
             )
             if self.blocking_active:
-                batch_global_indices = global_active_indices[batch_mask_indices]
+                # The blocking primitives of all heliostat groups are concatenated.
+                batch_global_indices = (
+                    global_active_indices[batch_mask_indices]
+                    + self.blocking_index_offset
+                )
                 ray_to_heliostat_mapping = batch_global_indices.repeat_interleave(
                     number_of_rays_per_heliostat
                 )
-- 
2.43.0


From 22628953cdcd1baf722ebe1f7972f7e9e35d3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:38 +0000
Subject: [PATCH 09/13] fix: keep the optimizable actuator parameters after
 activating no heliostat

---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..d2b7e25 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -303,7 +303,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0


From cc945212394e60a8c163415b76021b6eb28720ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 10/13] fix: load individual actuators of heliostats with
 prototype kinematics

---
 artist/field/heliostat_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 321a054..5ccbc95 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -203,6 +203,7 @@ class HeliostatField:
                 rotation_deviations = prototype_kinematics[
                     constants.rotation_deviations
                 ]
+                number_of_actuators = constants.rigid_body_number_of_actuators
 
             if constants.heliostat_actuator_key in single_heliostat_config.keys():
                 actuator_keys = list(
-- 
2.43.0


From a197ea1181344cd94cae07eb9c05770aa531e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:49 +0000
Subject: [PATCH 11/13] fix: keep the nurbs degrees of each heliostat group
 when loading a scenario

---
 artist/field/heliostat_field.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 5ccbc95..16f27d3 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -365,6 +365,9 @@ class HeliostatField:
             grouped_field_data[heliostat_group_key][
                 constants.actuator_parameters_optimizable
             ].append(actuator_parameters_optimizable)
+            grouped_field_data[heliostat_group_key][constants.facet_degrees].append(
+                degrees
+            )
 
         for group in grouped_field_data:
             for key in grouped_field_data[group]:
@@ -409,7 +412,9 @@ class HeliostatField:
                     nurbs_control_points=grouped_field_data[heliostat_group_name][
                         constants.facet_control_points
                     ],
-                    nurbs_degrees=degrees,
+                    nurbs_degrees=grouped_field_data[heliostat_group_name][
+                        constants.facet_degrees
+                    ][0],
                     initial_orientations=grouped_field_data[heliostat_group_name][
                         constants.initial_orientations
                     ],
-- 
2.43.0


From 0983afb4243728f06bead0743019b2fa09e4fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 12/13] fix: optimise aim points with losses other than the KL
 divergence

---
 artist/optim/aim_point_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 7f9ad7a..011d335 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -876,6 +876,8 @@ class AimPointOptimizer:
                 device=device,
             )
 
+            loss = flux_loss
+
             if isinstance(loss_definition, KLDivergenceLoss):
                 (
                     loss,
-- 
2.43.0


From 5a6f6225b61cade6a6792689808f440a76fc5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 13/13] fix: pair traced images with their samples when several
 processes share a heliostat group

---
 artist/optim/aim_point_optimizer.py           | 14 ++++++++++----
 artist/optim/kinematics_reconstructor.py      |  2 +-
 artist/optim/surface_reconstructor.py         | 19 ++++++++++++-------
 artist/raytracing/heliostat_ray_tracer.py     |  8 ++++----
 ...liostat_raytracing_distributed_tutorial.py |  1 +
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 011d335..4457fbd 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -497,7 +497,7 @@ class AimPointOptimizer:
             )
             sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
             flux_distribution_on_target = ray_tracer.get_bitmaps_per_target(
-                bitmaps_per_heliostat=flux_distributions,
+                bitmaps_per_heliostat=flux_distributions[sample_indices_for_local_rank],
                 target_area_indices=target_area_indices_all_groups[
                     heliostat_group_index
                 ][sample_indices_for_local_rank],
@@ -508,9 +508,15 @@ class AimPointOptimizer:
             global_indices = (
                 group_offsets[heliostat_group_index] + sample_indices_for_local_rank
             )
-            intercept_factors[global_indices] = intercept_factor
-            on_target_factors[global_indices] = on_target_factor
-            blocking_factors[global_indices] = blocking_factor
+            intercept_factors[global_indices] = intercept_factor[
+                sample_indices_for_local_rank
+            ]
+            on_target_factors[global_indices] = on_target_factor[
+                sample_indices_for_local_rank
+            ]
+            blocking_factors[global_indices] = blocking_factor[
+                sample_indices_for_local_rank
+            ]
 
         if self.ddp_setup["is_distributed"]:
             total_flux = torch.distributed.nn.functional.all_reduce(
diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index b47d555..ffb9d2f 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -599,7 +599,7 @@ class KinematicsReconstructor:
         sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
 
         loss_per_sample = loss_definition(
-            prediction=flux_prediction_train,
+            prediction=flux_prediction_train[sample_indices_for_local_rank],
             ground_truth=data_split.flux_measured_train[sample_indices_for_local_rank],
             target_area_indices=data_split.target_area_indices_train[
                 sample_indices_for_local_rank
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 75b1e2c..1dbbcc2 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -254,15 +254,17 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         cropped_flux_distributions = bitmap.crop_flux_distributions_around_center(
-            flux_distributions=flux_prediction,
+            flux_distributions=flux_prediction[indices_for_local_rank],
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_test,
+            target_area_indices=data_split.target_area_indices_test[
+                indices_for_local_rank
+            ],
             device=device,
         )
 
-        indices_for_local_rank = ray_tracer.get_sampler_indices()
-
         loss_pixel_per_sample = self.validation_loss_pixel(
             prediction=cropped_flux_distributions,
             ground_truth=data_split.flux_measured_test[indices_for_local_rank],
@@ -574,15 +576,18 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         # Crop predictions around center before comparing to measurements.
         cropped_flux_predictions = bitmap.crop_flux_distributions_around_center(
-            flux_distributions=flux_prediction_train,
+            flux_distributions=flux_prediction_train[sample_indices_for_local_rank],
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_train,
+            target_area_indices=data_split.target_area_indices_train[
+                sample_indices_for_local_rank
+            ],
             device=device,
         )
 
-        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
         local_indices = (
             sample_indices_for_local_rank[:: data_split.number_of_train_samples]
             // data_split.number_of_train_samples
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index d04d49b..980f441 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -306,7 +306,7 @@ class HeliostatRayTracer:
                 device=device,
             )
 
-        flux_distributions = torch.empty(
+        flux_distributions = torch.zeros(
             (
                 int(active_heliostats_mask.sum()),
                 int(self.bitmap_resolution[indices.unbatched_bitmap_u]),
@@ -314,9 +314,9 @@ class HeliostatRayTracer:
             ),
             device=device,
         )
-        intercept_factor = torch.empty(active_heliostats_mask.sum(), device=device)
-        on_target_factor = torch.empty(active_heliostats_mask.sum(), device=device)
-        blocking_factor = torch.empty(active_heliostats_mask.sum(), device=device)
+        intercept_factor = torch.zeros(active_heliostats_mask.sum(), device=device)
+        on_target_factor = torch.zeros(active_heliostats_mask.sum(), device=device)
+        blocking_factor = torch.zeros(active_heliostats_mask.sum(), device=device)
 
         global_active_indices = torch.nonzero(active_heliostats_mask, as_tuple=True)[0]
         for batch_index, (batch_u, batch_e) in enumerate(self.distortions_loader):
diff --git a/tutorials/02_heliostat_raytracing_distributed_tutorial.py b/tutorials/02_heliostat_raytracing_distributed_tutorial.py
index 209340b..1f8ba33 100644
--- a/tutorials/02_heliostat_raytracing_distributed_tutorial.py
+++ b/tutorials/02_heliostat_raytracing_distributed_tutorial.py
@@ -150,6 +150,7 @@ with setup_distributed_environment(
             )
 
             sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
+            bitmaps_per_heliostat = bitmaps_per_heliostat[sample_indices_for_local_rank]
             # Plot the bitmaps of each single heliostat.
             for i in range(bitmaps_per_heliostat.shape[0]):
                 expanded_names = [
-- 
2.43.0

