From 2a463a882758883a0c096337dfd88bc315b5a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 01/22] fix: reject planar target intersections behind the ray
 origin

---
 artist/raytracing/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..7feb985 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -174,13 +174,15 @@ def line_plane_intersections(
     )
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
-    # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays that hit the backside of the target, rays that are parallel to the target or rays that would
+    # only reach the plane of the target by travelling backwards, i.e., with a negative distance.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances > 0.0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From 8e038541640c78e1704783003ddf7cc4145aa71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 02/22] fix: measure cylinder sector angles from the target
 normal in the local frame

---
 artist/raytracing/geometry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 7feb985..b4ea47d 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -397,13 +397,13 @@ def line_cylinder_intersections(
     # z-values range from negative half cylinder height to positive half the cylinder height, therefore we add half the cylinder height
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
-    # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
+    # Angles in the local cylinder frame are defined 0° towards the local x-axis, the target area normal is the local y-axis (90°).
+    # The cylinder sector is centered around the normal, therefore angles are measured from the edge of the sector that lies half
+    # the opening angle in front of the normal. They are wrapped to one revolution.
+    angles = torch.remainder(
+        torch.atan2(y, x)
+        - (torch.pi / 2 - opening_angles.view(-1, 1, 1) / 2),
+        2 * torch.pi,
     )
 
     intersections_on_target = (
-- 
2.43.0


From cb7326bf1d47015e074e635a652165fc2731db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 03/22] fix: assign every sample to a rank when samples are not
 divisible by the active heliostats

---
 artist/raytracing/sampling.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..a5a3dba 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -130,15 +130,16 @@ class RestrictedDistributedSampler(Sampler):
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
             indices: list[int] = []
 
+            # The samples are split into one consecutive chunk per active heliostat. If the number of samples is not
+            # divisible by the number of active heliostats, the sizes of the chunks differ, so that no sample is left out.
             for index in range(number_of_active_heliostats):
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
+                    start = index * number_of_samples // number_of_active_heliostats
+                    end = (
+                        (index + 1) * number_of_samples // number_of_active_heliostats
+                    )
                     indices.extend(range(start, end))
 
             self.rank_indices = indices
-- 
2.43.0


From b4a96b1773c79d2081687762efccad0501d58d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 04/22] fix: compare evaluation points with the last knot of
 their own facet in non-uniform NURBS

---
 artist/nurbs/surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index f238c88..c4f0e8b 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -233,7 +233,7 @@ class NURBSSurfaces(torch.nn.Module):
             )
             is_last_knot = torch.isclose(
                 evaluation_points,
-                knot_vectors[:, :, number_of_knots],
+                knot_vectors[:, :, number_of_knots].unsqueeze(-1),
                 atol=1e-5,
                 rtol=1e-5,
             )
-- 
2.43.0


From da49ef3f8ac7e171bd51314c11f35f59ebe807c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 05/22] fix: evaluate uniform NURBS at the end of the parameter
 domain

---
 artist/nurbs/surfaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index c4f0e8b..7a4d0b8 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -198,14 +198,14 @@ class NURBSSurfaces(torch.nn.Module):
         if self.uniform:
             unique_knots = torch.unique(knot_vectors, dim=indices.nurbs_knots_batched)
 
+            number_of_spans = unique_knots.shape[indices.nurbs_knots_batched] - 1
+            # The end of the parameter domain belongs to the last span.
             spans = (
-                torch.floor(
-                    evaluation_points
-                    * (unique_knots.shape[indices.nurbs_knots_batched] - 1)
-                ).long()
+                torch.floor(evaluation_points * number_of_spans)
+                .long()
+                .clamp(max=number_of_spans - 1)
                 + degree
             )
-
         else:
             number_of_knots = (
                 knot_vectors.shape[indices.nurbs_knots_batched] - degree - 1
-- 
2.43.0


From 05789f556b3df8af64feb7b35fb4dba54f4619bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 06/22] fix: search every split position when building the
 blocking hierarchy

---
 artist/raytracing/blocking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index aee2a39..7bb64bf 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -647,7 +647,10 @@ def build_linear_bounding_volume_hierarchies(
         )
         mask = candidates_lcp > delta_node
         split = torch.where(mask, split + t, split)
-        t = t // 2
+        if t.max() == 1:
+            break
+        # Round up, otherwise the search cannot reach every split position.
+        t = (t + 1) // 2
 
     gamma = (
         blocker_ids
-- 
2.43.0


From 20b53266c3d187f5e86346651d3e1d73ed0c6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:02 +0000
Subject: [PATCH 07/22] fix: tell identical Morton codes apart when building
 the blocking hierarchy

---
 artist/raytracing/blocking.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 7bb64bf..ab7e089 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -477,7 +477,8 @@ def longest_common_prefix(
     Returns
     -------
     torch.Tensor
-        The longest common prefixes in the range from 0 to ``total_bits``.
+        The longest common prefixes in the range from 0 to ``total_bits``. For identical Morton codes, the number of
+        identical leading index bits is added.
         Shape is ``[number_of_blocking_planes]``.
     """
     device = get_device(device=device)
@@ -487,6 +488,11 @@ def longest_common_prefix(
     if valid.any():
         differing_bits = torch.zeros_like(i, device=device)
         differing_bits[valid] = codes[i[valid]] ^ codes[j[valid]]
+        # Identical Morton codes are told apart by their indices, as if these were appended to the codes.
+        identical_codes = differing_bits == 0
+        differing_bits[valid] = torch.where(
+            identical_codes[valid], (i ^ j)[valid], differing_bits[valid]
+        ).to(differing_bits.dtype)
 
         nonzero_mask = differing_bits != 0
         msb = torch.full_like(i, -1, device=device)
@@ -505,7 +511,9 @@ def longest_common_prefix(
 
             msb[nonzero_mask] = 31 - leading_zeros
 
-        lcp[valid] = torch.where(differing_bits[valid] == 0, 30, (30 - 1) - msb[valid])
+        lcp[valid] = torch.where(
+            identical_codes[valid], 30 + (32 - 1) - msb[valid], (30 - 1) - msb[valid]
+        ).to(lcp.dtype)
 
     return lcp
 
-- 
2.43.0


From dc94b33850f88f3bc90f90c10f32d398da9b0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 08/22] fix: return only the samples of the local rank from the
 ray tracer

---
 artist/raytracing/heliostat_ray_tracer.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 273eb55..2df5df2 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -214,6 +214,7 @@ class HeliostatRayTracer:
         """
         return torch.tensor(
             self.distortions_sampler.rank_indices,
+            dtype=torch.long,
             device=self.distortions_dataset.distortions_u.device,
         )
 
@@ -264,17 +265,17 @@ class HeliostatRayTracer:
         Returns
         -------
         torch.Tensor
-            The resulting bitmaps per heliostat.
-            Shape is ``[number_of_active_heliostats, bitmap_resolution_e, bitmap_resolution_u]``.
+            The resulting bitmaps per heliostat for the samples assigned to this rank, see ``get_sampler_indices()``.
+            Shape is ``[number_of_samples_assigned_to_current_rank, bitmap_resolution_e, bitmap_resolution_u]``.
         torch.Tensor
             The fraction of rays hitting the target, neglecting blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays not being blocked.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays actually hitting the target, taking into account blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         """
         device = get_device(device=device)
 
@@ -505,7 +506,14 @@ class HeliostatRayTracer:
                 (1, 2)
             ) / number_of_rays_per_heliostat
 
-        return flux_distributions, intercept_factor, on_target_factor, blocking_factor
+        # The rows of samples that are traced by other ranks have not been computed.
+        local_indices = self.get_sampler_indices().to(device)
+        return (
+            flux_distributions[local_indices],
+            intercept_factor[local_indices],
+            on_target_factor[local_indices],
+            blocking_factor[local_indices],
+        )
 
     def scatter_rays(
         self,
-- 
2.43.0


From c9b3f6acc648010d225958deea7b132bd330ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 09/22] fix: crop the flux of the local rank with the target
 areas of its own samples

---
 artist/optim/surface_reconstructor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 75b1e2c..631e5bc 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -257,7 +257,9 @@ class SurfaceReconstructor:
         cropped_flux_distributions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_test,
+            target_area_indices=data_split.target_area_indices_test[
+                ray_tracer.get_sampler_indices()
+            ],
             device=device,
         )
 
@@ -578,7 +580,9 @@ class SurfaceReconstructor:
         cropped_flux_predictions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction_train,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_train,
+            target_area_indices=data_split.target_area_indices_train[
+                ray_tracer.get_sampler_indices()
+            ],
             device=device,
         )
 
-- 
2.43.0


From 5cf630b5f996facce5137707a73a14e9c61a0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 10/22] fix: number the heliostats of a group after those of
 the preceding groups when filtering blockers

---
 artist/raytracing/heliostat_ray_tracer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 2df5df2..ffc0b7c 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -314,6 +314,11 @@ class HeliostatRayTracer:
         blocking_factor = torch.empty(active_heliostats_mask.sum(), device=device)
 
         global_active_indices = torch.nonzero(active_heliostats_mask, as_tuple=True)[0]
+        # The blocking primitives of all heliostat groups are numbered consecutively.
+        for group in self.scenario.heliostat_field.heliostat_groups:
+            if group is self.heliostat_group:
+                break
+            global_active_indices = global_active_indices + group.number_of_heliostats
         for batch_index, (batch_u, batch_e) in enumerate(self.distortions_loader):
             sampler_indices = list(self.distortions_sampler)
             batch_mask_indices = sampler_indices[
-- 
2.43.0


From b91951f6d813add7d4a9f3d1f6f198deac61c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 11/22] fix: load individual actuators of heliostats that use
 the kinematics prototype

---
 artist/field/heliostat_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 321a054..7db5717 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -193,6 +193,7 @@ class HeliostatField:
                         "Individual kinematics configuration not provided - loading a heliostat with the kinematics prototype."
                     )
                 kinematics_type = prototype_kinematics[constants.kinematics_type]
+                number_of_actuators = constants.rigid_body_number_of_actuators
 
                 initial_orientation = prototype_kinematics[
                     constants.kinematics_initial_orientation
-- 
2.43.0


From 08fd892c9ea617f261cfdcc4c9ccd802ed5ead17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 12/22] fix: keep the NURBS degrees of each heliostat group
 when loading a field

---
 artist/field/heliostat_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 7db5717..b78c34b 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -138,6 +138,7 @@ class HeliostatField:
         grouped_field_data: defaultdict[
             str, defaultdict[str, list[str | torch.Tensor]]
         ] = defaultdict(lambda: defaultdict(list))
+        nurbs_degrees_per_group: dict[str, torch.Tensor] = {}
 
         for heliostat_name in config_file[constants.heliostat_key].keys():
             single_heliostat_config = config_file[constants.heliostat_key][
@@ -309,6 +310,7 @@ class HeliostatField:
                 )
 
             heliostat_group_key = f"{kinematics_type}_{actuator_type}"
+            nurbs_degrees_per_group[heliostat_group_key] = degrees
 
             grouped_field_data[heliostat_group_key][constants.names].append(
                 heliostat_name
@@ -409,7 +411,7 @@ class HeliostatField:
                     nurbs_control_points=grouped_field_data[heliostat_group_name][
                         constants.facet_control_points
                     ],
-                    nurbs_degrees=degrees,
+                    nurbs_degrees=nurbs_degrees_per_group[heliostat_group_name],
                     initial_orientations=grouped_field_data[heliostat_group_name][
                         constants.initial_orientations
                     ],
-- 
2.43.0


From ec473c3a7c39835b88cd597d01fc0697e0b4c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 13/22] fix: write scenario files without planar or cylindrical
 target areas so that they can be loaded

---
 artist/scenario/h5_scenario_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/scenario/h5_scenario_generator.py b/artist/scenario/h5_scenario_generator.py
index fc02de2..af4d6eb 100644
--- a/artist/scenario/h5_scenario_generator.py
+++ b/artist/scenario/h5_scenario_generator.py
@@ -212,6 +212,7 @@ class H5ScenarioGenerator:
         parameters : dict[str, Any]
             The parameters to be included into the HDF5 file.
         """
+        file.require_group(prefix)
         for key, value in parameters.items():
             if torch.is_tensor(value):
                 value = value.cpu()
-- 
2.43.0


From c6d34796eb4e790fae2fb6da9271b9afbc5851b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 14/22] fix: extract mixed PAINT heliostats when all of them
 are ideal or all are fitted

---
 artist/io/paint_scenario_parser.py | 60 ++++++++++++++++++------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index e89904c..c8c6e63 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -977,34 +977,46 @@ def extract_paint_heliostats_mixed_surface(
         else:
             ideal_paths.append(path_tuple)
 
+    combined_heliostat_list = []
+    prototype_configs = []
+
     # Process ideal heliostats.
-    ideal_heliostats_config, prototype_config = _process_heliostats_from_paths(
-        paths=ideal_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_ideal_surface_generator,
-        device=device,
-    )
+    if ideal_paths:
+        ideal_heliostats_config, ideal_prototype_config = (
+            _process_heliostats_from_paths(
+                paths=ideal_paths,
+                power_plant_position=power_plant_position,
+                number_of_nurbs_control_points=number_of_nurbs_control_points,
+                surface_config_generator=_ideal_surface_generator,
+                device=device,
+            )
+        )
+        combined_heliostat_list += ideal_heliostats_config.heliostat_list
+        prototype_configs.append(ideal_prototype_config)
 
     # Process fitted heliostats.
-    fitted_heliostats_config, _ = _process_heliostats_from_paths(
-        paths=fitted_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_fitted_surface_generator,
-        device=device,
-        nurbs_fit_optimizer=nurbs_fit_optimizer,
-        nurbs_fit_scheduler=nurbs_fit_scheduler,
-        deflectometry_step_size=deflectometry_step_size,
-        nurbs_fit_method=nurbs_fit_method,
-        nurbs_fit_tolerance=nurbs_fit_tolerance,
-        nurbs_fit_max_epoch=nurbs_fit_max_epoch,
-    )
+    if fitted_paths:
+        fitted_heliostats_config, fitted_prototype_config = (
+            _process_heliostats_from_paths(
+                paths=fitted_paths,
+                power_plant_position=power_plant_position,
+                number_of_nurbs_control_points=number_of_nurbs_control_points,
+                surface_config_generator=_fitted_surface_generator,
+                device=device,
+                nurbs_fit_optimizer=nurbs_fit_optimizer,
+                nurbs_fit_scheduler=nurbs_fit_scheduler,
+                deflectometry_step_size=deflectometry_step_size,
+                nurbs_fit_method=nurbs_fit_method,
+                nurbs_fit_tolerance=nurbs_fit_tolerance,
+                nurbs_fit_max_epoch=nurbs_fit_max_epoch,
+            )
+        )
+        combined_heliostat_list += fitted_heliostats_config.heliostat_list
+        prototype_configs.append(fitted_prototype_config)
+
+    # The prototype comes from the ideal heliostats, if there are any.
+    prototype_config = prototype_configs[0]
 
-    # Combine the lists.
-    combined_heliostat_list = (
-        ideal_heliostats_config.heliostat_list + fitted_heliostats_config.heliostat_list
-    )
     combined_heliostat_list_config = HeliostatListConfig(
         heliostat_list=combined_heliostat_list
     )
-- 
2.43.0


From 76f98d7dd374513dd55bd7f32d2515b3360f1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 15/22] fix: select the same calibration measurements for the
 same seed on every file system

---
 artist/io/paint_scenario_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index c8c6e63..6489e74 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -1118,10 +1118,10 @@ def build_heliostat_data_mapping(
             calibration_dir.glob(f"*{paint_mappings.CALIBRATION_PROPERTIES_IDENTIFIER}")
         )
 
+        # The order in which a file system lists files is arbitrary.
+        property_files.sort()
         if randomize:
             random.Random(seed).shuffle(property_files)
-        else:
-            property_files.sort()
 
         properties, images = [], []
 
-- 
2.43.0


From e3b254577c6002682af6468954ec33d271c87876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 16/22] fix: trace the active surface points, whose number may
 differ from the stored surface

---
 artist/raytracing/heliostat_ray_tracer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index ffc0b7c..62af161 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -193,7 +193,7 @@ class HeliostatRayTracer:
             # Calculate ray magnitude.
             power_single_heliostat = dni * heliostat_surface_area
             rays_per_heliostat = (
-                self.heliostat_group.surface_points.shape[1]
+                self.heliostat_group.active_surface_points.shape[1]
                 * self.scenario.light_sources.light_source_list[
                     indices.first_light_source
                 ].number_of_rays
@@ -364,7 +364,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -372,7 +372,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -380,7 +380,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -388,7 +388,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
-- 
2.43.0


From 07e360340b2087796fb1aeac2f9986b9f8868f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 17/22] fix: optimize aim points with losses other than the KL
 divergence

---
 artist/optim/aim_point_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 7f9ad7a..36e2c6e 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -876,6 +876,9 @@ class AimPointOptimizer:
                 device=device,
             )
 
+            # The constraints are added to the flux loss for the KL divergence only.
+            loss = flux_loss
+
             if isinstance(loss_definition, KLDivergenceLoss):
                 (
                     loss,
-- 
2.43.0


From bdf3abb99fded280e777dae4edec88718876ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 18/22] fix: synchronize the alignment-driven kinematics
 reconstruction across ranks

Unlike the flux-driven reconstruction, the alignment-driven one returned without
exchanging results, so that each rank kept its own partially updated kinematics.
---
 artist/optim/kinematics_reconstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index b47d555..0d0117d 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -876,12 +876,17 @@ class KinematicsReconstructor:
 
                 log.info(f"Rank: {rank}, Kinematics reconstructed.")
 
+        final_loss_history_all_groups = self._synchronize_reconstruction_across_ranks(
+            final_loss_per_heliostat=final_loss_per_heliostat,
+            loss_history=loss_history,
+        )
+
         for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
             heliostat_group.kinematics.rotation_deviation_parameters = (
                 heliostat_group.kinematics.rotation_deviation_parameters.detach()
             )
 
-        return final_loss_per_heliostat.detach().cpu(), [loss_history]
+        return final_loss_per_heliostat.detach().cpu(), final_loss_history_all_groups
 
     def _reconstruct_kinematics_flux_driven(
         self,
-- 
2.43.0


From ffd39d1c5c10cd7efb840d61713bd1fa9c9b0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 19/22] fix: reduce the aim point optimizer's ray fractions
 across ranks

Each heliostat is traced on one rank only, but the intercept, on-target and
blocking factors were used locally although the flux was reduced.
---
 artist/optim/aim_point_optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 36e2c6e..608f099 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -517,6 +517,15 @@ class AimPointOptimizer:
                 total_flux,
                 op=torch.distributed.ReduceOp.SUM,
             )
+            # Each heliostat is traced on exactly one rank, its factors are zero on all others.
+            intercept_factors, on_target_factors, blocking_factors = (
+                torch.distributed.nn.functional.all_reduce(
+                    torch.stack(
+                        (intercept_factors, on_target_factors, blocking_factors)
+                    ),
+                    op=torch.distributed.ReduceOp.SUM,
+                ).unbind()
+            )
 
         return total_flux, intercept_factors, on_target_factors, blocking_factors
 
-- 
2.43.0


From 6c1e2e5871c14946004a5f4dddc575a1eaae0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 20/22] fix: let all ranks join the aim point optimizer's
 gradient reductions

Ranks without a local gradient for a group skipped its all-reduce, so that runs with
several groups on several ranks deadlocked or mixed gradients of different groups.
---
 artist/optim/aim_point_optimizer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 608f099..95347f1 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -703,12 +703,14 @@ class AimPointOptimizer:
         if self.ddp_setup[constants.is_distributed]:  # type: ignore
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad, op=torch.distributed.ReduceOp.SUM
-                        )
-                        # Average the gradients.
-                        param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
+                    # Groups handled by other ranks have no local gradient, but the reduction needs all ranks.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad, op=torch.distributed.ReduceOp.SUM
+                    )
+                    # Average the gradients.
+                    param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
 
     def _broadcast_motor_positions(self) -> None:
         """
-- 
2.43.0


From ce824c954322f9c30e87d392c88e796b1b26fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:20 +0000
Subject: [PATCH 21/22] fix: fit every facet with a fresh scheduler state

The plateau scheduler is shared by all facets and heliostats. It kept the best loss of
the first fit, reduced the learning rate of all later fits and left them far from converged.
---
 artist/scenario/surface_generator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/artist/scenario/surface_generator.py b/artist/scenario/surface_generator.py
index 3351328..6142443 100644
--- a/artist/scenario/surface_generator.py
+++ b/artist/scenario/surface_generator.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 import torch
@@ -191,6 +192,11 @@ class SurfaceGenerator:
             {"params": nurbs_surface.control_points.requires_grad_()}
         )
 
+        # The scheduler is shared by all facets, but the fit of one facet must not depend on previously fitted facets.
+        initial_scheduler_state = (
+            copy.deepcopy(scheduler.state_dict()) if scheduler else None
+        )
+
         loss = torch.inf
         epoch = 0
         while loss > tolerance and epoch <= max_epoch:
@@ -220,6 +226,9 @@ class SurfaceGenerator:
                 )
             epoch += 1
 
+        if scheduler:
+            scheduler.load_state_dict(initial_scheduler_state)
+
         return nurbs_surface
 
     def generate_fitted_surface_config(
-- 
2.43.0


From 9453766cfdaf4453fab6d865d294904ed18e2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:20 +0000
Subject: [PATCH 22/22] fix: activate heliostats again after none were active

The check for optimizable actuator parameters looked at those of the previous activation.
After a mask without active heliostats, linear actuators lost their parameters for good.
---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..d2b7e25 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -303,7 +303,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0

