From 03172ea6de1ed375cc0097d22b2b8e4bde419d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:31 +0000
Subject: [PATCH 01/31] fix: let the traversal handle levels that have no rows

---
 glmtools/io/traversal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..ef7c701 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -1,6 +1,9 @@
 import collections, itertools
 import numpy as np
 
+# Stands in for a groupby along a dimension that has no data
+NoGroups = collections.namedtuple('NoGroups', ['groups'])
+
 class OneToManyTraversal(object):
     def __init__(self, dataset, entity_id_vars, parent_id_vars):
         """
@@ -74,7 +77,7 @@ class OneToManyTraversal(object):
         for (entity_var, parent_var) in self._descend():
             if dataset.dims[dataset[entity_var].dims[0]] == 0:
                 # No data, so groupby will fail in xarray > 0.13
-                entity_grouper = None
+                entity_grouper = NoGroups({})
             else:
                 entity_grouper = dataset.groupby(entity_var)
             self.entity_groups[entity_var] = entity_grouper
@@ -83,7 +86,7 @@ class OneToManyTraversal(object):
             else:
                 if dataset.dims[dataset[parent_var].dims[0]] == 0:
                     # No data, so groupby will fail in xarray > 0.13
-                    parent_grouper = None
+                    parent_grouper = NoGroups({})
                 else:
                     parent_grouper = dataset.groupby(parent_var)
             self.parent_groups[parent_var] = parent_grouper
-- 
2.43.0


From 0a9ad24b56fc62484da363cf767805927bd35b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:31 +0000
Subject: [PATCH 02/31] fix: drop groups whose parent flash is missing when
 repairing the tree

---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..9834802 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -213,7 +213,7 @@ class GLMDataset(OneToManyTraversal):
                 log.warning('Fixing inconsistent parent-child IDs '
                             'in file {0}'.format(filename))
                 flashes_with_no_groups = entity_var_stats['flash_id'][2]
-                unq_fl_id = set(list(dataset.group_parent_flash_id.data))
+                unq_fl_id = set(list(dataset.flash_id.data))
                 good_fl_id = list(unq_fl_id - flashes_with_no_groups)
                 ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
                 dataset = ds_fixed
-- 
2.43.0


From b623baa8f51687183673cf8bcf0d6f21c065541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:31 +0000
Subject: [PATCH 03/31] fix: subset_flashes with check_event_xy=False used an
 unset variable

---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 9834802..a73599c 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -528,7 +528,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From 98baad04152e0ece67c5485412bea0ff975b32a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 04/31] fix: ltg_ellps_radii called an undefined function

---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From d9a1b8525a1cae68e24b3a703d33a7c8adc0d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 05/31] fix: infer the lightning ellipsoid from the product
 time

---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index a73599c..5001fb1 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -552,8 +552,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From 69dc886086cb377028e28add8ef14a0847e25bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 06/31] fix: location ids collided at the upper edge of the x
 range

---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 5001fb1..4cd8bea 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -731,5 +731,6 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
-    xy_discr = x_discr + y_discr*discr_x_max
+    # x_discr runs from zero to discr_x_max inclusive
+    xy_discr = x_discr + y_discr*(discr_x_max + np.array(1, dtype=int_type))
     return xy_discr
-- 
2.43.0


From aa58e27d112f9ba6297c10f3f35466dd820f6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 07/31] fix: round instead of truncating when undoing the scale
 factor

---
 glmtools/io/glm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 4cd8bea..d8b7e15 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -61,7 +61,8 @@ def fix_unsigned(data, is_xarray=True):
     dtype = data.encoding['dtype'].str.replace('i', 'u')
     scale_factor = data.encoding['scale_factor']
     add_offset = data.encoding['add_offset']
-    unscale = ((data - add_offset)/scale_factor).data.astype(dtype).astype('float64')
+    unscale = np.round(((data - add_offset)/scale_factor).data).astype('int64')
+    unscale = unscale.astype(dtype).astype('float64')
     fixed = unscale * scale_factor + add_offset
     return fixed
 
@@ -98,8 +99,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
 
     if is_xarray==True:
         # unscale the data
-        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
-        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
+        unscale_lat = np.round(((event_lats - lat_fov[0])/scale_factor).data).astype('int32')
+        unscale_lon = np.round(((event_lons - lon_fov[0])/scale_factor).data).astype('int32')
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-- 
2.43.0


From 4ace37f8575e1e97e5dc7dc62996b86ccf06d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 08/31] fix: do not mask the unsigned value that equals the
 default fill value

---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index d8b7e15..51dfcf6 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -104,8 +104,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-        event_lons.set_auto_scale(False)
-        event_lats.set_auto_scale(False)
+        event_lons.set_auto_maskandscale(False)
+        event_lats.set_auto_maskandscale(False)
         event_lons = event_lons[:].astype('int32')
         event_lats = event_lats[:].astype('int32')
 
-- 
2.43.0


From 3d6dffe31f4aba02fc00395a4b5ae5d725b26651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 09/31] fix: set the coordinates of the merged dataset

---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From 6539501c383cb3022cdffb4b512cdadcfc028968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:29 +0000
Subject: [PATCH 10/31] fix: slicing with an explicit bounding box used an
 unset variable

---
 glmtools/grid/clipping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..cda6758 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -562,9 +562,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
-            recalc_bbox = True
-            # else use the bbox that is specified exactly
+        # if bbox is not True, use the bbox that is specified exactly
+        recalc_bbox = (bbox == True)
 
         poly_arr = [np.asarray(p) for p in polys]
         areas = [np.abs(poly_area(p[:,0], p[:,1])) for p in poly_arr]
-- 
2.43.0


From 90b7bd167c41f308f1476dbc477f03ad8e5a4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:29 +0000
Subject: [PATCH 11/31] fix: quads_nearest lost a dimension when a single quad
 was found

---
 glmtools/grid/clipping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index cda6758..d01c533 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -266,8 +266,9 @@ class QuadMeshSubset(object):
         dists, quad_x_idx, quad_y_idx = self.query_tree(x)
         # quads = [q for q in self.gen_polys(quad_x_idx, quad_y_idx)]
         # Squeeze a leading dimension of 1 on x/y_idx and therefore on quads
-        quads = self.quads[quad_x_idx, quad_y_idx, :, :].squeeze()
-        return quads, quad_x_idx.squeeze(), quad_y_idx.squeeze()
+        quad_x_idx, quad_y_idx = quad_x_idx.flatten(), quad_y_idx.flatten()
+        quads = self.quads[quad_x_idx, quad_y_idx, :, :]
+        return quads, quad_x_idx, quad_y_idx
 
     def _quads_in_bbox_regular(self, bbox, pad=2):
         """ Assume a perfectly regular grid, with uniform spacing in x and y
-- 
2.43.0


From 2d9804ff6c69ddbb044d7bc022834bd457f30867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:29 +0000
Subject: [PATCH 12/31] fix: clip bounding boxes that reach past the mesh
 instead of dropping the limit

---
 glmtools/grid/clipping.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index d01c533..6de9f0d 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -329,13 +329,11 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        # Limits beyond the mesh are clipped to it below.
+        if ((idxx.max() >= 0) & (idxx.min() < self.N_X_ctr) &
+            (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr)):
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From 0289a9cfd4a4558ba2258279e952fff964df7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:29 +0000
Subject: [PATCH 13/31] fix: find mesh quads that are wider or taller than the
 bounding box

---
 glmtools/grid/clipping.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 6de9f0d..3fb1c82 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -375,15 +375,12 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Keep quads whose extent overlaps the bbox, including those that are
+        # larger than it.
+        goodx = ((self.quads[:,:,:,0].max(axis=2) >= xlim[0]) &
+                 (self.quads[:,:,:,0].min(axis=2) <= xlim[1]))
+        goody = ((self.quads[:,:,:,1].max(axis=2) >= ylim[0]) &
+                 (self.quads[:,:,:,1].min(axis=2) <= ylim[1]))
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From 2009404413ac6cd167569110d78c2d993c5adfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:29 +0000
Subject: [PATCH 14/31] fix: mesh cell areas were negative for meshes in the
 other orientation

---
 glmtools/grid/clipping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 3fb1c82..2071972 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -172,8 +172,8 @@ class QuadMeshSubset(object):
         log.info('    ... {0} quads in mesh ...'.format(nq))
         self.quads_flat = self.quads.view()
         self.quads_flat.shape = (nq, 4, 2) # flatten the first two dimensions
-        self.quad_areas = vectorized_poly_area(self.quads_flat[:, :, 0],
-                                               self.quads_flat[:, :, 1])
+        self.quad_areas = np.abs(vectorized_poly_area(self.quads_flat[:, :, 0],
+                                                      self.quads_flat[:, :, 1]))
         # self.quad_areas = np.abs(np.fromiter(
             # (poly_area(q[:,0], q[:,1]) for q in self.quads_flat),
             # dtype='f8', count=nq))
-- 
2.43.0


From 0d964f8053a960585118624a68134b61a39f571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:31 +0000
Subject: [PATCH 15/31] fix: merging split events failed when there were none

---
 glmtools/io/mimic_lma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..0184d52 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -820,6 +820,10 @@ def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
                  ('lutevent_min_flash_area', 'f4'),
                  ]
 
+    if split_events.split_event_mesh_x_idx.shape[0] == 0:
+        # no data, nothing to do
+        return np.empty((0,), dtype=lut_split_event_dtype)
+
     split_events['split_event_mesh_area_fraction'] = np.fabs(
             split_events.split_event_mesh_area_fraction)
 
-- 
2.43.0


From f6c9cd8e7b4fbc1c7201871eeefd8857c008bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:31 +0000
Subject: [PATCH 16/31] fix: slice each event by every mesh cell it covers, not
 just those near its center

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 0184d52..3281120 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,7 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
-- 
2.43.0


From b4729ccd71dbc99c512fc4c5b82d27416261083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:50 +0000
Subject: [PATCH 17/31] fix: the start time of a file was an array, which
 cannot be a lookup key

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 3281120..b35c31a 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1033,7 +1033,7 @@ class GLMncCollection(LMAh5Collection):
         glm = GLMDataset(fname, calculate_parent_child=False)
         # Get the time, using 'seconds' resolution because GLM files are
         # produced on 20 s boundaries (or any number of even seconds)
-        t_start = glm.dataset.product_time.data.astype('M8[s]').astype('O')
+        t_start = glm.dataset.product_time.data.astype('M8[s]').item()
         # In the LMA API, we track the table name in the H5 file that goes
         # with the time. No such thing exists for GLM data.
         self._time_lookup[t_start] = (fname, None)
-- 
2.43.0


From bd8b6d8beb7c2abffd475c067df4d4423bb3c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:50 +0000
Subject: [PATCH 18/31] fix: numpy does not stack generators, and there may be
 nothing to stack

---
 glmtools/io/mimic_lma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index b35c31a..77088ce 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1053,8 +1053,11 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        # Start from empty tables because there might be no flashes at all
+        ev_chunks = [np.empty(0, dtype=event_dtype)]
+        fl_chunks = [np.empty(0, dtype=flash_dtype)]
+        ev_chunks += [d['flash'][0] for d in fake_lma]
+        fl_chunks += [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From b14e7fec4feb14f04807d414b194173d5ee56b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:50 +0000
Subject: [PATCH 19/31] fix: use the base date that was requested for the time
 series

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 77088ce..50af9c4 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1067,7 +1067,7 @@ class TimeSeriesGLMFlashSubset(TimeSeriesGenericFlashSubset):
                     min_events=None, min_groups=None,
                     lon_range=None, lat_range=None):
         super(TimeSeriesGLMFlashSubset, self).__init__(t_start, t_end, dt,
-                                                    base_date=None)
+                                                    base_date=base_date)
         self.lma = GLMncCollection(glm_filenames, base_date=self.base_date,
                                    min_points=min_events, min_groups=min_groups,
                                    lat_range=lat_range, lon_range=lon_range)
-- 
2.43.0


From b3d37bef4e79878b4525dd42d3f00f10dd716da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:33 +0000
Subject: [PATCH 20/31] fix: the gridder without clipping expected a grid its
 pipeline does not make

---
 glmtools/grid/make_grids.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..710fdbe 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -235,8 +235,10 @@ class GLMGridder(FlashGridder):
 
         flash_outgrids, flash_framer = self.flash_pipeline_setup()
         (init_density_grid, extent_density_grid, footprint_grid,
-            min_flash_area_grid, # flashsize_std_grid
-            ) = flash_outgrids
+            # flashsize_std_grid
+            ) = flash_outgrids[:3]
+        # Only the lookup table pipeline also has a minimum flash area grid.
+        min_flash_area_grids = tuple(flash_outgrids[3:])
 
         group_outgrids, group_framer = self.group_pipeline_setup()
         (group_centroid_density_grid, group_extent_density_grid,
@@ -259,8 +261,7 @@ class GLMGridder(FlashGridder):
             group_centroid_density_grid,
             group_footprint_grid,
             # groupsize_std_grid
-            min_flash_area_grid,
-            )
+            ) + min_flash_area_grids
         self.outgrids_3d = None
 
         all_framers = {'flash': flash_framer,
-- 
2.43.0


From 36f9a35cfc14d32136e9dc63b6f41c83342e0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:33 +0000
Subject: [PATCH 21/31] fix: gridding without naming an ellipse revision raised
 KeyError

---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 710fdbe..c284be5 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -863,7 +863,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
     """
 
     subgridij, kwargsij, process_flash_kwargs_ij, out_kwargs_ij, pads = subgrid
-    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev')
+    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev', -1)
 
     # Eventually, we want to trim off n_x/y_pad from each side of the grid
     # n_x_pad, n_y_pad, x_pad, y_pad = pads
-- 
2.43.0


From de634cfd05440a1f7d064926971b7283bd828d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 22/31] fix: only the first tile was written with the output
 options

---
 glmtools/grid/make_grids.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index c284be5..7961f5d 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -601,8 +601,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
@@ -915,8 +915,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
 
     preprocess_out = out_kwargs_ij.pop('preprocess_out', None)
     if preprocess_out: # in out_kwargs_ij:
-        if 'output_kwargs' not in out_kwargs_ij:
-            out_kwargs_ij['output_kwargs'] = {}
+        # The other tiles and the caller share these options, so copy them.
+        out_kwargs_ij['output_kwargs'] = dict(
+            out_kwargs_ij.get('output_kwargs', {}))
         # Used by GLMlutGridder.write_grids, but not the others.
         out_kwargs_ij['output_kwargs']['pad'] = preprocess_out.get_pad_slices()
 
-- 
2.43.0


From 523057c48bde393b73667ca40562102e45be7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 23/31] fix: count grid boxes without losing one to floating
 point

---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 7961f5d..5888942 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -628,7 +628,7 @@ def subdivide_bnd(bnd, delta, s=8):
     """
     w = bnd[1] - bnd[0]
     # Number of elements
-    n = int(w/delta)
+    n = int(np.round(w/delta))
     # Numbr of elements in each segment
     log.debug((n, s))
     dn = int(n/s)
-- 
2.43.0


From 130dd132c3169f73bfe114dfbf3448cd48ae8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 24/31] fix: packing an image changed the array it was given

---
 glmtools/io/imagery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..825866e 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -348,6 +348,7 @@ def glm_image_to_var(data, name, long_name, units, dims, fill=0.0,
             if add_offset is not None:
                 min_allowed += add_offset
             tiny = (data > 0.0) & (data <= min_allowed)
+            data = data.copy()
             data[tiny] = min_allowed
         if add_offset is not None:
             enc['add_offset'] = add_offset
-- 
2.43.0


From 73fd9c2725103a0cbb4cbe597b98d2b57323e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 25/31] fix: writing averages changed the accumulated grids

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 825866e..87a0e7c 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -532,7 +532,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From 37e8528d8cd8d51cc0c920423171c4f8369de8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 26/31] fix: writing images without naming a directory failed

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 87a0e7c..5e071e6 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -523,7 +523,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and os.path.exists(enclosing_dir) == False:
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From d05c4e8908e5d9fca0e6811c7afa5f376c57bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 27/31] fix: aggregating without a start and end raised
 TypeError

---
 glmtools/io/imagery.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 5e071e6..5504dc4 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -602,11 +602,8 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
-        # The lines below might be necessary replacements for a future version
-        # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
-        # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
+        end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
         # dt_np = (end - start).data
         # duration = pd.to_timedelta(dt_np).to_pytimedelta()
     duration = end - start
-- 
2.43.0


From 9d1cfee95944ac1daa897244c1ca3f52ed30f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 28/31] fix: average group area was aggregated from the flash
 area

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 5504dc4..1cec862 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -624,7 +624,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-- 
2.43.0


From 0c3cf161f140e49d8fd0ee7ed789cece1fae4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:17 +0000
Subject: [PATCH 29/31] fix: frames on an interval edge were put in the
 interval that ends there

---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 1cec862..43d0c2d 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -627,8 +627,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From cf91b9067f02567b5169d1140345c70da291bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:44:49 +0000
Subject: [PATCH 30/31] fix: keep the minimum when a later value is not
 positive

---
 glmtools/grid/accumulate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glmtools/grid/accumulate.py b/glmtools/grid/accumulate.py
index 818d668..b8e6a8f 100644
--- a/glmtools/grid/accumulate.py
+++ b/glmtools/grid/accumulate.py
@@ -100,6 +100,8 @@ def accumulate_minvar_on_grid_direct_idx(grid, var_name, x_idx, y_idx, out=None)
             prev_values = grid[yi, xi]
             gridnonzero = (prev_values > 0)
             gridzero = ~gridnonzero # np.isclose(grid, 0)
+            # a value that is not positive never replaces a minimum
+            gridnonzero = gridnonzero & (new_min > 0)
             # where grid is zero, just use the new value, otherwise take the
             # min of both
             grid[yi[gridzero], xi[gridzero]] = new_min[gridzero]
-- 
2.43.0


From bfc876f4560df582ea3bf56cf2cf57b59b5f3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:28:01 +0000
Subject: [PATCH 31/31] fix: keep unsigned group and event ids in LMA records

Flash, group and event ids are unsigned in the files. Ids of 2**31 and more
became negative in the flash_id column of the records.
---
 glmtools/io/mimic_lma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 50af9c4..90191d9 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -589,7 +589,7 @@ def sec_since_basedate(t64, basedate):
 
 
 # These are adapted from the dtypes in the LMA HDF5 data files
-event_dtype=[('flash_id', '<i4'),
+event_dtype=[('flash_id', '<u4'),
              ('alt', '<f4'),
              ('lat', '<f4'), ('lon', '<f4'), ('time', '<f8'),
              ('mesh_frac', '<f8'),
@@ -602,11 +602,11 @@ flash_dtype=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('init_lat', '<f4'), ('init_lon', '<f4'),
              ('init_alt', '<f4'),# ('init_pts', 'S256'),
-             ('flash_id', '<i4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
 flash_dtype_fixedgridlut=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('ctr_x', '<f4'), ('ctr_y', '<f4'), ('ctr_z', '<f4'),
-             ('flash_id', '<i4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
 
 def _fake_lma_from_glm_flashes(flash_data, basedate,
         split_events=None, split_groups=None, split_flashes=None):
-- 
2.43.0

