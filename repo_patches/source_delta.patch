From 900cf227e0a8373186417055854e7d03da730c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 01/73] fix: find neighbours across the antimeridian when a
 non-global mesh is split

get_neighbour_case compared raw longitudes, so a cell starting at 180 was never
seen as touching a cell at -180..; after splitting cells next to the
antimeridian the neighbour graph lost edges.
---
 meshiphi/mesh_generation/neighbour_graph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..09d5a1a 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -231,6 +231,12 @@ class NeighbourGraph:
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
 
+        # Measure both longitudes on the same side of the antimeridian
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_b - long_a < -180:
+            long_b += 360
+
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
             return Direction.north_east
@@ -313,6 +319,12 @@ class NeighbourGraph:
             return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
+
+        # Measure both longitudes on the same side of the antimeridian
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_b - long_a < -180:
+            long_b += 360
         
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-- 
2.43.0


From 2c9e45c1845192793771b3f3c4f2d7876bcd9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 02/73] fix: select tabular data inside, not outside, a
 boundary across the antimeridian

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..826b09b 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6c67881 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From 2fb61e092c5f0f61dc05b097404c35f03c8f47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:27 +0000
Subject: [PATCH 03/73] fix: store value_fill_types as a number, per vector
 component

A fill given as a string crashed np.isnan when a second source shared the name,
and for vector data the fill was stored under the joined name 'u,v' while both
components stayed NaN.
---
 meshiphi/mesh_generation/cellbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..51c2696 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -340,7 +340,7 @@ class CellBox:
                         agg_value = loader.get_value(parent.bounds, data=parent_data_subset)
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[data_name] = float(source.get_value_fill_type())
                     
             # If already and value for {data_name} in cellbox and it's a NaN, overwrite
             if (data_name in agg_dict):
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = float(source.get_value_fill_type())
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From 83f277ee3409d43bdb68123996f5822238105516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:38 +0000
Subject: [PATCH 04/73] fix: COUNT of gridded scalar data ignores NaN when
 skipna is set, as for tabular data

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 826b09b..cdcef3e 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -420,7 +420,8 @@ class ScalarDataLoader(DataLoaderInterface):
             logging.debug(f"\t{len(dps)} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
             # If want the number of datapoints
             if agg_type =='COUNT':
-                return dps.size
+                if skipna:  return np.count_nonzero(~np.isnan(dps))
+                else:       return dps.size
             # If no data
             elif dps.size == 0:
                 return np.nan
-- 
2.43.0


From a0382592d9ed1d1fdad17f60125bf01b8ec76309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:47 +0000
Subject: [PATCH 05/73] fix: find neighbours across the antimeridian of cells
 180 degrees wide

---
 meshiphi/mesh_generation/neighbour_graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 09d5a1a..276f6bd 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -232,9 +232,9 @@ class NeighbourGraph:
         lat_b = bounds_b.get_lat_min()
 
         # Measure both longitudes on the same side of the antimeridian
-        if long_b - long_a > 180:
+        if long_b > long_a + bounds_a.get_width():
             long_b -= 360
-        elif long_b - long_a < -180:
+        elif long_b + bounds_b.get_width() < long_a:
             long_b += 360
 
         if (long_a + bounds_a.get_width()) == long_b and (
@@ -321,9 +321,9 @@ class NeighbourGraph:
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
 
         # Measure both longitudes on the same side of the antimeridian
-        if long_b - long_a > 180:
+        if long_b > long_a + cellbox_a.get_bounds().get_width():
             long_b -= 360
-        elif long_b - long_a < -180:
+        elif long_b + cellbox_b.get_bounds().get_width() < long_a:
             long_b += 360
         
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
-- 
2.43.0


From b689aeb8fbd63a066c171c51b0885fd9bc838b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:00 +0000
Subject: [PATCH 06/73] fix: split a boundary that lies across the antimeridian

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..5d24641 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -414,7 +414,7 @@ class Boundary:
                 original boundary.
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
-        long_mid = self.get_long_min() + (self.get_width() / 2)
+        long_mid = self.getcx()
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From e986890bb0d6d789dfb6fcd798b270b1b51b052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:18 +0000
Subject: [PATCH 07/73] fix: split_points no longer raises when the point falls
 on an edge between the new cellboxes

---
 meshiphi/mesh_generation/environment_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..2a08cdb 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -190,9 +190,9 @@ class EnvironmentMesh:
         """
         for point in points:
             splitting_waypoint = True
-            if self.query_inside_mesh(point):
-                while splitting_waypoint:
-                    splitting_waypoint = self._split_loc(point)
+            # A point that comes to lie on an edge between cellboxes is not inside any of them
+            while splitting_waypoint and self.query_inside_mesh(point):
+                splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
         """
-- 
2.43.0


From 2902cc44f2ebeff83a917cb6cb55ee0ac93492bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:52 +0000
Subject: [PATCH 08/73] fix: a point on the antimeridian is inside a cellbox
 that goes over it

---
 meshiphi/mesh_generation/aggregated_cellbox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/aggregated_cellbox.py b/meshiphi/mesh_generation/aggregated_cellbox.py
index 23377d4..c51d40a 100644
--- a/meshiphi/mesh_generation/aggregated_cellbox.py
+++ b/meshiphi/mesh_generation/aggregated_cellbox.py
@@ -166,6 +166,9 @@ class AggregatedCellBox:
                     parameters (lat, long)
         """
         shapely_boundary = self.boundary.to_polygon()
+        # The antimeridian itself is inside a boundary that goes over it
+        if shapely_boundary.geom_type == 'MultiPolygon' and abs(long) == 180:
+            return self.boundary.get_lat_min() < lat < self.boundary.get_lat_max()
         point = Point(long, lat)
         return shapely_boundary.contains(point)
     
-- 
2.43.0


From 8b3895a49e5104442435c0277819a96026bf19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:58 +0000
Subject: [PATCH 09/73] fix: merge_mesh leaves the mesh it is given unmodified,
 as documented

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 2a08cdb..d289d59 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # Ids and neighbours are updated below, on a copy as the given mesh is not to be modified
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From a2ff7892ded293b3a78a23416e5171237918a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 10/73] fix: merge meshes that touch or cross the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 50 ++++++++++++++++----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index d289d59..91c1520 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -295,6 +295,9 @@ class EnvironmentMesh:
             return False
 
         long_diff = l_bounds.get_long_min() - s_bounds.get_long_min()
+        # If this mesh goes over the antimeridian, mesh2 may start on the other side of it
+        if long_diff > 0 and l_bounds.get_long_max() <= l_bounds.get_long_min():
+            long_diff -= 360
         if long_diff % l_cell_width != 0:
             return False 
 
@@ -575,6 +578,30 @@ class EnvironmentMesh:
                         self.neighbour_graph.get_graph()[cellbox_s.get_id()]["-3"].append(neighbour)
 
 
+    @staticmethod
+    def _long_ranges(cb_bounds, bounds):
+        """
+            returns the longitude ranges of a cellbox and of the given bounds measured on the same side of
+            the antimeridian, i.e. shifted by 360 degrees where needed to be comparable
+
+            Args:
+                cb_bounds (Boundary): the bounds of a cellbox
+                bounds (Boundary): the bounds to compare it with
+            Returns:
+                (float, float, float, float): min and max longitude of the cellbox, min and max longitude of the bounds
+        """
+        cb_min, cb_max = cb_bounds.get_long_min(), cb_bounds.get_long_max()
+        b_min, b_max = bounds.get_long_min(), bounds.get_long_max()
+        if cb_max <= cb_min:
+            cb_max += 360
+        if b_max <= b_min:
+            b_max += 360
+        if cb_min > b_max:
+            cb_min, cb_max = cb_min - 360, cb_max - 360
+        elif cb_max < b_min:
+            cb_min, cb_max = cb_min + 360, cb_max + 360
+        return cb_min, cb_max, b_min, b_max
+
     def get_cellboxes_within_bounds(self, bounds):
         """
             returns the cellboxes within the given bounds. 
@@ -589,9 +616,10 @@ class EnvironmentMesh:
         
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
+            cb_min, cb_max, b_min, b_max = self._long_ranges(cb_bounds, bounds)
 
-            if (cb_bounds.get_long_min() >= bounds.get_long_min() and 
-                cb_bounds.get_long_max() <= bounds.get_long_max() and 
+            if (cb_min >= b_min and 
+                cb_max <= b_max and 
                 cb_bounds.get_lat_min() >= bounds.get_lat_min() and 
                 cb_bounds.get_lat_max() <= bounds.get_lat_max()):
             
@@ -615,9 +643,10 @@ class EnvironmentMesh:
         north_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
+            cb_min, cb_max, b_min, b_max = self._long_ranges(cellbox.get_bounds(), bounds)
             if (cellbox.get_bounds().get_lat_min() == bounds.get_lat_max() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                cb_max >= b_min and
+                cb_min <= b_max):
             
                 north_cellboxes.append(cellbox)
             
@@ -628,9 +657,10 @@ class EnvironmentMesh:
         south_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
+            cb_min, cb_max, b_min, b_max = self._long_ranges(cellbox.get_bounds(), bounds)
             if (cellbox.get_bounds().get_lat_max() == bounds.get_lat_min() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                cb_max >= b_min and
+                cb_min <= b_max):
             
                 south_cellboxes.append(cellbox)
             
@@ -641,7 +671,9 @@ class EnvironmentMesh:
         east_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_long_min() == bounds.get_long_max() and
+            cb_min, cb_max, b_min, b_max = self._long_ranges(cellbox.get_bounds(), bounds)
+            # Bounds all around the globe have nothing to the east of them
+            if (b_max - b_min < 360 and b_max in (cb_min, cb_min + 360) and
                 cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                 cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
             
@@ -654,7 +686,9 @@ class EnvironmentMesh:
             west_cellboxes = []
     
             for cellbox in self.agg_cellboxes:
-                if (cellbox.get_bounds().get_long_max() == bounds.get_long_min() and
+                cb_min, cb_max, b_min, b_max = self._long_ranges(cellbox.get_bounds(), bounds)
+                # Bounds all around the globe have nothing to the west of them
+                if (b_max - b_min < 360 and b_min in (cb_max, cb_max - 360) and
                     cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                     cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
                 
-- 
2.43.0


From ec15577612d9999d545e8a978ad4a5a74990ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:55 +0000
Subject: [PATCH 11/73] fix: add_mag_dir accepts data_names

---
 meshiphi/dataloaders/vector/abstract_vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6c67881..b9a7c16 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -221,13 +221,13 @@ class VectorDataLoader(DataLoaderInterface):
         
         # Set defaults if not passed to method
         if data is None:        data = self.data
-        if data_names is None:  names = self.data_name_list
+        if data_names is None:  data_names = self.data_name_list
         
         # Perform operation on appropriate datatype
         if type(data) == pd.core.frame.DataFrame:
-            return add_mag_dir_to_df(data, names)
+            return add_mag_dir_to_df(data, data_names)
         elif type(data) == xr.core.dataset.Dataset:
-            return add_mag_dir_to_xr(data, names)
+            return add_mag_dir_to_xr(data, data_names)
 
     def calculate_coverage(self, bounds, data=None):
         """
-- 
2.43.0


From 033a597e01c54e252a88d5d31ba5356a3b6664c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:55 +0000
Subject: [PATCH 12/73] fix: set_data_col_name_list renames the data columns
 instead of failing

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index b9a7c16..e1137cf 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -918,12 +918,11 @@ class VectorDataLoader(DataLoaderInterface):
         assert len(new_names) == 2, f"'new_names' must have a length of 2! Instead it has length {len(new_names)}"
         str_items = [isinstance(name, str) for name in new_names]
         assert all(str_items), f"'new_names' must be list of 'str'. Currently {sum(str_items)} / 2 are strings!"
-        new_data_name = ','.join(new_names)
         
         # Set names
         logging.info(f'\tSetting data names to {new_names}')
         self.data_name_list = new_names
-        return self.set_data_col_name(new_data_name)
+        return self.set_data_col_name(new_names)
 
     def calc_curl(self, bounds, data=None, collapse=True, agg_type='MAX'):
         '''
-- 
2.43.0


From b499b10e77dd0223101b3908f501d653cbfb739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:55 +0000
Subject: [PATCH 13/73] fix: curl of gridded vectors takes derivatives along
 the right axes

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index e1137cf..382ded6 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1063,7 +1063,8 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            # with longitude as the first axis, as for pd.DataFrame
+            data_arrays = [data[name].transpose('long', 'lat').values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
             return np.dstack(data_arrays)
-- 
2.43.0


From 73e7e8ac41e63986572f33377a30ec5852c19ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:55 +0000
Subject: [PATCH 14/73] fix: dmag of gridded vectors no longer raises

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 382ded6..1aeef73 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1010,7 +1010,8 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
             
         data_names = self.data_name_list
-        each_vector = dps[data_names].to_numpy()
+        each_vector = np.stack([np.ravel(dps[name]) for name in data_names],
+                               axis=-1)
         ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
         
         delta_vector = each_vector - ave_vector
-- 
2.43.0


From ecd6abd022c1fdeecb61832ee894343cb7be6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:56 +0000
Subject: [PATCH 15/73] fix: MIN and MAX of vectors read from several CSV files

---
 meshiphi/dataloaders/scalar/scalar_csv.py | 2 +-
 meshiphi/dataloaders/vector/vector_csv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/scalar_csv.py b/meshiphi/dataloaders/scalar/scalar_csv.py
index 743d389..56a3050 100644
--- a/meshiphi/dataloaders/scalar/scalar_csv.py
+++ b/meshiphi/dataloaders/scalar/scalar_csv.py
@@ -21,7 +21,7 @@ class ScalarCSVDataLoader(ScalarDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
diff --git a/meshiphi/dataloaders/vector/vector_csv.py b/meshiphi/dataloaders/vector/vector_csv.py
index fe53b5e..976989a 100644
--- a/meshiphi/dataloaders/vector/vector_csv.py
+++ b/meshiphi/dataloaders/vector/vector_csv.py
@@ -21,7 +21,7 @@ class VectorCSVDataLoader(VectorDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From d91851cf201f082f6ce167cfb3781cb889ecee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:56 +0000
Subject: [PATCH 16/73] fix: get_value accepts the aggregation type in lower
 case, as documented

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 1 +
 meshiphi/dataloaders/vector/abstract_vector.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index cdcef3e..c5e4ce9 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -454,6 +454,7 @@ class ScalarDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
             
         # Limit data series to just the data, excluding coords/index
         dps = self.trim_datapoints(bounds, data=data)[self.data_name]
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 1aeef73..0daaf1f 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -509,6 +509,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
             
         # Limit data to boundary
         if data is None:
-- 
2.43.0


From 0ce05a3ecca148571f40f76be0d95712b734c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:27 +0000
Subject: [PATCH 17/73] fix: COUNT of vector data counts what is there, as for
 scalar data

---
 .../dataloaders/vector/abstract_vector.py     | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 0daaf1f..7eeac35 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -414,12 +414,17 @@ class VectorDataLoader(DataLoaderInterface):
             '''
             data_count = len(dps)
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
+            # If want the number of datapoints
+            if agg_type =='COUNT':
+                # If skipping nan's, count non-nan values
+                if skipna:
+                    values = [int(dps[name].count()) for name in variable_names]
+                # Otherwise just want size
+                else:
+                    values = [data_count for _ in variable_names]
             # If no data
-            if data_count == 0:
+            elif data_count == 0:
                 values = [np.nan, np.nan]
-            # If want the number of datapoints
-            elif agg_type =='COUNT':
-                values = [data_count, data_count]
             elif agg_type == 'MIN':
                 index = dps['_magnitude'].idxmin(skipna=skipna)
                 if ~np.isnan(index):
@@ -466,19 +471,19 @@ class VectorDataLoader(DataLoaderInterface):
             # Info on size of array
             data_count = dps._magnitude.size 
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
+            # If want count
+            if agg_type == 'COUNT':
+                # If skipping nan's, count non-nan values
+                if skipna:  
+                    values = [dps[name].count().item() for name in variable_names]
+                # Otherwise just want size
+                else:       
+                    values = [data_count for _ in variable_names]
             # If no data, return np.nan for each variable
-            if data_count == 0:
+            elif data_count == 0:
                 values = [np.nan for _ in variable_names]
             elif np.isnan(dps._magnitude).all():
                 values = [np.nan for _ in variable_names]
-            # If want count
-            elif agg_type == 'COUNT':
-                # If including nan's, just want size
-                if skipna:  
-                    values = [data_count for _ in variable_names]
-                # Otherwise count non-nan values
-                else:       
-                    values = [dps[name].count().item() for name in variable_names]
             elif agg_type == 'MIN':
                 # Get 2D index of minimum magnitude point
                 index = np.unravel_index(
-- 
2.43.0


From 08377475916e3b60c853c5ad3a7162f786d69477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:27 +0000
Subject: [PATCH 18/73] fix: dmag is the distance from the mean vector whatever
 the aggregation

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 7eeac35..b0dbebc 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1018,7 +1018,7 @@ class VectorDataLoader(DataLoaderInterface):
         data_names = self.data_name_list
         each_vector = np.stack([np.ravel(dps[name]) for name in data_names],
                                axis=-1)
-        ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
+        ave_vector = list(self.get_value(bounds, agg_type='MEAN', data=data).values())
         
         delta_vector = each_vector - ave_vector
         
-- 
2.43.0


From e8327c9caf120f865328bcc971104e5e1b29963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:27 +0000
Subject: [PATCH 19/73] fix: a later vector source fills only what an earlier
 one left missing, as for scalars

---
 meshiphi/mesh_generation/cellbox.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index 51c2696..6b0becc 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -342,13 +342,13 @@ class CellBox:
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
                     agg_value[data_name] = float(source.get_value_fill_type())
                     
-            # If already and value for {data_name} in cellbox and it's a NaN, overwrite
-            if (data_name in agg_dict):
-                if np.isnan(agg_dict[data_name]):
-                    logging.warning(f'\t{data_name} already exists in cellbox! Overwriting only NaN values')
-                    agg_dict.update(agg_value)
-            else:
-                agg_dict.update(agg_value)
+            # If already and value for {name} in cellbox and it's a NaN, overwrite
+            for name, value in agg_value.items():
+                if name not in agg_dict:
+                    agg_dict[name] = value
+                elif np.isnan(agg_dict[name]):
+                    logging.warning(f'\t{name} already exists in cellbox! Overwriting only NaN values')
+                    agg_dict[name] = value
                 
         agg_cellbox = AggregatedCellBox(self.bounds, agg_dict, self.get_id())
         # free the memory space used by the cellbox
-- 
2.43.0


From f7df0bc3f2d332eda0f0cb7a3b8544e7591c53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:27 +0000
Subject: [PATCH 20/73] fix: add_dataloader returns the builder, as documented

---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..1549511 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -314,7 +314,7 @@ class MeshBuilder:
                     cellbox.get_data_source() + [meta_data_obj]
                 )
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
-- 
2.43.0


From 7c79748a36518512dacd783b8a8119df8164dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:50 +0000
Subject: [PATCH 21/73] fix: curl of gridded vectors that have a time axis

---
 meshiphi/dataloaders/vector/abstract_vector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index b0dbebc..ff73223 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -959,9 +959,9 @@ class VectorDataLoader(DataLoaderInterface):
         # Create a meshgrid of vectors from the data
         vector_field = self._create_vector_meshgrid(dps, self.data_name_list)
         # Get component values for each vector
-        fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
+        fx, fy = vector_field[..., 0], vector_field[..., 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape or 1 in fy.shape:
+        if 1 in fx.shape[:2] or 1 in fy.shape[:2]:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
@@ -1071,10 +1071,10 @@ class VectorDataLoader(DataLoaderInterface):
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
             # with longitude as the first axis, as for pd.DataFrame
-            data_arrays = [data[name].transpose('long', 'lat').values 
+            data_arrays = [data[name].transpose('long', 'lat', ...).values 
                                 for name in data_name_list]
-            # Zip them together to make 2D array of n-dimensional vectors
-            return np.dstack(data_arrays)
+            # Zip them together to make array of n-dimensional vectors
+            return np.stack(data_arrays, axis=-1)
         
         if type(data) == pd.core.frame.DataFrame:
             return meshgrid_from_df(data, data_name_list)
-- 
2.43.0


From 14215f5ca059e91584abfeaa9f4ae7ad1a2f1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:40 +0000
Subject: [PATCH 22/73] fix: curl across the antimeridian takes longitudes from
 west to east

---
 meshiphi/dataloaders/vector/abstract_vector.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index ff73223..edf98b3 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -956,6 +956,13 @@ class VectorDataLoader(DataLoaderInterface):
         '''
         if data is None:    dps = self.trim_datapoints(bounds, data=data)
         else:               dps = data
+        # If going over antimeridian, put longitudes in order from west to east
+        if bounds.get_long_min() > bounds.get_long_max():
+            long = (dps['long'] - bounds.get_long_min()) % 360
+            if type(dps) == pd.core.frame.DataFrame:
+                dps = dps.assign(long=long)
+            elif type(dps) == xr.core.dataset.Dataset:
+                dps = dps.assign_coords(long=long).sortby('long')
         # Create a meshgrid of vectors from the data
         vector_field = self._create_vector_meshgrid(dps, self.data_name_list)
         # Get component values for each vector
-- 
2.43.0


From 20fa8cffed1fca7e282006e30f53df2258e37cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:15 +0000
Subject: [PATCH 23/73] fix: a mesh with the MIN or MAX of whole-number vectors
 can be saved as JSON

---
 meshiphi/dataloaders/vector/abstract_vector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index edf98b3..621ecc9 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -418,7 +418,7 @@ class VectorDataLoader(DataLoaderInterface):
             if agg_type =='COUNT':
                 # If skipping nan's, count non-nan values
                 if skipna:
-                    values = [int(dps[name].count()) for name in variable_names]
+                    values = [dps[name].count() for name in variable_names]
                 # Otherwise just want size
                 else:
                     values = [data_count for _ in variable_names]
@@ -527,8 +527,9 @@ class VectorDataLoader(DataLoaderInterface):
         elif type(self.data) == xr.core.dataset.Dataset:
             values = get_value_from_xr(dps, self.data_name_list, bounds, agg_type, skipna)
             
-        # Put in dict to map variable to values
-        return {self.data_name_list[i]: values[i] for i in range(len(self.data_name_list))}
+        # Put in dict to map variable to values, cast to regular float so can
+        # be saved in JSON later
+        return {self.data_name_list[i]: float(values[i]) for i in range(len(self.data_name_list))}
 
     def get_hom_condition(self, bounds, splitting_conds, agg_type='MEAN', data=None):
         '''
-- 
2.43.0


From 2f51b910010856b0fa4c9395e3c10b2665ae2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:39 +0000
Subject: [PATCH 24/73] fix: curl of a cellbox without vectors is NaN instead
 of an error

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 621ecc9..62d6bef 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -969,7 +969,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Get component values for each vector
         fx, fy = vector_field[..., 0], vector_field[..., 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape[:2] or 1 in fy.shape[:2]:
+        if min(fx.shape[:2]) < 2:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
-- 
2.43.0


From 55fa535e98cf365c60adf146be2e74851500ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:58 +0000
Subject: [PATCH 25/73] fix: Boundary does not modify the time range it is
 given, and rejects a single date

---
 meshiphi/mesh_generation/boundary.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 5d24641..09dcbf2 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -112,9 +112,8 @@ class Boundary:
         """
         if time_range is None:
             time_range=[]
-        elif time_range != []: 
-             time_range[0] = self.parse_datetime(time_range[0])
-             time_range[1] = self.parse_datetime(time_range[1])
+        else:
+            time_range = [self.parse_datetime(time) for time in time_range]
 
         self.validate_bounds(lat_range , long_range , time_range)
         # Boundary information 
-- 
2.43.0


From 0f09559f720a189721684c4cbed8cd42a8b81044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:58 +0000
Subject: [PATCH 26/73] fix: Boundary rejects every longitude outside -180:180

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 09dcbf2..19c2f75 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -191,7 +191,7 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if min(long_range) < -180 or max(long_range) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From 887e3d36b30c0c9ff17431ac5a2cf8d6f27226cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:58 +0000
Subject: [PATCH 27/73] fix: reject cell widths that do not divide a global
 region

---
 meshiphi/config_validation/config_validator.py | 6 +++++-
 meshiphi/mesh_generation/mesh_builder.py       | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 65e4217..4199321 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,7 +94,11 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
-        assert(((bound_max - bound_min)%360/cell_size)%1 == 0), \
+        extent = bound_max - bound_min
+        # Account for going over the antimeridian, but keep full circle
+        if extent != 360:
+            extent = extent % 360
+        assert((extent/cell_size)%1 == 0), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 1549511..d327212 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -317,7 +317,7 @@ class MeshBuilder:
         return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        assert bounds.get_width() % cell_width == 0, \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-- 
2.43.0


From 5603ca02fc645a3662c4823b4bba78e433f730ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:58 +0000
Subject: [PATCH 28/73] fix: validate_mesh_config accepts the path of a
 configuration, as documented

---
 meshiphi/config_validation/config_validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 4199321..3f1389f 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -109,16 +109,16 @@ def validate_mesh_config(config):
     jsonschema.validate(instance=config_json, schema=mesh_schema)
     
     # Check that the dates in the region are valid
-    assert_valid_time(config['region']['start_time'])
-    assert_valid_time(config['region']['end_time'])
+    assert_valid_time(config_json['region']['start_time'])
+    assert_valid_time(config_json['region']['end_time'])
     
     # Check that cellbox width and height evenly divide boundary
-    assert_valid_cellsize(config['region']['lat_min'],
-                          config['region']['lat_max'],
-                          config['region']['cell_height'])
-    assert_valid_cellsize(config['region']['long_min'],
-                          config['region']['long_max'],
-                          config['region']['cell_width'])
+    assert_valid_cellsize(config_json['region']['lat_min'],
+                          config_json['region']['lat_max'],
+                          config_json['region']['cell_height'])
+    assert_valid_cellsize(config_json['region']['long_min'],
+                          config_json['region']['long_max'],
+                          config_json['region']['cell_width'])
     
 def validate_vessel_config(config):
     """
-- 
2.43.0


From a049e0ec3a8960731dc896e112b7b2c4400b860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:57 +0000
Subject: [PATCH 29/73] fix: update_cellbox raises ValueError for an invalid
 index, as intended

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 91c1520..e8d69db 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1499,7 +1499,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From 88f5745c97e8049b00ab42c36af875d8b41b6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:18 +0000
Subject: [PATCH 30/73] fix: export tif images that are not square, or of a
 region across the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index e8d69db..f52a6a5 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -14,6 +14,7 @@ from shapely import wkt
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
 from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
+from meshiphi.utils import longitude_domain
 
 
 from meshiphi.mesh_validation.sampler import Sampler
@@ -1269,15 +1270,16 @@ class EnvironmentMesh:
 
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            mesh_width = self.bounds.get_width()
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
-                    pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
-                    pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
+            for line in range(nlines):
+                for col in range(ncols):
+                    # centeralize the pixel lat and long values
+                    pixel_lat = self.bounds.get_lat_max() - (line + 0.5)*pixel_height
+                    pixel_long = longitude_domain(self.bounds.get_long_min() + (col + 0.5)*pixel_width)
                     samples = np.append(samples, pixel_lat)
                     samples = np.append(samples, pixel_long)
             # shape the samples in 2d array (each entry in the array holds sample lat and long
@@ -1429,8 +1431,8 @@ class EnvironmentMesh:
         ncols = params["sampling_resolution"][1]
 
         # define image extent based on mesh bounds
-        extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(),
+                  self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From e8ff55352cd9c7cc92ef024c6b1af2e42ebbbde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:35 +0000
Subject: [PATCH 31/73] fix: magnitude and direction of gridded vectors follow
 the axes of the components

Dataset.dims need not list the dimensions in the order of the variables.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 62d6bef..96d70c5 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -212,10 +212,10 @@ class VectorDataLoader(DataLoaderInterface):
                 Same as parent method
             '''
             x, y = names
-            data['_magnitude'] = (data.dims, 
+            data['_magnitude'] = (data[x].dims, 
                                   np.linalg.norm([data[x].data, data[y].data], 
                                                  axis=0))
-            data['_direction'] = (data.dims, 
+            data['_direction'] = (data[x].dims, 
                                   np.arctan2(data[y].data, data[x].data))
             return data
         
-- 
2.43.0


From 2ce0184361a8195a2facf5794dac5e48445196fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:17 +0000
Subject: [PATCH 32/73] fix: MODIS loader failed on an attribute that is never
 set, and kept the cloud mask as data

---
 meshiphi/dataloaders/scalar/modis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..c0d1a51 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,15 +18,17 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening file(s) {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         # Change column name
         data = data.rename({'iceArea': 'SIC'})
 
         # Set areas obscured by cloud to NaN values
         data = data.where(data.cloud != 1, drop=True)
+        # Limit to just SIC data
+        data = data['SIC'].to_dataset()
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 65e08d42132fe5bd7cddba60427c578d2a85ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:22 +0000
Subject: [PATCH 33/73] fix: MIN and MAX of currents read from several NetCDF
 files

Load them into memory like the other vector loaders: the aggregation does not work on lazy arrays.
---
 meshiphi/dataloaders/vector/baltic_current.py    | 2 +-
 meshiphi/dataloaders/vector/north_sea_current.py | 2 +-
 meshiphi/dataloaders/vector/oras5_current.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/vector/baltic_current.py b/meshiphi/dataloaders/vector/baltic_current.py
index a6953dd..7d904cf 100644
--- a/meshiphi/dataloaders/vector/baltic_current.py
+++ b/meshiphi/dataloaders/vector/baltic_current.py
@@ -22,7 +22,7 @@ class BalticCurrentDataLoader(VectorDataLoader):
         """
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
 
         # Reduce and drop unused depth dimension
         data = data.isel(depth=0)
diff --git a/meshiphi/dataloaders/vector/north_sea_current.py b/meshiphi/dataloaders/vector/north_sea_current.py
index 5396f28..c5030d6 100644
--- a/meshiphi/dataloaders/vector/north_sea_current.py
+++ b/meshiphi/dataloaders/vector/north_sea_current.py
@@ -21,7 +21,7 @@ class NorthSeaCurrentDataLoader(VectorDataLoader):
         '''
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         # Change column names
         data = data.rename({'lon': 'long',
                             'times': 'time',
diff --git a/meshiphi/dataloaders/vector/oras5_current.py b/meshiphi/dataloaders/vector/oras5_current.py
index 69a7ff1..bf702f1 100644
--- a/meshiphi/dataloaders/vector/oras5_current.py
+++ b/meshiphi/dataloaders/vector/oras5_current.py
@@ -23,7 +23,7 @@ class ORAS5CurrentDataLoader(VectorDataLoader):
         '''
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         
         # Change column names
         data = data.rename({'nav_lon': 'long',
-- 
2.43.0


From 8a4531d27e0f3e322edc218d36b769e01de5ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:43 +0000
Subject: [PATCH 34/73] fix: IceNet forecasts include the last day asked for,
 and their path may contain dots

A range of a single day selected no data at all.
---
 meshiphi/dataloaders/scalar/icenet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 596f639..6df0e31 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -3,6 +3,7 @@ from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
 import logging
 
 from datetime import datetime, timedelta
+from os.path import basename
 
 import xarray as xr
 from pandas import to_timedelta
@@ -30,7 +31,7 @@ class IceNetDataLoader(ScalarDataLoader):
             Assumes file names are in the format 
             <hemisphere>_daily_forecast.<YYYY-MM-DD>.nc
             '''
-            return datetime.strptime(filename.split('.')[1], '%Y-%m-%d')
+            return datetime.strptime(basename(filename).split('.')[1], '%Y-%m-%d')
         
         # Convert temporal boundary to datetime objects for comparison
         max_time = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
@@ -86,7 +87,7 @@ class IceNetDataLoader(ScalarDataLoader):
         #logging.info(f"- Found date {datetime.strftime('%Y-%m-%d')}")
 
         # Choose predictions from earliest date before start_date
-        ds = ds.sel(leadtime=range(days_ago, time_range.days + days_ago))
+        ds = ds.sel(leadtime=range(days_ago, time_range.days + days_ago + 1))
         # Set to pd.DataFrame so can limit by lat/long
         df = ds.to_dataframe().reset_index()
         # Set time column to be dates of predictions
-- 
2.43.0


From c081db0f053ee9409d01f12f307c05bdc4f00f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:02 +0000
Subject: [PATCH 35/73] fix: ECMWF forecasts are put in order of time

File names sort the lead times backwards and as text, so that selecting a range of dates failed or was empty.
---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..4e55c2a 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -83,6 +83,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
         data = xr.concat(data_array,'time')
+        # Files are not in order of time, put data in order so that sel() will work
+        data = data.sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From 4e5cf9312011fac67071266aeb3840412325b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:07 +0000
Subject: [PATCH 36/73] fix: geojson export of a layer without values in any
 cell

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f52a6a5..109051c 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1219,7 +1219,7 @@ class EnvironmentMesh:
                 mesh_df = mesh_df.drop(column, axis=1)
             # convert lists to mean
             elif mesh_df[column].dtype == list:
-                mesh_df[column] = [np.mean(x) for x in mesh_df[column]]
+                mesh_df[column] = [np.mean(x) if isinstance(x, list) else x for x in mesh_df[column]]
             # convert bools to ints
             elif mesh_df[column].dtype == bool:
                 mesh_df[column] = mesh_df[column].astype(int)
-- 
2.43.0


From c8a93dacb56ba6cf53d83f82094bf20774037589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:36 +0000
Subject: [PATCH 37/73] fix: LUT means are weighted by the area of each
 polygon, as intended

---
 meshiphi/dataloaders/lut/abstract_lut.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..e99a80e 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -273,10 +273,15 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
-            if agg_type == 'MEAN':
+            weights = [self.calculate_coverage(bounds, polygons['geometry'].iloc[[i]])
+                       for i in range(len(polygons))]
+            polygons = polygons.assign(weights=weights)
+            # Polygons that only touch the bounds carry no weight
+            polygons = polygons[polygons['weights'] > 0]
+            if len(polygons) == 0:
+                ret_val = np.nan
+
+            elif agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
-- 
2.43.0


From 4366c45f6e585ab53c16e724de6c535c5181d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:36 +0000
Subject: [PATCH 38/73] fix: LUT MEDIAN gives the median value, not a row of
 the table

---
 meshiphi/dataloaders/lut/abstract_lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index e99a80e..994f972 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -287,6 +287,7 @@ class LutDataLoader(DataLoaderInterface):
             
             elif agg_type == 'MEDIAN':
                 # Chunk by cumulative weight
+                polygons = polygons.sort_values(self.data_name)
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
                 # Find middle of cumulative weight
@@ -294,7 +295,7 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                ret_val = top_half[self.data_name].iloc[0]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From 9166ba080aa115841b6b38fc83e3bb1f3f545bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:36 +0000
Subject: [PATCH 39/73] fix: LUT data can be renamed with data_name

---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 meshiphi/dataloaders/lut/lut_csv.py      | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 994f972..cc2942e 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -404,7 +404,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index abef752..0bb442e 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -36,8 +36,6 @@ class LutCSV(LutDataLoader):
         assert (len(csv_df.columns) == 2), \
                 "Dataloader only accepts .csv with 2 columns, 'geometry' and {{data_name}}"
         
-        # Set data name to column in CSV
-        self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
         # Convert strings to shapely geometries
         csv_df['geometry'] = csv_df['geometry'].apply(wkt.loads)
         # Create boundary denoting the world 
-- 
2.43.0


From 18a673b0d4b941e0b616a96ea9c581f3dc7abfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:36 +0000
Subject: [PATCH 40/73] fix: LUT from GeoJSON or shapefile has its default data
 name

---
 meshiphi/dataloaders/lut/lut_geojson.py   | 5 ++---
 meshiphi/dataloaders/lut/lut_shapefile.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_geojson.py b/meshiphi/dataloaders/lut/lut_geojson.py
index 548fe81..5fd4472 100644
--- a/meshiphi/dataloaders/lut/lut_geojson.py
+++ b/meshiphi/dataloaders/lut/lut_geojson.py
@@ -24,12 +24,11 @@ class LutGeoJSON(LutDataLoader):
                 Dictionary of attributes the dataloader will require, 
                 completed with default values if not provided in config.
         '''
-        # Add default scalar params
-        params = super().add_default_params(params)
-        
         # Name of data being read in from GeoJSONs
         if 'data_name' not in params:
             params['data_name'] = 'dummy_data'
+        # Add default LUT params
+        params = super().add_default_params(params)
             
         return params
     
diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..858465e 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -24,12 +24,11 @@ class LutShapefile(LutDataLoader):
                 Dictionary of attributes the dataloader will require, 
                 completed with default values if not provided in config.
         '''
-        # Add default scalar params
-        params = super().add_default_params(params)
-        
         # Name of data being read in from GeoJSONs
         if 'data_name' not in params:
             params['data_name'] = 'dummy_data'
+        # Add default LUT params
+        params = super().add_default_params(params)
             
         return params
     
-- 
2.43.0


From c3eb65c8b7bb9319bd4608064c592c0cdd782de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:53 +0000
Subject: [PATCH 41/73] fix: sea ice thickness of each day is that of its own
 season only

---
 meshiphi/dataloaders/lut/thickness.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index a609656..ccf20fc 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -111,12 +111,10 @@ class ThicknessDataLoader(LutDataLoader):
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-                region_df = pd.concat([
-                        pd.DataFrame({'time': dates,
-                                      'geometry': region.geometry & bounds_polygon,
-                                      'thickness': region.get_value(month)})
-                        for month in dates.month
-                    ])
+                region_df = pd.DataFrame({'time': dates,
+                                          'geometry': intersection,
+                                          'thickness': [region.get_value(month) 
+                                                        for month in dates.month]})
                 
                 thickness_df = pd.concat([thickness_df, region_df])
                 
-- 
2.43.0


From abb8cd89d461fa85eb6acb36da147a552a7a457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:53 +0000
Subject: [PATCH 42/73] fix: LUT rows of the same date are each taken once

---
 meshiphi/dataloaders/lut/abstract_lut.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index cc2942e..2cc3483 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -148,14 +148,14 @@ class LutDataLoader(DataLoaderInterface):
         # List of rows to include in cleaned dataframe
         new_data = []
         # For each entry
-        for index, row in data.iterrows():
+        for index, (_, row) in enumerate(data.iterrows()):
             # Add row if Polygon
             if row.geometry.geom_type == 'Polygon':
-                new_data.append(data.loc[[index]])
+                new_data.append(data.iloc[[index]])
             # Split out multipolygons to single polygons, and add rows
             elif row.geometry.geom_type == 'MultiPolygon':
                 polygons = list(row.geometry.geoms)
-                new_df = pd.concat([data.loc[[index]]]*len(polygons))
+                new_df = pd.concat([data.iloc[[index]]]*len(polygons))
                 new_df['geometry'] = polygons
                 new_data.append(new_df)
             # Otherwise, geometry not usable
-- 
2.43.0


From a64cff0db399f60f1df3e941f2b47ea6d9827529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:53 +0000
Subject: [PATCH 43/73] fix: LUT aggregation types may be lower case, and
 split_lock is optional

---
 meshiphi/dataloaders/lut/abstract_lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 2cc3483..06764f0 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -256,6 +256,7 @@ class LutDataLoader(DataLoaderInterface):
         
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         # If want the number of datapoints
         if agg_type =='COUNT':
             ret_val = len(polygons)
@@ -343,7 +344,7 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock', False) == True: 
                 hom_type = "HOM"
         # If we want to split on the boundary
         elif splitting_conds['boundary']:
-- 
2.43.0


From ec7839ebe8898fa7c6e30debb03af11740b8f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:14 +0000
Subject: [PATCH 44/73] fix: sea ice thickness next to the Baltic was lost

---
 meshiphi/dataloaders/lut/thickness.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index ccf20fc..ee37636 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -4,6 +4,7 @@ import logging
 
 import pandas as pd
 from shapely import wkt, Polygon
+from shapely.ops import unary_union
 
 
 # Mapping of month number to season per hemisphere
@@ -108,6 +109,10 @@ class ThicknessDataLoader(LutDataLoader):
         for region in regions:
             
             intersection = region.geometry & bounds_polygon
+            # Only areas count, not edges that merely touch the boundary
+            if intersection.geom_type == 'GeometryCollection':
+                intersection = unary_union([part for part in intersection.geoms
+                                            if part.area > 0])
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-- 
2.43.0


From 530b27236dde29ca681ca8f8021d9092607bea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:08 +0000
Subject: [PATCH 45/73] fix: a mesh can be built after add_dataloader

---
 meshiphi/mesh_generation/mesh_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index d327212..87985b8 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -311,7 +311,8 @@ class MeshBuilder:
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source() + 
+                    self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
 
         return self
-- 
2.43.0


From bab2e3249ea7ff3594bdf625fe707b7d92d4c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:08 +0000
Subject: [PATCH 46/73] fix: downsampling aggregates each bin as a whole, also
 for lower-case aggregation types

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 16 ++++++----------
 meshiphi/dataloaders/vector/abstract_vector.py | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index c5e4ce9..c19b937 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -760,24 +760,19 @@ class ScalarDataLoader(DataLoaderInterface):
             '''
             if agg_type == 'MIN':
                 # Returns min of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').min()
-                data = data.coarsen(long=ds[0],boundary='pad').min()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').min()
             elif agg_type == 'MAX':
                 # Returns max of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').max()
-                data = data.coarsen(long=ds[0],boundary='pad').max()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
@@ -799,6 +794,7 @@ class ScalarDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         
         # If no downsampling
         if self.downsample_factors == (1,1) or \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 96d70c5..72e4b2e 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -765,24 +765,19 @@ class VectorDataLoader(DataLoaderInterface):
             '''
             if agg_type == 'MIN':
                 # Returns min of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').min()
-                data = data.coarsen(long=ds[0],boundary='pad').min()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').min()
             elif agg_type == 'MAX':
                 # Returns max of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').max()
-                data = data.coarsen(long=ds[0],boundary='pad').max()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
@@ -804,6 +799,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         
         # If no downsampling
         if self.downsample_factors == (1,1) or \
-- 
2.43.0


From c98f6d71adcd046ac1b33f7bc40aea073ebcc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:36 +0000
Subject: [PATCH 47/73] fix: abstract shapes can be centred on the equator or
 the prime meridian

---
 meshiphi/dataloaders/scalar/shape.py        | 8 ++++----
 meshiphi/dataloaders/vector/vector_shape.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 32cf6f8..e776501 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -112,8 +112,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny/2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx/2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -251,8 +251,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 2948677..7be80fd 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -161,8 +161,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -217,8 +217,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From a1af47f2ce7c8f30ae3f39d2babfc94780236488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:36 +0000
Subject: [PATCH 48/73] fix: abstract shapes have the default parameters they
 are meant to have

---
 meshiphi/dataloaders/scalar/shape.py        |  2 +-
 meshiphi/dataloaders/vector/vector_shape.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index e776501..88f07b0 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -47,7 +47,7 @@ class ShapeDataLoader(ScalarDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 7be80fd..d09f762 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -32,26 +32,26 @@ class VectorShapeDataLoader(VectorDataLoader):
 
         # Scaling factor to multiply data points by
         if 'multiplier_u' not in params:
-            params['multiplier'] = 1
+            params['multiplier_u'] = 1
         if 'multiplier_v' not in params:
-            params['multiplier'] = 1
+            params['multiplier_v'] = 1
 
         # Define default circle parameters
-        if params['dataloader_name'] == 'circle':
+        if params['dataloader_name'] == 'vector_circle':
             if 'radius' not in params:
                 params['radius'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default rectangle parameters
-        elif params['dataloader_name'] == 'rectangle':
+        elif params['dataloader_name'] == 'vector_rectangle':
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-        elif params['dataloader_name'] == 'gradient':
+        elif params['dataloader_name'] == 'vector_gradient':
             if 'vertical' not in params:
                 params['vertical'] = True
 
-- 
2.43.0


From 1f40c9d09db2180b5f5257b9a94dbc4c385bfcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:53 +0000
Subject: [PATCH 49/73] fix: abstract shapes and random fields in regions
 across the antimeridian

---
 meshiphi/dataloaders/scalar/scalar_grf.py   |  6 ++++--
 meshiphi/dataloaders/scalar/shape.py        | 21 +++++++++++++++------
 meshiphi/dataloaders/vector/vector_grf.py   |  6 ++++--
 meshiphi/dataloaders/vector/vector_shape.py | 19 ++++++++++++++-----
 meshiphi/utils.py                           |  9 +++++++++
 5 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/scalar_grf.py b/meshiphi/dataloaders/scalar/scalar_grf.py
index 74640e5..d426ef7 100644
--- a/meshiphi/dataloaders/scalar/scalar_grf.py
+++ b/meshiphi/dataloaders/scalar/scalar_grf.py
@@ -1,5 +1,5 @@
 from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
-from meshiphi.utils import gaussian_random_field
+from meshiphi.utils import eastern_edge, gaussian_random_field
 
 import logging
 import pandas as pd
@@ -121,8 +121,10 @@ class ScalarGRFDataLoader(ScalarDataLoader):
                                 bounds.get_lat_max(), 
                                 self.size)
         long_array = np.linspace(bounds.get_long_min(), 
-                                 bounds.get_long_max(), 
+                                 eastern_edge(bounds), 
                                  self.size)
+        # Keep longitudes beyond the antimeridian between -180:180
+        long_array = np.where(long_array > 180, long_array - 360, long_array)
         latv, longv = np.meshgrid(lat_array, long_array, indexing='ij')
 
         # Create an entry for each row in final dataframe
diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 88f07b0..c2a6a1a 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -1,4 +1,5 @@
 from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
+from meshiphi.utils import eastern_edge
 
 import logging
 import pandas as pd
@@ -92,6 +93,8 @@ class ShapeDataLoader(ScalarDataLoader):
                 f'Unknown abstract shape type: {self.dataloader_name}'
                 )
 
+        # Keep longitudes beyond the antimeridian between -180:180
+        data['long'] = data['long'].where(data['long'] <= 180, data['long'] - 360)
         data_xr = data.set_index(['lat', 'long']).to_xarray()
         # No need to trim data, as was defined by bounds
 
@@ -109,17 +112,20 @@ class ShapeDataLoader(ScalarDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
+        # Count on beyond 180 if crossing the antimeridian
+        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+            c_x += 360
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
                                   bounds.get_lat_max(), 
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         logging.info("\tCreating mask of circle")
         # Create a 2D-array with distance from defined centre
@@ -163,7 +169,7 @@ class ShapeDataLoader(ScalarDataLoader):
                                self.ny)
         # Generate cols
         self.long = np.linspace(bounds.get_long_min(),
-                                bounds.get_long_max(),
+                                eastern_edge(bounds),
                                 self.nx)
         
         logging.info("\tCreating gradient of values")
@@ -207,7 +213,7 @@ class ShapeDataLoader(ScalarDataLoader):
                                self.ny, endpoint=False)
         # Generate cols
         self.long = np.linspace(bounds.get_long_min(),
-                                bounds.get_long_max(),
+                                eastern_edge(bounds),
                                 self.nx, endpoint=False)
 
         logging.info("- Creating series of 0's and 1's for lat/long")
@@ -248,17 +254,20 @@ class ShapeDataLoader(ScalarDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
+        # Count on beyond 180 if crossing the antimeridian
+        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+            c_x += 360
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
                                   bounds.get_lat_max(),
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         logging.info("\tCreating mask of a rectangle")
         # Create a 2D-array with distance along cartesian axes from defined centre
diff --git a/meshiphi/dataloaders/vector/vector_grf.py b/meshiphi/dataloaders/vector/vector_grf.py
index 68648af..7da8c13 100644
--- a/meshiphi/dataloaders/vector/vector_grf.py
+++ b/meshiphi/dataloaders/vector/vector_grf.py
@@ -1,5 +1,5 @@
 from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
-from meshiphi.utils import gaussian_random_field
+from meshiphi.utils import eastern_edge, gaussian_random_field
 
 import logging
 import pandas as pd
@@ -88,8 +88,10 @@ class VectorGRFDataLoader(VectorDataLoader):
                                 bounds.get_lat_max(), 
                                 self.size)
         long_array = np.linspace(bounds.get_long_min(), 
-                                 bounds.get_long_max(), 
+                                 eastern_edge(bounds), 
                                  self.size)
+        # Keep longitudes beyond the antimeridian between -180:180
+        long_array = np.where(long_array > 180, long_array - 360, long_array)
         latv, longv = np.meshgrid(lat_array, long_array, indexing='ij')
 
         # Create an entry for each row in final dataframe
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index d09f762..10f5805 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -1,4 +1,5 @@
 from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
+from meshiphi.utils import eastern_edge
 
 import logging
 import pandas as pd
@@ -85,6 +86,8 @@ class VectorShapeDataLoader(VectorDataLoader):
                 f'Unknown vector shape type: {self.dataloader_name}'
                 )
 
+        # Keep longitudes beyond the antimeridian between -180:180
+        data['long'] = data['long'].where(data['long'] <= 180, data['long'] - 360)
         data_xr = data.set_index(['lat', 'long']).to_xarray()
         # No need to trim data, as was defined by bounds
 
@@ -105,7 +108,7 @@ class VectorShapeDataLoader(VectorDataLoader):
                                self.ny)
         # Generate cols
         self.long = np.linspace(bounds.get_long_min(),
-                                bounds.get_long_max(),
+                                eastern_edge(bounds),
                                 self.nx)
 
         logging.info("\tCreating gradient of values")
@@ -158,17 +161,20 @@ class VectorShapeDataLoader(VectorDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
+        # Count on beyond 180 if crossing the antimeridian
+        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+            c_x += 360
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
                                   bounds.get_lat_max(),
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         logging.info("\tCreating mask of circle")
         # Create a 2D-array with distance from defined centre
@@ -214,17 +220,20 @@ class VectorShapeDataLoader(VectorDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
+        # Count on beyond 180 if crossing the antimeridian
+        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+            c_x += 360
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
                                   bounds.get_lat_max(),
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), eastern_edge(bounds), self.nx)
 
         logging.info("\tCreating mask of a rectangle")
         # Create a 2D-array with distance along cartesian axes from defined centre
diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5ddb0d6..06fa502 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -41,6 +41,15 @@ def longitude_distance(long_a, long_b):
     else:
         return long_dist
 
+def eastern_edge(bounds):
+    """
+    Longitude of the eastern edge of a boundary, counted on beyond 180 
+    if the boundary crosses the antimeridian
+    """
+    if bounds.get_long_max() <= bounds.get_long_min():
+        return bounds.get_long_max() + 360
+    return bounds.get_long_max()
+
 def frac_of_month(year, month, start_date=None, end_date=None):
     
     # Determine the number of days in the month specified
-- 
2.43.0


From 9997685feaca319e19e0ad409240ce8d816ab09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:37 +0000
Subject: [PATCH 50/73] fix: whole numbers can be rounded to significant
 figures

---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 06fa502..55667a9 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -147,7 +147,7 @@ def round_to_sigfig(x, sigfig=5):
     # np.array.astype(int) to enable np.around to work later
     dec_pl = sigfig - np.floor(np.log10(np.abs(x), 
                                         where = loggable_idxs,
-                                        out   = np.zeros_like(x))
+                                        out   = np.zeros(x.shape))
                                ).astype(int) - 1
     # Round to sig figs
     rounded = np.array(
-- 
2.43.0


From e70b8c6e41e83f69202ae701c67748aaf0374abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:01 +0000
Subject: [PATCH 51/73] fix: decimal days are never shown as 60 minutes or 24
 hours

---
 meshiphi/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 55667a9..eed335c 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -93,12 +93,10 @@ def convert_decimal_days(decimal_days, mins=False):
     Returns:
         new_time (str): The time in the new format
     """
-    frac_d, days = np.modf(decimal_days)
-    hours = frac_d * 24.0
-
     if mins:
-        frac_h, hours = np.modf(hours)
-        minutes = round(frac_h * 60.0)
+        # Round before dividing up, as 60 minutes make an hour
+        hours, minutes = divmod(round(decimal_days * 24 * 60), 60)
+        days, hours = divmod(hours, 24)
         if days:
             new_time = f"{round(days)} days {round(hours)} hours {minutes} minutes"
         elif hours:
@@ -106,6 +104,8 @@ def convert_decimal_days(decimal_days, mins=False):
         else:
             new_time = f"{minutes} minutes"
     else:
+        # Round before dividing up, as 24 hours make a day
+        days, hours = divmod(round(decimal_days * 24.0, 2), 24)
         hours = round(hours, 2)
         if days:
             new_time = f"{round(days)} days {hours} hours"
-- 
2.43.0


From dfd65f9ca961937380244da07321e67c2f5b3156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:01 +0000
Subject: [PATCH 52/73] fix: comparing neighbour graphs lists each differing
 cell in a row of its own

---
 meshiphi/mesh_validation/mesh_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index ded8c09..3b99e62 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -214,7 +214,7 @@ class MeshComparator:
                     mismatched_rows += [cellbox_row]
         # If there were mismatched rows
         if mismatched_rows:
-            mismatched_df = pd.concat(mismatched_rows, axis=1)
+            mismatched_df = pd.concat(mismatched_rows)
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-- 
2.43.0


From afd48d03df4a407c176ef92f7a5946976155029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:01 +0000
Subject: [PATCH 53/73] fix: comparing meshes without differences gives an
 empty list of ids

---
 meshiphi/mesh_validation/mesh_comparator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index 3b99e62..b40f260 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -63,7 +63,7 @@ class MeshComparator:
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-            mismatched_df = pd.DataFrame()
+            mismatched_df = pd.DataFrame(columns=['id'])
 
         # TODO update to check if there are cells that are common but split in diff
 
@@ -172,7 +172,7 @@ class MeshComparator:
             mismatched_df = mismatched_df.set_index('geometry')
         # Otherise, create an empty dataframe
         else:
-            mismatched_df = pd.DataFrame()
+            mismatched_df = pd.DataFrame(columns=['id'])
         return self._return_as(mismatched_df, return_type)
 
     def compare_neighbour_graph_values(self, mesh1, mesh2, return_type=None):
@@ -218,5 +218,5 @@ class MeshComparator:
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-            mismatched_df = pd.DataFrame()
+            mismatched_df = pd.DataFrame(columns=['id'])
         return self._return_as(mismatched_df, return_type)
-- 
2.43.0


From 1a64e24de1436e55bbdf8bc2953267aeb98ef5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:26 +0000
Subject: [PATCH 54/73] fix: each datum is validated against the one cell that
 holds it, also across the antimeridian

---
 meshiphi/mesh_validation/full_mesh_validator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index bf65eef..0c011ea 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -127,7 +127,15 @@ class FullMeshValidator:
         raw_slice: DataFrame containing slice of data
         """
 
-        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1])]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1])]
+        # Each datapoint belongs to one cellbox only, so lower bounds are exclusive 
+        # and upper bounds inclusive, as when the mesh was built
+        lat, long = self.source_data['lat'], self.source_data['long']
+        mask = (lat > bounds.get_lat_min()) & (lat <= bounds.get_lat_max())
+        # If not going through antimeridian
+        if bounds.get_long_min() < bounds.get_long_max():
+            mask &= (long > bounds.get_long_min()) & (long <= bounds.get_long_max())
+        else:
+            mask &= (long > bounds.get_long_min()) | (long <= bounds.get_long_max())
+        raw_slice = self.source_data[mask].copy()
     
         return raw_slice
-- 
2.43.0


From 295e74225a5bcb4a6e13662977d7fcf79830a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:34 +0000
Subject: [PATCH 55/73] fix: mesh validation samples regions across the
 antimeridian

---
 meshiphi/mesh_validation/mesh_validator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 039fdc6..8d9848b 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -10,6 +10,7 @@ import json
 import math
 import logging
 from meshiphi.mesh_generation.boundary import Boundary
+from meshiphi.utils import longitude_domain, eastern_edge
 from sklearn.metrics import mean_squared_error
 import xarray as xr
 class MeshValidator:
@@ -59,7 +60,8 @@ class MeshValidator:
         SAMPLE_DIM = 2  # each sample contains lat and long
     
         bounds = self.mesh.get_bounds()
-        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , bounds.long_range])
+        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , [bounds.get_long_min() , eastern_edge(bounds)]])
+        samples[:, 1] = longitude_domain(samples[:, 1])
         # compare the sampled lat and long values in data_file to the values obtained by mesh ( agg_values returned by  get_value)
         actual_value = np.array([])
         mesh_value = np.array([])
@@ -106,8 +108,13 @@ class MeshValidator:
         # make sure we are not exceeding the mesh bounds
         if lat_end > self.mesh.get_bounds().get_lat_max():
             lat_end = self.mesh.get_bounds().get_lat_max()
-        if long_end > self.mesh.get_bounds().get_long_max():
-            long_end = self.mesh.get_bounds().get_long_max()
+        long_max = eastern_edge(self.mesh.get_bounds())
+        # samples beyond the antimeridian are west of the mesh's western edge
+        if sample[1] < self.mesh.get_bounds().get_long_min():
+            long_max = long_max - 360
+        if long_end > long_max:
+            long_end = long_max
+        long_end = longitude_domain(long_end)
         return lat_end,long_end
 
 
-- 
2.43.0


From 199e9eb39a731dec1f423a49c259bff90a87eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:34 +0000
Subject: [PATCH 56/73] fix: mesh validation failed if a datum lies on the edge
 of a cell

---
 meshiphi/mesh_validation/mesh_validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 8d9848b..991d235 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -146,7 +146,10 @@ class MeshValidator:
                     lat = point ['lat']
                     long = point ['long']
                     for agg_cellbox in self.env_mesh.agg_cellboxes:
-                        if agg_cellbox.contains_point(lat , long):
+                        # lower bounds are exclusive and upper bounds inclusive, as for the data
+                        bounds = agg_cellbox.get_bounds()
+                        if bounds.get_lat_min() < lat <= bounds.get_lat_max() and \
+                                0 < (long - bounds.get_long_min()) % 360 <= bounds.get_width():
                             values = np.append ( values , agg_cellbox.agg_data [data_loader.data_name] )#get the agg_value 
                             break  # break to make sure we avoid getting multiple values (for lat and long on bounds of multiple cellboxes)
             logging.info("values from mesh are: {}".format(' '.join(map(str, values))))
-- 
2.43.0


From 75e7fbd97a2b390e17d9213e463a6d860f7f605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 57/73] fix: functions wrapped by memory_trace raised
 AttributeError

---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index eed335c..df6dd21 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -254,7 +254,7 @@ def memory_trace(func):
         top_stats = snapshot.statistics('traceback')
 
         stat = top_stats[0]
-        logging.info("{} memory blocks: {.1f} KiB".
+        logging.info("{} memory blocks: {:.1f} KiB".
                      format(stat.count, stat.size / 1024))
         logging.info("\n".join(stat.traceback.format()))
         return res
-- 
2.43.0


From efe5cf86825aea58c068624a8eb16e8ec2ea68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:40 +0000
Subject: [PATCH 58/73] fix: meshes whose first cell was split can be validated

---
 meshiphi/mesh_validation/mesh_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 991d235..2afd48d 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -73,6 +73,16 @@ class MeshValidator:
         return distance
     
 
+    def get_data_sources (self):
+        """
+            gets the data sources of the mesh, from any of its cellboxes (cellboxes that were split are None)
+            Returns:
+                list: the data sources of the mesh
+        """
+        cellbox = next (cellbox for cellbox in self.mesh.cellboxes if cellbox is not None)
+        return cellbox.get_data_source()
+
+
     def get_value_from_data (self , sample):
         """
             gets the actual data within the provided sample lat and long
@@ -87,7 +97,7 @@ class MeshValidator:
         lat_range = [sample[0] , lat_end]
         long_range = [sample[1] , long_end ]
         time_range = self.mesh.get_bounds().get_time_range()
-        for source in self.mesh.cellboxes[0].get_data_source():
+        for source in self.get_data_sources():
             data_loader = source.get_data_loader() 
             data_name = data_loader.get_data_col_name()
             dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
@@ -136,7 +146,7 @@ class MeshValidator:
             time_range = self.mesh.get_bounds().get_time_range()
 
         
-            for source in self.mesh.cellboxes[0].get_data_source():
+            for source in self.get_data_sources():
                 data_loader = source.get_data_loader()
                 dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
                 
-- 
2.43.0


From f793f7fd7ec60ce10142db340c31ff2d67ddb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:02 +0000
Subject: [PATCH 59/73] fix: the dates of areas in a look-up table decide when
 they count

---
 meshiphi/dataloaders/lut/abstract_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 06764f0..e82d8b8 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -164,7 +164,8 @@ class LutDataLoader(DataLoaderInterface):
                     f'{row.geometry.geom_type} not acceptable geometry type.'+\
                      ' Must be a Polygon or MultiPolygon!'
                 )
-        data = pd.concat(new_data, ignore_index=True)
+        # Keep the index if it holds the dates of the polygons
+        data = pd.concat(new_data, ignore_index='time' not in data.index.names)
         
         return data
 
@@ -219,7 +220,7 @@ class LutDataLoader(DataLoaderInterface):
             data = self.data
         # Limit time to boundary
         if 'time' in data.index.names:
-            data = data.loc[bounds.get_time_min():bounds.get_time_max()]
+            data = data.sort_index().loc[bounds.get_time_min():bounds.get_time_max()]
             
         # Find intersection of each polygon to the boundary
         bounds_polygon = bounds.to_polygon()    
-- 
2.43.0


From 88c98bab3535f89b585986068544da7baa8c7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:40 +0000
Subject: [PATCH 60/73] fix: a GeoTIFF export left temporary files behind and
 failed for paths with spaces

---
 meshiphi/mesh_generation/environment_mesh.py | 28 ++++++++------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 109051c..281d2ef 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1404,19 +1404,13 @@ class EnvironmentMesh:
                 f.write (str(np.nan) +
                         ' ' + inf_color + '\n') # render nans in red
             os.close(fp)
-            if "colour_conf" in params.keys():
-                color_file = params["colour_conf"]
-            cmd = "gdaldem color-relief " + input_file \
-                + ' ' + color_file + ' ' + input_file
-            subprocess.check_call(cmd, shell=True)
-            # remove additional files created while generating the tif
-            file_path = os.path.abspath(input_file)
-            dir_path = os.path.split(file_path)[0]
-            additional_files = ["grid_data" , "grid_data.aux.xml"]
-            for file in additional_files: 
-                file_path = Path(dir_path +"/"+ file)
-                if os.path.isfile (file_path):
-                     os.remove(file_path)
+            try:
+                cmd = ["gdaldem", "color-relief", str(input_file),
+                       params.get("colour_conf", color_file), str(input_file)]
+                subprocess.check_call(cmd)
+            finally:
+                # remove additional file created while generating the tif
+                os.remove(color_file)
 
         # Only import if we need GDAL, to avoid having it as a requirement
         from osgeo import gdal, ogr, osr
@@ -1442,9 +1436,9 @@ class EnvironmentMesh:
         data = []
         data = np.reshape(np.asarray([get_sample_value(
             sample) for sample in samples], dtype=np.float32), (nlines, ncols))
-        # create a temp grid
-        grid_data = driver.Create(
-            'grid_data', ncols, nlines, 1, gdal.GDT_Float32)
+        # create a temp grid, held in memory
+        grid_data = gdal.GetDriverByName('MEM').Create(
+            '', ncols, nlines, 1, gdal.GDT_Float32)
         # setup geo-transform
         grid_data.SetGeoTransform(get_geo_transform(extent, nlines, ncols))
         # Write data
@@ -1455,7 +1449,7 @@ class EnvironmentMesh:
     
 
         # Save the file
-        driver.CreateCopy(path, grid_data, 0)
+        driver.CreateCopy(str(path), grid_data, 0)
         transform_proj(path, params, DEFAULT_PROJ)
         set_colour(data, path, params)
         logging.info(f'Generated GeoTIFF: {path}')
-- 
2.43.0


From 1fb22488d6f783d221938a505ec859991861631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:48 +0000
Subject: [PATCH 61/73] fix: a mesh merged in next to a cell taller than it is
 tied to that cell

---
 meshiphi/mesh_generation/environment_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 281d2ef..cfdb39a 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -675,8 +675,8 @@ class EnvironmentMesh:
             cb_min, cb_max, b_min, b_max = self._long_ranges(cellbox.get_bounds(), bounds)
             # Bounds all around the globe have nothing to the east of them
             if (b_max - b_min < 360 and b_max in (cb_min, cb_min + 360) and
-                cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
-                cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
+                cellbox.get_bounds().get_lat_max() > bounds.get_lat_min() and
+                cellbox.get_bounds().get_lat_min() < bounds.get_lat_max()):
             
                 east_cellboxes.append(cellbox)
             
@@ -690,8 +690,8 @@ class EnvironmentMesh:
                 cb_min, cb_max, b_min, b_max = self._long_ranges(cellbox.get_bounds(), bounds)
                 # Bounds all around the globe have nothing to the west of them
                 if (b_max - b_min < 360 and b_min in (cb_max, cb_max - 360) and
-                    cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
-                    cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
+                    cellbox.get_bounds().get_lat_max() > bounds.get_lat_min() and
+                    cellbox.get_bounds().get_lat_min() < bounds.get_lat_max()):
                 
                     west_cellboxes.append(cellbox)
                 
-- 
2.43.0


From fb18530e3a709f31cbcd2dc0b61a16fb0a5b4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 62/73] fix: shapes centred outside of the region are measured
 the shorter way round the globe

---
 meshiphi/dataloaders/scalar/shape.py        | 14 ++++++++++----
 meshiphi/dataloaders/vector/vector_shape.py | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index c2a6a1a..9b909a6 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -117,9 +117,12 @@ class ShapeDataLoader(ScalarDataLoader):
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
-        # Count on beyond 180 if crossing the antimeridian
-        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+        # Measure from the centre the way round the globe that is shorter
+        mid = (bounds.get_long_min() + eastern_edge(bounds)) / 2
+        if mid - c_x > 180:
             c_x += 360
+        elif c_x - mid > 180:
+            c_x -= 360
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -259,9 +262,12 @@ class ShapeDataLoader(ScalarDataLoader):
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
-        # Count on beyond 180 if crossing the antimeridian
-        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+        # Measure from the centre the way round the globe that is shorter
+        mid = (bounds.get_long_min() + eastern_edge(bounds)) / 2
+        if mid - c_x > 180:
             c_x += 360
+        elif c_x - mid > 180:
+            c_x -= 360
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 10f5805..062b187 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -166,9 +166,12 @@ class VectorShapeDataLoader(VectorDataLoader):
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
-        # Count on beyond 180 if crossing the antimeridian
-        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+        # Measure from the centre the way round the globe that is shorter
+        mid = (bounds.get_long_min() + eastern_edge(bounds)) / 2
+        if mid - c_x > 180:
             c_x += 360
+        elif c_x - mid > 180:
+            c_x -= 360
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -225,9 +228,12 @@ class VectorShapeDataLoader(VectorDataLoader):
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
-        # Count on beyond 180 if crossing the antimeridian
-        if c_x < bounds.get_long_min() and eastern_edge(bounds) > 180:
+        # Measure from the centre the way round the globe that is shorter
+        mid = (bounds.get_long_min() + eastern_edge(bounds)) / 2
+        if mid - c_x > 180:
             c_x += 360
+        elif c_x - mid > 180:
+            c_x -= 360
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From 301348a5d786057203be1c9b652ac64600f2bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 63/73] fix: a mesh can be split and built again after its
 first cell was split

---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 87985b8..a7e6cb4 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -568,7 +568,7 @@ class MeshBuilder:
         logging.info ("Splitting cellboxes...")
         # loop over the data_sources then cellboxes to implement depth-first splitting. should be simpler and loop over cellboxes only once we switch to breadth-first splitting
         # this impl assumws all the cellboxes have the same data sources. should not be the caase once we switch to breadth-first splitting.
-        data_sources = self.mesh.cellboxes[0].get_data_source()
+        data_sources = self.mesh.get_cellboxes()[0].get_data_source()
         
         # Set up data_source progress bar
         ds_pbar = tqdm(range(0, len(data_sources)), position=0, 
-- 
2.43.0


From 43115cc08b216bd3b1ffe64b26bb96739bd25463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 64/73] fix: table data at any time of day on the end date
 count, as they do for grids

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 +++-
 meshiphi/dataloaders/vector/abstract_vector.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index c19b937..cab5929 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -276,8 +276,10 @@ class ScalarDataLoader(DataLoaderInterface):
                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
+                # Any time of day on the last date is within the bounds
+                day_after = pd.Timestamp(bounds.get_time_max()) + pd.Timedelta(days=1)
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-                        (data['time'] <= bounds.get_time_max())
+                        (data['time'] < day_after.strftime('%Y-%m-%d'))
                         
             # Return column of data from within bounds
             return data.loc[mask]
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 72e4b2e..1610427 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -331,8 +331,10 @@ class VectorDataLoader(DataLoaderInterface):
                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
+                # Any time of day on the last date is within the bounds
+                day_after = pd.Timestamp(bounds.get_time_max()) + pd.Timedelta(days=1)
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-                        (data['time'] <= bounds.get_time_max())
+                        (data['time'] < day_after.strftime('%Y-%m-%d'))
                         
             # Return column of data from within bounds
             return data.loc[mask]
-- 
2.43.0


From f030c06c9f81b8f058850ec975e37647a1ed90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 65/73] fix: meshes loaded from one JSON object no longer share
 their neighbours and configuration

---
 meshiphi/mesh_generation/environment_mesh.py | 3 ++-
 meshiphi/mesh_generation/neighbour_graph.py  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index cfdb39a..8296640 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -85,7 +85,8 @@ class EnvironmentMesh:
             Returns:
                 EnvironmentMesh: object that contains all the json file mesh information.\n
         """
-        config = mesh_json['config']['mesh_info']
+        # Copied, as merging adds to the config
+        config = copy.deepcopy(mesh_json['config']['mesh_info'])
         cellboxes_json = mesh_json['cellboxes']
         agg_cellboxes = []
         bounds = Boundary.from_json(config)
diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 276f6bd..443c05f 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -1,3 +1,4 @@
+import copy
 
 
 from meshiphi.mesh_generation.direction import Direction
@@ -49,7 +50,8 @@ class NeighbourGraph:
         '''
         neighbour_graph = {}
         for key in ng_json:
-            neighbour_graph[key] = ng_json[key]
+            # Copied, as splitting and merging change the lists of neighbours
+            neighbour_graph[key] = copy.deepcopy(ng_json[key])
         obj = NeighbourGraph()
         obj.neighbour_graph = neighbour_graph
         return obj
-- 
2.43.0


From 98d31a898960a5f09f9f62f3b93f5e3079bc66e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:35 +0000
Subject: [PATCH 66/73] fix: merged-in cells no longer carry a wrong id among
 their values

---
 meshiphi/mesh_generation/environment_mesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 8296640..445213f 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -798,7 +798,6 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From 260a30a6d205a34c5d57bdb0200c97b9ba4552ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:35 +0000
Subject: [PATCH 67/73] fix: a tif image of a layer without finite numbers, or
 with infinite ones, can be exported

---
 meshiphi/mesh_generation/environment_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 445213f..0b6c7f0 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1389,7 +1389,9 @@ class EnvironmentMesh:
 
             """
             fp, color_file = tempfile.mkstemp(suffix='.txt')
-            data = data[~np.isnan(data)]  # get rid of the nans before calculating range
+            data = data[np.isfinite(data)]  # get rid of the nans and infs before calculating range
+            if data.size == 0:  # nothing to colour, so any range will do
+                data = np.zeros(1)
             _max = np.nanmax(data)
             _min = np.nanmin(data)
             _range = _max-_min
-- 
2.43.0


From 40a27b9238710e8aef1af0b4c62d9743c8d0fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:13 +0000
Subject: [PATCH 68/73] fix: the column at longitude 180 of data from 0 to 360
 counts in cells that end at 180

---
 meshiphi/dataloaders/scalar/bsose_depth.py                | 4 ++--
 meshiphi/dataloaders/scalar/bsose_sea_ice.py              | 4 ++--
 meshiphi/dataloaders/scalar/era5_max_wave_height.py       | 4 ++--
 meshiphi/dataloaders/scalar/era5_mean_wave_direction.py   | 4 ++--
 meshiphi/dataloaders/scalar/era5_sig_wave_height.py       | 4 ++--
 meshiphi/dataloaders/scalar/era5_wave_period.py           | 4 ++--
 meshiphi/dataloaders/scalar/era5_wind_dir.py              | 4 ++--
 meshiphi/dataloaders/scalar/era5_wind_mag.py              | 4 ++--
 meshiphi/dataloaders/vector/era5_wave_direction_vector.py | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/bsose_depth.py b/meshiphi/dataloaders/scalar/bsose_depth.py
index 881d323..10db01a 100644
--- a/meshiphi/dataloaders/scalar/bsose_depth.py
+++ b/meshiphi/dataloaders/scalar/bsose_depth.py
@@ -24,8 +24,8 @@ class BSOSEDepthDataLoader(ScalarDataLoader):
         data = data.rename({'Depth': 'elevation',
                             'YC': 'lat',
                             'XC': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
         # Convert elevation from coord to variable
diff --git a/meshiphi/dataloaders/scalar/bsose_sea_ice.py b/meshiphi/dataloaders/scalar/bsose_sea_ice.py
index fd73927..9c2fee3 100644
--- a/meshiphi/dataloaders/scalar/bsose_sea_ice.py
+++ b/meshiphi/dataloaders/scalar/bsose_sea_ice.py
@@ -32,8 +32,8 @@ class BSOSESeaIceDataLoader(ScalarDataLoader):
                             'YC': 'lat',
                             'XC': 'long'})
         
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
         # Trim to initial datapoints
diff --git a/meshiphi/dataloaders/scalar/era5_max_wave_height.py b/meshiphi/dataloaders/scalar/era5_max_wave_height.py
index 640ed1f..eda2c0f 100644
--- a/meshiphi/dataloaders/scalar/era5_max_wave_height.py
+++ b/meshiphi/dataloaders/scalar/era5_max_wave_height.py
@@ -32,8 +32,8 @@ class ERA5MaxWaveHeightDataLoader(ScalarDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
         # Limit to just rnn variables
diff --git a/meshiphi/dataloaders/scalar/era5_mean_wave_direction.py b/meshiphi/dataloaders/scalar/era5_mean_wave_direction.py
index 1c0313e..86e9709 100644
--- a/meshiphi/dataloaders/scalar/era5_mean_wave_direction.py
+++ b/meshiphi/dataloaders/scalar/era5_mean_wave_direction.py
@@ -30,8 +30,8 @@ class ERA5MeanWaveDirDataLoader(ScalarDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
         # Limit to just swh data
diff --git a/meshiphi/dataloaders/scalar/era5_sig_wave_height.py b/meshiphi/dataloaders/scalar/era5_sig_wave_height.py
index 209db20..6b01848 100644
--- a/meshiphi/dataloaders/scalar/era5_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/era5_sig_wave_height.py
@@ -32,8 +32,8 @@ class ERA5SigWaveHeightDataLoader(ScalarDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
         # Limit to just swh data
diff --git a/meshiphi/dataloaders/scalar/era5_wave_period.py b/meshiphi/dataloaders/scalar/era5_wave_period.py
index d64ea6a..71b813c 100644
--- a/meshiphi/dataloaders/scalar/era5_wave_period.py
+++ b/meshiphi/dataloaders/scalar/era5_wave_period.py
@@ -31,8 +31,8 @@ class ERA5WavePeriodDataLoader(ScalarDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
         # Limit to just swh data
diff --git a/meshiphi/dataloaders/scalar/era5_wind_dir.py b/meshiphi/dataloaders/scalar/era5_wind_dir.py
index b87616f..4667a2c 100644
--- a/meshiphi/dataloaders/scalar/era5_wind_dir.py
+++ b/meshiphi/dataloaders/scalar/era5_wind_dir.py
@@ -32,8 +32,8 @@ class ERA5WindDirDataLoader(ScalarDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
 
diff --git a/meshiphi/dataloaders/scalar/era5_wind_mag.py b/meshiphi/dataloaders/scalar/era5_wind_mag.py
index d14c591..15b247b 100644
--- a/meshiphi/dataloaders/scalar/era5_wind_mag.py
+++ b/meshiphi/dataloaders/scalar/era5_wind_mag.py
@@ -32,8 +32,8 @@ class ERA5WindMagDataLoader(ScalarDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
 
diff --git a/meshiphi/dataloaders/vector/era5_wave_direction_vector.py b/meshiphi/dataloaders/vector/era5_wave_direction_vector.py
index 675f3be..47e0cf2 100644
--- a/meshiphi/dataloaders/vector/era5_wave_direction_vector.py
+++ b/meshiphi/dataloaders/vector/era5_wave_direction_vector.py
@@ -40,8 +40,8 @@ class ERA5WaveDirectionLoader(VectorDataLoader):
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
 
-        # Change domain of dataset from [0:360) to [-180:180)
-        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Change domain of dataset from [0:360) to (-180:180]
+        data = data.assign_coords(long=180 - (180 - data.long) % 360)
         # Sort the 'long' axis so that sel() will work
         data = data.sortby('long')
 
-- 
2.43.0


From 0fecd122396f4ab159f45c7289f1b0463e526165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 69/73] fix: ECMWF forecasts for any hour of the end date count

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e55c2a..fd64109 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -74,7 +74,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
         for file in self.files:
             timestamp = calculate_timestamp(file)
             print(start_time, timestamp, end_time)
-            if start_time <= timestamp <= end_time:
+            # All of the last day counts
+            if start_time <= timestamp < end_time + timedelta(days=1):
                 data_array.append(retrieve_data(file, timestamp))
                 relevant_files += [file]
         # Concat all valid files
-- 
2.43.0


From ea8d1f195fdc8f6b1abccc3ab50f98b8af90e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 70/73] fix: tables of areas may have their columns in any
 order

---
 meshiphi/dataloaders/lut/lut_csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index 0bb442e..08f786a 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -36,6 +36,8 @@ class LutCSV(LutDataLoader):
         assert (len(csv_df.columns) == 2), \
                 "Dataloader only accepts .csv with 2 columns, 'geometry' and {{data_name}}"
         
+        # Columns may be in any order in the file
+        csv_df = csv_df[['geometry'] + csv_df.columns.drop('geometry').tolist()]
         # Convert strings to shapely geometries
         csv_df['geometry'] = csv_df['geometry'].apply(wkt.loads)
         # Create boundary denoting the world 
-- 
2.43.0


From 664a35b2f5f237779d490756346abef4e2503c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 71/73] fix: meshes across the antimeridian can be plotted

---
 meshiphi/mesh_plotting/mesh_plotter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 4635489..2090e75 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -24,12 +24,19 @@ class MeshPlotter:
 
         self.figscale = figscale
         
-        self.aspect_ratio = (self.long_max - self.long_min) / (self.lat_max - self.lat_min)
+        # Longitudes are counted on beyond 180 if the region crosses the antimeridian
+        long_max = self.long_max if self.long_max > self.long_min else self.long_max + 360
+
+        self.aspect_ratio = (long_max - self.long_min) / (self.lat_max - self.lat_min)
 
         self.fig = plt.figure(figsize=(self.figscale * self.aspect_ratio, self.figscale))
 
-        self.plot = plt.axes(projection=ccrs.PlateCarree())
-        self.plot.set_extent([self.long_min, self.long_max, self.lat_min, self.lat_max])
+        # Centre the map on the antimeridian if the region crosses it
+        central_long = 0 if long_max <= 180 else 180
+        projection = ccrs.PlateCarree(central_longitude=central_long)
+        self.plot = plt.axes(projection=projection)
+        self.plot.set_extent([self.long_min - central_long, long_max - central_long, self.lat_min, self.lat_max],
+                             crs=projection)
 
 
     def plot_bool(self, value_name, colour):
-- 
2.43.0


From 8042a7c9f2bb9546ba77c4849e8e0872e95733c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 72/73] fix: plot a layer with one value in all cells in a
 colour of its colour map

---
 meshiphi/mesh_plotting/mesh_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 2090e75..2a838ea 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -69,7 +69,8 @@ class MeshPlotter:
         for cellbox in self.mesh_json['cellboxes']:
 
             # normalise value
-            normalized_value = (cellbox[value_name] - value_min) / value_diff
+            # (if all values are the same, they have the first colour)
+            normalized_value = (cellbox[value_name] - value_min) / (value_diff or 1)
             polygon = shapely.wkt.loads(cellbox['geometry'])
             self.plot.add_geometries([polygon], ccrs.PlateCarree(), facecolor=cmap(normalized_value), alpha=1.0, edgecolor='darkslategrey')
    
-- 
2.43.0


From 5c76fdcb1a914759856adb1e70e04b0c33568780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 73/73] fix: save the plotter's own picture, not the last one
 begun

---
 meshiphi/mesh_plotting/mesh_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 2a838ea..d539b34 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -80,4 +80,4 @@ class MeshPlotter:
         Args:
             filename (str): The name of the file to save the plot to.
         """
-        plt.savefig(filename)
\ No newline at end of file
+        self.fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0

