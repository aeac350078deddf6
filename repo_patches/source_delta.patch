From f712fd553e0fe3265d9b2b1921d97c30c8810aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:40 +0000
Subject: [PATCH 01/26] fix: keep mesh offsets right when a part has no points
 or faces

---
 building3d/geom/mesh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/mesh/__init__.py b/building3d/geom/mesh/__init__.py
index 2138595..bafadc3 100644
--- a/building3d/geom/mesh/__init__.py
+++ b/building3d/geom/mesh/__init__.py
@@ -37,14 +37,13 @@ def vstack_mesh(
     pts_offset = 0
     for i in range(num_objects):
         for j in range(t_tri[i].shape[0]):
-            if j == 0 and i > 0:
-                tri_offset += num_tri_per_obj[i - 1]
             faces[j + tri_offset] = t_tri[i][j] + num_pts_added
         for j in range(t_pts[i].shape[0]):
-            if j == 0 and i > 0:
-                pts_offset += num_pts_per_obj[i - 1]
             verts[j + pts_offset] = t_pts[i][j]
             num_pts_added += 1
+        # Parts can be empty, so the offsets cannot depend on the inner loops being entered
+        tri_offset += num_tri_per_obj[i]
+        pts_offset += num_pts_per_obj[i]
 
     # TODO: Equal points should be merged. Look at building3d/mesh/quality/purge_mesh.py
     ...
-- 
2.43.0


From fdc5e95c378c92cfab6b8d1441030b55563d2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:06 +0000
Subject: [PATCH 02/26] fix: leave a wall or solid unchanged when a replacement
 is refused

---
 building3d/geom/solid/__init__.py | 15 +++++++++++++--
 building3d/geom/wall/__init__.py  | 18 +++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..81bdbd7 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,8 +81,19 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
-        del self.walls[old_name]
-        self.add_wall(new_wall)
+        """Replace the wall `old_name` with `new_wall`.
+
+        If the replacement is not possible, an error is raised and the solid is not changed.
+        """
+        if old_name not in self.walls:
+            raise KeyError(old_name)
+        walls = {k: w for k, w in self.walls.items() if k != old_name}
+        if new_wall.name in walls:
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+        walls[new_wall.name] = new_wall
+
+        new_wall.parent = self
+        self.walls = walls
 
     def get(self, abspath: str):
         """Get object by the absolute path."""
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..4c9a2b8 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,9 +81,21 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
-        del self.polygons[old_name]
-        for np in new_poly:
-            self.add_polygon(np)
+        """Replace the polygon `old_name` with `new_poly`.
+
+        If the replacement is not possible, an error is raised and the wall is not changed.
+        """
+        if old_name not in self.polygons:
+            raise KeyError(old_name)
+        polygons = {k: p for k, p in self.polygons.items() if k != old_name}
+        for poly in new_poly:
+            if poly.name in polygons:
+                raise GeometryError(f"Polygon {poly.name} already exists in the wall")
+            polygons[poly.name] = poly
+
+        for poly in new_poly:
+            poly.parent = self
+        self.polygons = polygons
 
     def get(self, abspath: str):
         """Get object by the absolute path."""
-- 
2.43.0


From 6a1a41b71fd5cd4f4196b27a4bac08edf57561f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:09 +0000
Subject: [PATCH 03/26] fix: refuse names with the path separator when slicing
 a polygon

---
 building3d/geom/polygon/slice/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/building3d/geom/polygon/slice/__init__.py b/building3d/geom/polygon/slice/__init__.py
index ab3bd18..e9fdaac 100644
--- a/building3d/geom/polygon/slice/__init__.py
+++ b/building3d/geom/polygon/slice/__init__.py
@@ -3,6 +3,7 @@ import numpy as np
 from building3d.random import random_id
 from building3d.config import GEOM_RTOL
 from building3d.geom.exceptions import GeometryError
+from building3d.geom.paths.validate_name import validate_name
 from building3d.geom.points import are_points_coplanar
 from building3d.geom.polygon import Polygon
 from building3d.geom.polygon.slice.add_intersection_points import \
@@ -106,6 +107,8 @@ def make_polygons(
         name1 = random_id()
     if name2 is None:
         name2 = random_id()
+    name1 = validate_name(name1)
+    name2 = validate_name(name2)
 
     if (pt1 is not None) and (pt2 is not None):
         if poly1.is_point_inside(pt1):
-- 
2.43.0


From e14d7e0c1c5e062363fd4a09704356f7aa056a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:24 +0000
Subject: [PATCH 04/26] fix: raise a clear error when looking up a path outside
 any building

---
 building3d/geom/polygon/__init__.py | 2 ++
 building3d/geom/solid/__init__.py   | 2 ++
 building3d/geom/wall/__init__.py    | 2 ++
 building3d/geom/zone/__init__.py    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e22b007..a99bf42 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -117,6 +117,8 @@ class Polygon:
         obj = self
         while obj.parent is not None:
             obj = obj.parent
+        if obj is self:
+            raise ValueError("Polygon does not belong to any building")
         building = obj
         return building.get(abspath)
 
diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 81bdbd7..dee9ed7 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -100,6 +100,8 @@ class Solid:
         obj = self
         while obj.parent is not None:
             obj = obj.parent
+        if obj is self:
+            raise ValueError("Solid does not belong to any building")
         building = obj
         return building.get(abspath)
 
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index 4c9a2b8..f619ae6 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -102,6 +102,8 @@ class Wall:
         obj = self
         while obj.parent is not None:
             obj = obj.parent
+        if obj is self:
+            raise ValueError("Wall does not belong to any building")
         building = obj
         return building.get(abspath)
 
diff --git a/building3d/geom/zone/__init__.py b/building3d/geom/zone/__init__.py
index 1394d74..eb02757 100644
--- a/building3d/geom/zone/__init__.py
+++ b/building3d/geom/zone/__init__.py
@@ -90,6 +90,8 @@ class Zone:
         obj = self
         while obj.parent is not None:
             obj = obj.parent
+        if obj is self:
+            raise ValueError("Zone does not belong to any building")
         building = obj
         return building.get(abspath)
 
-- 
2.43.0


From ce85db11f2c3543a6e5f25bb082a37e0490d1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:42 +0000
Subject: [PATCH 05/26] fix: keep empty buildings, zones, solids and walls when
 writing B3D files

---
 building3d/io/b3d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..6ab4e37 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -61,9 +61,14 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     bdict = recursive_default_dict()
     bdict["name"] = bdg.name
 
+    # Every container gets an entry, also if it has no children
+    bdict["zones"] = recursive_default_dict()
     for z in bdg.zones.values():
+        bdict["zones"][z.name] = recursive_default_dict()
         for s in z.solids.values():
+            bdict["zones"][z.name][s.name] = recursive_default_dict()
             for w in s.walls.values():
+                bdict["zones"][z.name][s.name][w.name] = recursive_default_dict()
                 for p in w.polygons.values():
                     bdict["zones"][z.name][s.name][w.name][p.name][
                         "pts"
-- 
2.43.0


From 1ac7f13f9da45f0717e3f5fe1e7ef43f60b8c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:11 +0000
Subject: [PATCH 06/26] fix: keep the identifier of a solid when reading STL
 files

---
 building3d/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index a74420b..dda3695 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -165,7 +165,7 @@ def read_stl(path: str) -> Building:
                 if solid_uid is None or solid_uid == "":
                     solid_uid = random_id()
 
-                solid = Solid([wall])
+                solid = Solid([wall], uid=solid_uid)
                 zone.add_solid(solid)
             else:
                 raise ValueError("No wall created, so cannot add it to the zone/solid.")
-- 
2.43.0


From 62c3006bf2642011113cad3c68246720f273cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:36 +0000
Subject: [PATCH 07/26] fix: find transparent polygons of the building as it is
 now

---
 building3d/sim/rays/find_transparent.py | 69 +++++++++++--------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..2b6ee76 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -29,10 +29,6 @@ from building3d.geom.paths.split_path import split_path
 logger = logging.getLogger(__name__)
 
 
-# Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
-
-
 def find_transparent(building: Building) -> set[str]:
     """Finds and returns the list of transparent polygons in the building.
 
@@ -45,39 +41,32 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
-
-    else:
-        # Find facing polygons (matching exactly)
-        logger.debug("Making graph")
-        graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
-
-        transparent_polygons = []
-        added = set()
-
-        logger.debug("Iterating through the graph items")
-        for k, v in graph.items():
-            assert isinstance(v, list)
-            assert (
-                len(v) <= 1
-            ), f"Expected one facing polygon, but found more ({len(v)})"
-
-            if len(v) == 1:
-                if k not in added or v[0] not in added:
-                    _, z0, *_ = split_path(k)
-                    _, z1, *_ = split_path(v[0])
-
-                    # Doesn't have to check if plg0 is facing plg1,
-                    # because if they are in the graph, they must be
-                    if z0 == z1:
-                        logger.debug(f"Transparent polygons found: {k}, {v[0]}")
-                        transparent_polygons.extend([k, v[0]])
-                        added.add(k)
-                        added.add(v[0])
-
-        # Add to CACHE
-        set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
-
-        return set_of_transparent_polygons
+
+    # Find facing polygons (matching exactly)
+    logger.debug("Making graph")
+    graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
+
+    transparent_polygons = []
+    added = set()
+
+    logger.debug("Iterating through the graph items")
+    for k, v in graph.items():
+        assert isinstance(v, list)
+        assert (
+            len(v) <= 1
+        ), f"Expected one facing polygon, but found more ({len(v)})"
+
+        if len(v) == 1:
+            if k not in added or v[0] not in added:
+                _, z0, *_ = split_path(k)
+                _, z1, *_ = split_path(v[0])
+
+                # Doesn't have to check if plg0 is facing plg1,
+                # because if they are in the graph, they must be
+                if z0 == z1:
+                    logger.debug(f"Transparent polygons found: {k}, {v[0]}")
+                    transparent_polygons.extend([k, v[0]])
+                    added.add(k)
+                    added.add(v[0])
+
+    return set(transparent_polygons)
-- 
2.43.0


From 33aa69aa88ca446ad9734e1233da0bcd718846a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:41 +0000
Subject: [PATCH 08/26] fix: answer graph requests for the given flags and the
 current building

---
 building3d/geom/building/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..9730f26 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -48,6 +48,7 @@ class Building:
             self.uid = random_id()
         self.zones: dict[str, Zone] = {}  # {Zone.name: Zone}
         self.adj_solids = {}
+        self.graph_flags = None
 
         for zn in zones:
             self.add_zone(zn)
@@ -78,6 +79,7 @@ class Building:
 
         zone.parent = self
         self.zones[zone.name] = zone
+        self.graph = {}  # The cached graph is no longer valid
         logger.info(f"Zone {zone.name} added: {self}")
 
     def get(self, abspath: str):
@@ -162,11 +164,13 @@ class Building:
         Returns:
             dict with connections at a specified level
         """
-        if len(self.graph) == 0:
+        flags = (facing, overlapping, touching)
+        if len(self.graph) == 0 or self.graph_flags != flags:
             new = True
 
         if new is True:
             self.graph = graph_polygon(self, facing, overlapping, touching)
+            self.graph_flags = flags
             self.graph_wall = graph_wall(
                 self, facing, overlapping, touching, self.graph
             )
@@ -194,6 +198,7 @@ class Building:
 
         # Find adjacent solids
         adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
+        self.graph = {}  # The cached graph is not valid after stitching
         done = []
 
         for s_path in adj_solids.keys():
-- 
2.43.0


From 05691d673570bf3582afdac00dcecc550c3796df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:57 +0000
Subject: [PATCH 09/26] fix: leave the given point pairs unchanged when
 choosing the supporting cut

---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..a93eaf8 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -95,7 +95,7 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
 @njit
 def get_sup_cut(pairs: PointType) -> PointType:
     """Returns points to be used to slice supporting polygon."""
-    pts = pairs.reshape((-1, 3))
+    pts = pairs.copy().reshape((-1, 3))
     tmp = pts[0].copy()
     pts[0] = pts[1].copy()
     pts[1] = tmp
-- 
2.43.0


From 2868f12bac0d06740af1b1f011c8ca6fb9205f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:13 +0000
Subject: [PATCH 10/26] fix: use the absorption set for each surface in the ray
 simulation

The simulation gave every surface the default absorption, so values set for
single surfaces had no effect. Surfaces never set now follow the default,
also when it is changed after the configuration was created.
---
 building3d/sim/rays/simulation.py        |  3 +--
 building3d/sim/rays/simulation_config.py | 23 +++++++++++------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..53c2f87 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,7 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array("absorption", building)
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..be93533 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -16,6 +16,15 @@ from .jit_print import jit_print
 logger = logging.getLogger(__name__)
 
 
+class SurfaceParams(dict):
+    """Parameter values by polygon path, surfaces which were never set have the default value."""
+
+    def __missing__(self, path: str) -> float:
+        if path == "default":
+            raise KeyError(path)
+        return self["default"]
+
+
 class SimulationConfig:
 
     def __init__(self, building: Building):
@@ -45,12 +54,9 @@ class SimulationConfig:
 
         # Surface parameters
         self.surfaces = {
-            "absorption": {
-                "default": 0.2,
-                # To add custom values to each polygon use self.set_surface_param()
-            },
+            # To add custom values to each polygon use self.set_surface_param()
+            "absorption": SurfaceParams(default=0.2),
         }
-        self.set_default_surface_paths(self.building)
 
         # Visualization parameters (plots, movies)
         self.visualization = {
@@ -74,13 +80,6 @@ class SimulationConfig:
             "hits_file": "hits_<step>.npy",
         }
 
-    def set_default_surface_paths(self, building: Building):
-        """Add all polygon paths to surface parameters and fill them with default values."""
-        poly_paths = building.get_polygon_paths()
-        for key in self.surfaces.keys():
-            for path in poly_paths:
-                self.surfaces[key][path] = self.surfaces[key]["default"]
-
     def set_surface_param(
         self,
         param_name: str,
-- 
2.43.0


From ab1563506eb4fbb1e2dbdcd58c816b72e98604b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 11/26] fix: accept an existing empty state directory

Starting a simulation failed when the state directory existed, even if it
was empty.
---
 building3d/sim/rays/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 53c2f87..9b0a376 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -93,7 +93,7 @@ class Simulation:
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From c3bac5687a8f5d7946918b572074e4e684dc62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:28 +0000
Subject: [PATCH 12/26] fix: Divide the weighted sum by the total area in the
 polygon centroid

The triangle centroids were weighted by area, but the sum was not divided by
the total. Only polygons with an area of exactly 1 got the right centroid.
---
 building3d/geom/polygon/centroid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/centroid.py b/building3d/geom/polygon/centroid.py
index fabe7fb..c072d08 100644
--- a/building3d/geom/polygon/centroid.py
+++ b/building3d/geom/polygon/centroid.py
@@ -31,4 +31,4 @@ def polygon_centroid(pts: PointType, tri: IndexType) -> PointType:
     for i in range(num_tri):
         poly_ctr += tri_ctr[i] * weights[i]
 
-    return poly_ctr
+    return poly_ctr / weights.sum()
-- 
2.43.0


From fd23b27d14994bdb605dde606826f77225033c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:28 +0000
Subject: [PATCH 13/26] fix: Flip polygons whose last corner is not convex

The normal of the flipped polygon was taken from its first corner, which is the
last corner of the original. If that corner is not convex the normal was wrong
and the points were turned back, so the polygon was not flipped at all.
---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index a99bf42..9cf72a0 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -141,7 +141,7 @@ class Polygon:
         Returns:
             Polygon
         """
-        return Polygon(self.pts[::-1].copy(), name=new_name)
+        return Polygon(self.pts[::-1].copy(), name=new_name, vn=-self.vn)
 
     def get_some_interior_point(self) -> PointType:
         """Return some point laying inside this polygon.
-- 
2.43.0


From fef586413ad0d9dd4ed1905a540699599e5a3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:28 +0000
Subject: [PATCH 14/26] fix: Keep the requested names of flipped floors and
 ceilings

A floor or ceiling that had to be flipped got a random name.
---
 building3d/geom/solid/floor_plan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/floor_plan.py b/building3d/geom/solid/floor_plan.py
index 5379756..63c5b96 100644
--- a/building3d/geom/solid/floor_plan.py
+++ b/building3d/geom/solid/floor_plan.py
@@ -104,12 +104,12 @@ def floor_plan(
     floor_poly = Polygon(floor_pts, name=floor_name)
     # Floor's normal should point downwards
     if not np.allclose(floor_poly.vn, [0, 0, -1]):
-        floor_poly = floor_poly.flip()
+        floor_poly = floor_poly.flip(new_name=floor_name)
 
     ceiling_poly = Polygon(ceiling_pts, name=ceiling_name)
     # Ceiling's normal should point upwards
     if not np.allclose(ceiling_poly.vn, [0, 0, 1]):
-        ceiling_poly = ceiling_poly.flip()
+        ceiling_poly = ceiling_poly.flip(new_name=ceiling_name)
 
     floor = Wall([floor_poly], name=floor_name)
     ceiling = Wall([ceiling_poly], name=ceiling_name)
-- 
2.43.0


From eed791a31ee2a23df34e2a749cdd1db0c132a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:28 +0000
Subject: [PATCH 15/26] fix: Stitch solids that share their names with solids
 of other zones

Finished pairs were remembered by solid name only. A pair was skipped if solids
of the same names in other zones had been stitched before.
---
 building3d/geom/building/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 9730f26..f144295 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -206,12 +206,12 @@ class Building:
                 _, z1_name, s_name = s_path.split(PATH_SEP)
                 _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
 
-                if set([s_name, adj_s_name]) not in done:
+                if set([s_path, adj_s_path]) not in done:
                     stitch_solids(
                         s1=self.zones[z1_name].solids[s_name],
                         s2=self.zones[z2_name].solids[adj_s_name],
                     )
-                    done.append(set([s_name, adj_s_name]))
+                    done.append(set([s_path, adj_s_path]))
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
-- 
2.43.0


From 974044c521df11cb0425ffae66fbb5489b192177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:28 +0000
Subject: [PATCH 16/26] fix: Replace only the sliced polygon when stitching

Polygons of the same name in other walls of the solid were replaced, too.
---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index a93eaf8..598c106 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -143,7 +143,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From 1e479243d812ee9b4251d941c23bbac6066d3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:20 +0000
Subject: [PATCH 17/26] fix: Keep the normal of polygons that are read from a
 file

Readers pass the stored points and triangles. If the first corner was not
convex, the normal taken from it pointed to the opposite side. The normal is
now taken from the first triangle.
---
 building3d/geom/polygon/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 9cf72a0..7c5b5bc 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -72,8 +72,13 @@ class Polygon:
         # If the first corner is non-convex, the normal will be wrong and triangulation will fail.
         # The first corner can be non-convex only if the normal vector is provided (argument `vn`).
         # In such a case the points are rolled forward until the first corner is convex.
-        if vn is None:
-            self.vn: VectorType = normal(self.pts[-1], self.pts[0], self.pts[1])
+        # If the triangles are given, the first one has the orientation of the polygon.
+        if vn is None and tri is not None:
+            assert len(tri) > 0, "Empty triangles provided"
+            i, j, k = tri[0]
+            self.vn: VectorType = normal(self.pts[i], self.pts[j], self.pts[k])
+        elif vn is None:
+            self.vn = normal(self.pts[-1], self.pts[0], self.pts[1])
         else:
             self.vn = vn
 
-- 
2.43.0


From fcf15624bece4980be9f23bbef0ccd4cdd31bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:23 +0000
Subject: [PATCH 18/26] fix: Return the identity matrix when points are not
 rotated

---
 building3d/geom/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 439d32d..1cf1e20 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -78,7 +78,7 @@ def rotate_points_around_vector(
     """
     if np.linalg.norm(u) < GEOM_ATOL or abs(phi) < GEOM_ATOL:
         # No need to rotate
-        return pts, np.ones((3, 3))
+        return pts, np.eye(3)
 
     # Rotate the points
     R = rotation_matrix(u, phi)
-- 
2.43.0


From c7a88913738d5fea7fc5794cfdfd807ee8bace0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:36 +0000
Subject: [PATCH 19/26] fix: Measure the distance to a polygon in the plane
 with the given normal

---
 building3d/geom/polygon/distance.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/distance.py b/building3d/geom/polygon/distance.py
index 848feda..bc768e7 100644
--- a/building3d/geom/polygon/distance.py
+++ b/building3d/geom/polygon/distance.py
@@ -5,7 +5,6 @@ from building3d.geom.points.distance import distance_point_to_edge
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import \
     is_point_inside_ortho_projection
-from building3d.geom.polygon.plane import plane_coefficients
 from building3d.geom.polygon.plane import projection_coefficients
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
@@ -35,7 +34,7 @@ def distance_point_to_polygon(
         scalar distance
     """
     # Translate polygon's to the point p
-    _, _, _, d = plane_coefficients(pts)
+    _, _, _, d = projection_coefficients(pts[0], vn)
     _, _, _, dp = projection_coefficients(ptest, vn)
 
     # Distance (sign neglected!)
-- 
2.43.0


From 314420a29e1d70cce2e3dd38370217b4707124ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:53 +0000
Subject: [PATCH 20/26] fix: Do not leave points at the origin when they need
 no rotation to a plane

---
 building3d/geom/rotation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 1cf1e20..210a2f8 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -109,16 +109,16 @@ def rotate_points_to_plane(
     # Find normal to the points
     p_norm = normal(pts[-1], pts[0], pts[1])
 
-    # Move points to anchor
-    if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
-        pts = pts - anchor
-
     # Find rotation axis
     rotaxis = np.cross(p_norm, u)
     if (np.abs(rotaxis) < GEOM_ATOL).all():
-        # No need to rotate, the points are already at the correct plane
+        # No need to rotate, only move to d
         phi = 0.0
-        return pts, rotaxis, phi
+        return pts + u * d, rotaxis, phi
+
+    # Move points to anchor
+    if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
+        pts = pts - anchor
 
     rotaxis /= np.linalg.norm(rotaxis)
 
-- 
2.43.0


From a47bf0aa732dfa30942f141bcafa0bc7fa1f8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:10 +0000
Subject: [PATCH 21/26] fix: facing and touching polygons no longer depend on
 which polygon is asked

A polygon whose points are only a part of the other polygon's points was
taken for one with the same points, so the answer changed when the two
polygons were swapped.
---
 building3d/geom/polygon/facing.py   | 2 +-
 building3d/geom/polygon/touching.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 9050489..93742d9 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -59,7 +59,7 @@ def are_polygons_facing(
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) == len(pts2):
         if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
             return True
     return False
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..b2d02ab 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -100,7 +100,7 @@ def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) == len(pts2):
         return True
     else:
         return False
-- 
2.43.0


From 73b8e8afbab2d5c356d65f84d878c9bad255450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:52 +0000
Subject: [PATCH 22/26] fix: a ray exactly at the reflection distance no longer
 stands still for good

Such a ray was neither reflected nor moved, so nothing changed in any later step.
---
 building3d/sim/rays/simulation_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..dc03415 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -229,7 +229,7 @@ def simulation_loop(
                     vn = np.zeros(3, dtype=FLOAT)
                     dist = np.inf
 
-            if energy[rn] > eps and dist > reflection_dist:
+            if energy[rn] > eps and dist >= reflection_dist:
                 position[rn] += delta_pos[rn]
             else:
                 continue
-- 
2.43.0


From da69083d4e5ea42a7833b81ea07f72b71bf745f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:54 +0000
Subject: [PATCH 23/26] fix: space impulse response times by exactly one time
 step

---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From f6af1bc1d7e4b37b70d83b26f4df79d65b3e3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:54 +0000
Subject: [PATCH 24/26] fix: make file patterns match only the names they
 generate

---
 building3d/paths/wildcardpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..41c6bae 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -216,16 +216,16 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
+        re_path = re.escape(str(Path(self.path)))
         start, stop = WildcardPath.wcard_sep
 
         for wname in self._wildcards:
-            wcard = self.wrap(wname)
+            wcard = re.escape(self.wrap(wname))
             groups = self._groups[wname]
 
             for gr in groups:
                 re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
+        re_path = "(?s:.*/)?" + re_path + r"\Z"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From 95e34e5df98c64f24f16a959589681ab3ef308b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:54 +0000
Subject: [PATCH 25/26] fix: order trail energies like the trail points in
 movies

---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..bdc4c80 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
 
             plotter.write_frame()
 
-- 
2.43.0


From b9b7a8e6bb4319575b1eb2b05e2f1b7a8874006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:54 +0000
Subject: [PATCH 26/26] fix: use the given color when a single object is
 plotted

---
 building3d/display/plot_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/display/plot_objects.py b/building3d/display/plot_objects.py
index 27a7418..6ba8993 100644
--- a/building3d/display/plot_objects.py
+++ b/building3d/display/plot_objects.py
@@ -54,7 +54,7 @@ def plot_objects(objects: tuple, output_file=None, colors=()) -> None:
         # If more than 1 object is given, use different color for each
         if len(objects) > 1 and len(colors) == 0:
             col = random_rgb_color()
-        elif len(objects) > 1 and len(colors) == len(objects):
+        elif len(colors) == len(objects):
             col = [
                 float(x) for x in colors[obj_num]
             ]  # PyVista does not handle integer colors
-- 
2.43.0

