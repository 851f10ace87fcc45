From 724b36f93fd0985f7fe131b1d7079538a0da92ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 01/39] fix: order line data along the slow axis for yx, zx and
 zy surfaces

---
 pvgridder/core/_helpers.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..0952b63 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,24 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
-        reps = (perc.size, 1)
+        # Lines vary along the slowest axis if plane axes are swapped
+        swapped = plane in {"yx", "zx", "zy"}
+
+        n = perc.size
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = (
+                np.repeat(v, n, axis=0)
+                if swapped
+                else np.tile(v, (n, 1)[: v.ndim]).copy()
+            )
 
-        reps = (perc.size - 1, 1)
+        n = perc.size - 1
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = (
+                np.repeat(v, n, axis=0)
+                if swapped
+                else np.tile(v, (n, 1)[: v.ndim]).copy()
+            )
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From eb0fefac032eb6cf0699601943690b9f82837eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 02/39] fix: do not reverse the input surface's polygons when
 extruding

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 0952b63..2de3458 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -391,7 +391,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 823de2f02e5c3765b169152c7a6190b9a60c73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 03/39] fix: do not flag thin cells far from the origin as
 collapsed

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 2de3458..e5c3d08 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -401,7 +401,7 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            is_collapsed = np.allclose(*points[faces], rtol=0.0)
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
-- 
2.43.0


From a896257bacf6dcebb40b142787a1ef12a588d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 04/39] fix: keep the shape of vector data of a single
 structured cell when repeated

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index e5c3d08..a227bc7 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -544,9 +544,10 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
+    ndim = data.ndim
+    data = data if ndim == 2 else data[:, np.newaxis]
 
-    return np.column_stack(
+    repeated_data = np.column_stack(
         [
             np.repeat(
                 v.reshape(shape, order="F"),
@@ -555,7 +556,9 @@ def repeat_structured_data(
             ).ravel(order="F")
             for v in data.T
         ]
-    ).squeeze()
+    )
+
+    return repeated_data if ndim == 2 else repeated_data[:, 0]
 
 
 def translate(
-- 
2.43.0


From 0337759aea2d4ef2064656c9d60d5b348014ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 05/39] fix: merge vector cell data of structured grids

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..710dbd5 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -970,11 +970,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape([*shape_a, *v.shape[1:]], order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    [*shape_b, *v.shape[1:]], order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From f60bf4f6724fb6bd076fa7903671f3895db63a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 06/39] fix: average all duplicate points of a mesh without
 faces

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 710dbd5..6a352c8 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -75,7 +75,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             continue
 
         point_map[group] = group[0]
-        new_points[group[0]] = points[group].mean(axis=0)
+        new_points[group] = points[group].mean(axis=0)
 
     if mesh.n_faces_strict:
         irregular_faces = [
-- 
2.43.0


From d5e981d1d34579e69d4094fa58dba822c2318704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 07/39] fix: keep labels of categorical values that are not
 remapped

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6a352c8..3836120 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1384,7 +1384,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = {k for k, v in data_labels.items() if not (data == v).any()}
 
     for k, v in mapping.items():
         if isinstance(k, str):
@@ -1405,7 +1405,6 @@ def remap_categorical_data(
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
                 data_labels[key_] = v
-                unused_labels.remove(key_)
 
             except KeyError:
                 pass
-- 
2.43.0


From 99140bfefc343ce0265ba636b22ffe74905dc718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 08/39] fix: remove empty cells when extracting cells of lower
 dimension

---
 pvgridder/utils/_misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 3836120..cb73e5c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -574,6 +574,9 @@ def extract_cells_by_dimension(
     if keep_empty_cells:
         mask |= mesh.celltypes == pv.CellType.EMPTY_CELL
 
+    else:
+        mask &= mesh.celltypes != pv.CellType.EMPTY_CELL
+
     if not mask.all():
         mesh = extract_cells(mesh, mask)
 
-- 
2.43.0


From 98f00641091d158364e857908ed54fa30430ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 09/39] fix: cut intersecting items in the stacking direction
 when stacking top to bottom

---
 pvgridder/core/_base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..1412eaf 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -449,26 +449,23 @@ class MeshStackBase(MeshBase):
             if item2.transition:
                 continue
 
+            sign = 1.0 if self.bottom_up else -1.0
             shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
+                sign * (item2.mesh.points[:, self.axis] - item1.mesh.points[:, self.axis])
                 - item2.thickness
             )
 
-            if not self.bottom_up:
-                shift *= -1.0
-
             if item2.priority < item1.priority:
                 item2.mesh.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
+                    item2.mesh.points[:, self.axis] - sign * shift,
                     item2.mesh.points[:, self.axis],
                 )
 
             else:
                 item1.mesh.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
+                    item1.mesh.points[:, self.axis] + sign * shift,
                     item1.mesh.points[:, self.axis],
                 )
 
-- 
2.43.0


From 19ab1ac9c6c9a55fd5c4d5a53454e7714863302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 10/39] fix: do not modify stack items when generating a mesh

---
 pvgridder/core/_base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 1412eaf..43a37e1 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import TYPE_CHECKING, Union, cast
 
 import numpy as np
@@ -444,8 +445,16 @@ class MeshStackBase(MeshBase):
 
         groups = {}
 
+        # Work on copies so that items can be reused
+        items = []
+
+        for item in self.items:
+            item = copy(item)
+            item._mesh = item.mesh.copy()
+            items.append(item)
+
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
+        for item1, item2 in zip(items[:-1], items[1:]):
             if item2.transition:
                 continue
 
@@ -473,7 +482,7 @@ class MeshStackBase(MeshBase):
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
+        for i, (item1, item2) in enumerate(zip(items[:-1], items[1:])):
             mesh_a = item1.mesh.copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
-- 
2.43.0


From cb83a5e0a55e197a2552599471768b51ce8567ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 11/39] fix: number columns and layers of structured grids
 along the stacking axis

---
 pvgridder/core/_base.py   | 22 ++++++++++++++++------
 pvgridder/core/extrude.py | 13 +++++++------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 43a37e1..1ec4e42 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -230,6 +230,16 @@ class MeshBase(ABC):
 
         return mesh
 
+    @staticmethod
+    def _get_layer_ids(mesh: pv.StructuredGrid, n_layers: int, axis: int) -> NDArray:
+        """Get layer IDs of a structured grid extruded along an axis."""
+        shape = [max(1, n - 1) for n in mesh.dimensions]
+        layer_shape = [1, 1, 1]
+        layer_shape[axis] = n_layers
+        layer_ids = np.arange(n_layers).reshape(layer_shape)
+
+        return np.broadcast_to(layer_ids, shape).ravel(order="F")
+
     @staticmethod
     def _get_group_number(group: str, groups: dict) -> int:
         """Get group number."""
@@ -494,15 +504,15 @@ class MeshStackBase(MeshBase):
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
 
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+            mesh_b.cell_data["LayerId"] = (
+                self._get_layer_ids(mesh_b, nsub, self.axis)
+                if isinstance(mesh_b, pv.StructuredGrid)
+                else np.repeat(np.arange(nsub), repeats)
+            ) + n_layers
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..ef2abd0 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -175,17 +175,18 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
+
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            mesh_b.cell_data["LayerId"] = (
+                self._get_layer_ids(mesh_b, nsub, mesh_a.dimensions.index(1))
+                if isinstance(mesh_b, pv.StructuredGrid)
+                else np.repeat(np.arange(nsub), mesh_a.n_cells)
+            ) + n_layers
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
-- 
2.43.0


From 0550b4d2041f134091e1d4c0bc6728b23b9a065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 12/39] fix: accept cell indices returned by a group callable
 with an inverted key

---
 pvgridder/core/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 1ec4e42..08b1678 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -154,9 +154,9 @@ class MeshBase(ABC):
 
             for k, v in group.items():
                 if hasattr(v, "__call__"):
-                    mask = v(mesh)
+                    v = v(mesh)
 
-                elif isinstance(v, str):
+                if isinstance(v, str):
                     mask = (
                         mesh.cell_data["CellGroup"] != groups[v[1:]]
                         if v.startswith("~")
-- 
2.43.0


From b9346e36f6ddf3f297a8feda9c39df4fc9408c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 13/39] fix: select groups of the base mesh with the numbering
 of the base mesh

---
 pvgridder/core/_base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 08b1678..77fbbf5 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -134,13 +134,16 @@ class MeshBase(ABC):
             size = mesh_or_size
 
         arr = np.full(size, -1, dtype=int)
+        base_groups = groups
 
         if (
             mesh is not None
             and "CellGroup" in mesh.cell_data
             and "CellGroup" in mesh.user_dict
         ):
-            for k, v in mesh.user_dict["CellGroup"].items():
+            base_groups = dict(mesh.user_dict["CellGroup"])
+
+            for k, v in base_groups.items():
                 if k in self.ignore_groups:
                     continue
 
@@ -158,9 +161,9 @@ class MeshBase(ABC):
 
                 if isinstance(v, str):
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != base_groups[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == base_groups[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
@@ -170,9 +173,9 @@ class MeshBase(ABC):
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != base_groups[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == base_groups[cid]
                         )
 
                 else:
-- 
2.43.0


From 21d38893722f38aa590ffe53f116b9a78be284eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 14/39] fix: do not overwrite the groups of the items when
 merging

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From deeeae3e528b393b53fb3c30edfcc7f04238e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 15/39] fix: do not modify the rotation angles passed to
 add_plane

---
 pvgridder/core/stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..34098b7 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,7 +207,7 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles, dtype=float)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
-- 
2.43.0


From 251ef7ad2992330b526bce02a0b622a73a787754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 16/39] fix: keep an offset polygon in its plane

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index cb73e5c..6a04eeb 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1130,6 +1130,7 @@ def offset_polygon(
         # Simple polygon offset algorithm
         # Vectorized version of C# code
         # <https://stackoverflow.com/a/73061541/9729313>
+        offset = points[0, axis]
         points = points[:, ~mask]
         points = np.vstack(
             (
@@ -1156,7 +1157,7 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        points_ += np.insert(points, axis, offset, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From 514253bd531cb7ff946eae42f3d224871a418e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 17/39] fix: determine the orientation of a polygon to offset
 regardless of its position

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6a04eeb..7ae3949 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1140,7 +1140,7 @@ def offset_polygon(
             ),
         )
 
-        x, y = points.T
+        x, y = (points[1:] - points[0]).T
         signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
 
         vn = points[2:] - points[1:-1]
-- 
2.43.0


From dc19d26b158ae279bebd8e262bb0d3ce9f18e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 18/39] fix: always return at least two original cell IDs per
 extracted edge or face

---
 pvgridder/utils/_misc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 7ae3949..34d0296 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -341,7 +341,8 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
+        n_ids = max(2, len(max(cell_ids, key=len)))
+        tmp = -np.ones((len(cell_ids), n_ids), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -412,7 +413,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : max(2, (tmp != -1).sum(axis=1).max(initial=0))]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -472,7 +473,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : max(2, (tmp != -1).sum(axis=1).max(initial=0))]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From 616aea0f612ea5a5de923123d2afc1f1c6d4e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 19/39] fix: support meshes with edges or faces shared by one
 or more than two cells

---
 pvgridder/utils/_connectivity.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..2b31e4d 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from itertools import combinations
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,12 +38,10 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
-        neighbors[i1].append(i2)
-        neighbors[i2].append(i1)
+    for ids in mesh["vtkOriginalCellIds"]:
+        for i1, i2 in combinations(ids[ids != -1], 2):
+            neighbors[i1].append(i2)
+            neighbors[i2].append(i1)
 
     return tuple([np.asanyarray(neighbor) for neighbor in neighbors])
 
@@ -82,7 +81,11 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [
+        (2, i1, i2)
+        for ids in mesh["vtkOriginalCellIds"]
+        for i1, i2 in combinations(ids[ids != -1], 2)
+    ]
+    lines = np.ravel(lines).astype(int)
 
     return pv.PolyData(cell_centers, lines=lines)
-- 
2.43.0


From 514582a5f454e1ed101e6df5ed3d70263dfe1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 20/39] fix: reject non positive radii of rectangle sectors

---
 pvgridder/core/geometric_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..f8d3efd 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -834,7 +834,7 @@ def RectangleSector(
         Rectangle mesh with sector removed at the center.
 
     """
-    if 0.0 < radius < (dx**2 + dy**2) ** 0.5:
+    if radius < (dx**2 + dy**2) ** 0.5:
         raise ValueError("invalid sector radius")
 
     line_x = generate_line_from_two_points([dx, dy], [0.0, dy], x_resolution, x_method)
-- 
2.43.0


From 7b85dd8594cce436e5a43ac184a48a04f4af894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 21/39] fix: subdivide the arc of sector rectangles with the
 azimuthal method

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index f8d3efd..12cbfcb 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From c5521c5db165a1dee0375ffbabe46cb65759579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 22/39] fix: orient Voronoi polygons with the signed area of
 the whole polygon

---
 pvgridder/core/voronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..54186c1 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -474,7 +474,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -509,7 +509,7 @@ class VoronoiMesh2D(MeshBase):
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-        x, y = points.T
+        x, y = (points - points[:1]).T
 
         return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
 
-- 
2.43.0


From b5243aa6143e94631f416044850f31d5a2c72a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 23/39] fix: ignore Voronoi items with all their points out of
 the background mesh

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 54186c1..e8e03b0 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From d1df8e6288543c608476b311a05c23d39f77a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 24/39] fix: stop reconstructing a line when its length does
 not decrease

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 34d0296..15db2da 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1324,7 +1324,7 @@ def reconstruct_line(
                         path[first:last]
                     )  # reset path to current shortest path
 
-        if shortest_length > (1.0 - tolerance) * best_length:
+        if shortest_length >= (1.0 - tolerance) * best_length:
             break
 
     points = points[shortest_path]
-- 
2.43.0


From c080ef74832c63d155cb83652bd6e300808edb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 25/39] fix: reconstruct a line from any dataset

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 15db2da..d634756 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1285,7 +1285,7 @@ def reconstruct_line(
         Reconstructed line.
 
     """
-    if isinstance(mesh_or_points, pv.PolyData):
+    if isinstance(mesh_or_points, pv.DataSet):
         points = mesh_or_points.points
 
     else:
-- 
2.43.0


From df8f889e64da01fcb7153de67fd9e0dcfd4307a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 26/39] fix: dimension of convex point sets

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..eb718c4 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -315,7 +315,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From c65e5c4bc5be85a18fe1eda6656052ae5b2b2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:38 +0000
Subject: [PATCH 27/39] fix: orient polyhedra extruded from polygons with
 collinear or reflex vertices

---
 pvgridder/core/_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index a227bc7..015c7e4 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -407,10 +407,10 @@ def generate_volume_from_two_surfaces(
                 if invert_polyhedron_faces:
                     # Polyhedron faces must be ordered such that normal vectors point outwards
                     # Determine whether base face needs to be reversed
-                    p0, p1, p2 = points[faces[0][:3]]
-                    p3 = points[faces[1][0]]
+                    p0, p1 = points[faces]
+                    normal = np.cross(p0 - p0[0], np.roll(p0, -1, axis=0) - p0[0])
 
-                    if np.cross(p1 - p0, p2 - p0) @ (p3 - p0) >= 0.0:
+                    if normal.sum(axis=0) @ (p1 - p0).sum(axis=0) >= 0.0:
                         faces[0][:] = faces[0][::-1]
                         faces[1][:] = faces[1][::-1]
 
-- 
2.43.0


From 01e9a818a83b0a361482991024d9ab5246b2c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:38 +0000
Subject: [PATCH 28/39] fix: hide collapsed cells of non-planar structured
 surfaces

---
 pvgridder/core/_helpers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 015c7e4..e3bae43 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -353,6 +353,16 @@ def generate_volume_from_two_surfaces(
         ).cell_data["Volume"]
         inactive = np.abs(volumes) == 0.0
 
+        # Volumes of collapsed cells are not zero if their faces are not planar
+        shape = (*mesh.dimensions, 3)
+        gaps = np.diff(mesh.points.reshape(shape, order="F"), axis=axis)
+        collapsed = (gaps == 0.0).all(axis=-1)
+
+        for i in {0, 1, 2}.difference({axis}):
+            collapsed = np.delete(collapsed, -1, i) & np.delete(collapsed, 0, i)
+
+        inactive |= collapsed.ravel(order="F")
+
         # Repeat data
         shape = surface_a.dimensions
         for k, v in surface_a.point_data.items():
-- 
2.43.0


From 2ed13554d163221d73381e720fc9ff333b224aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:14 +0000
Subject: [PATCH 29/39] fix: interpolate stack lines from points in any order

---
 pvgridder/core/_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 77fbbf5..b04ef1b 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -566,13 +566,11 @@ class MeshStackBase(MeshBase):
 
         else:
             idx = idx[0]
+            points = points[np.argsort(points[:, idx], kind="stable")]
             x = mesh.points[:, idx]
             xp = points[:, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if not (xp[0] <= x.min() and x.max() <= xp[-1]) and not extrapolation:
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
-- 
2.43.0


From 37d24499370b3d0f48c3bf9b850af1afec6f8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 30/39] fix: do not modify the mesh when extracting cells

---
 pvgridder/utils/_misc.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index d634756..f91b08e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -511,21 +511,18 @@ def extract_cells(
 
     """
     ind = np.asanyarray(ind)
+
+    # Work on a shallow copy as VTK adds original IDs to the input mesh
+    mesh = mesh.copy(deep=False)
     ghost_cells = (
         mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
     )
+    cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-    try:
-        cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
-
-        if ghost_cells is not None:
-            cells.cell_data["vtkGhostType"] = ghost_cells[
-                cells.cell_data["vtkOriginalCellIds"]
-            ]
-
-    finally:
-        if ghost_cells is not None:
-            mesh.cell_data["vtkGhostType"] = ghost_cells
+    if ghost_cells is not None:
+        cells.cell_data["vtkGhostType"] = ghost_cells[
+            cells.cell_data["vtkOriginalCellIds"]
+        ]
 
     return cast(pv.UnstructuredGrid, cells)
 
-- 
2.43.0


From f782074f6d88cdefa25228313cc3247f453c0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 31/39] fix: report unsupported 3D cell types when extracting
 geometry

---
 pvgridder/utils/_misc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f91b08e..df041a7 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -420,8 +420,11 @@ def extract_cell_geometry(
 
     else:
         # Generate face data
-        if np.ptp(celltypes) == 0:
-            celltype = celltypes[0]
+        celltype = celltypes[0]
+
+        if np.ptp(celltypes) == 0 and (
+            celltype in _celltype_to_faces or celltype == pv.CellType.POLYHEDRON
+        ):
             cell_faces = (
                 [
                     [
@@ -454,7 +457,7 @@ def extract_cell_geometry(
 
                 else:
                     raise NotImplementedError(
-                        f"cells of type '{celltype.name}' are not supported yet"
+                        f"cells of type '{pv.CellType(celltype).name}' are not supported yet"
                     )
 
                 cell_faces.append(cell_face)
-- 
2.43.0


From 7c558b37a2321026d66d3b611fc6bab4c5895d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 32/39] fix: intersect polylines starting or ending inside a
 mesh

---
 pvgridder/utils/_misc.py | 79 ++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index df041a7..c1e3b21 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -745,18 +745,36 @@ def intersect_polyline(
     for lid, (pointa, pointb) in enumerate(zip(lines.points[:-1], lines.points[1:])):
         # Find the first cell intersected by the line
         if cell is None:
-            ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
+            cid = mesh.find_containing_cell(pointa)
 
-            if ids.size == 0:
-                add_point(pointb, lid, -1)
-                continue
+            if cid == -1:
+                ids = np.sort(
+                    mesh.find_cells_intersecting_line(
+                        pointa, pointb, tolerance=tolerance
+                    )
+                )
+
+                if ids.size == 0:
+                    add_point(pointb, lid, -1)
+                    continue
+
+                # Start from the cell that is entered first
+                entries = [
+                    ray_cast(
+                        extract_cells(mesh, id_), pointa, pointb, tolerance=tolerance
+                    )
+                    for id_ in ids
+                ]
+                distances = [
+                    np.linalg.norm(
+                        entry.cell_data["IntersectionPoints"] - pointa, axis=-1
+                    ).min()
+                    if entry is not None
+                    else np.inf
+                    for entry in entries
+                ]
+                cid = ids[np.argmin(distances)]
 
-            ids = np.sort(ids)
-            id_ = np.linalg.norm(
-                get_cell_centers(extract_cells(mesh, ids)) - pointa,
-                axis=-1,
-            ).argmin()
-            cid = ids[id_]
             cell = extract_cells(mesh, cid)
 
         if not mesh_exited:
@@ -776,32 +794,29 @@ def intersect_polyline(
 
                 # Either an entrance or an exit
                 elif intersections.n_cells == 1:
-                    # It's an entrance if intersection point matches previous point
-                    if not mesh_entered or np.allclose(
-                        points[-1],
-                        intersections.cell_data["IntersectionPoints"][0],
-                        atol=tolerance,
-                    ):
-                        if not mesh_entered:
+                    if not mesh_entered:
+                        mesh_entered = True
+
+                        # It's an entrance if the line does not start in the cell
+                        if cell.find_containing_cell(pointa) == -1:
                             count = len(points)
-                            mesh_entered = True
                             add_point(
                                 intersections.cell_data["IntersectionPoints"][0],
                                 lid,
                                 -1,
                             )
-
-                            if count > 1:
-                                break
-
-                        else:
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                int(cid),
-                            )
                             break
 
+                    # It's an entrance if intersection point matches previous point
+                    if (
+                        np.linalg.norm(
+                            intersections.cell_data["IntersectionPoints"][0]
+                            - points[-1]
+                        )
+                        < min_length
+                    ):
+                        break
+
                     fid = 0
 
                 # The exit is the farthest from last point
@@ -865,6 +880,14 @@ def intersect_polyline(
                     add_point(pointb, lid, cid)
                     break
 
+            # Add last point of the polyline if it is inside the last cell
+            if (
+                lid == lines.n_lines - 1
+                and not mesh_exited
+                and cell.find_containing_cell(pointb) > -1
+            ):
+                add_point(pointb, lid, int(cid))
+
         else:
             if ignore_points_after_exit:
                 break
-- 
2.43.0


From ca7c680525c620ecb6d33de0409841f0945b7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 33/39] fix: compare the interfaces of structured grids up to
 single precision

---
 pvgridder/utils/_misc.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c1e3b21..10d0625 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -946,14 +946,19 @@ def merge(
         if axis is None:
             raise ValueError("could not merge structured grids with None axis")
 
+        # Interfaces are compared up to single precision
+        atol = 1.0e-8 + 1.0e-6 * np.max(
+            [np.abs(mesh.points).max(axis=0) for mesh in dataset], axis=0
+        )
+
         mesh_a = dataset[0]
 
         for mesh_b in dataset[1:]:
             if axis == 0:
                 if not (
-                    np.allclose(mesh_a.x[-1], mesh_b.x[0])
-                    and np.allclose(mesh_a.y[-1], mesh_b.y[0])
-                    and np.allclose(mesh_a.z[-1], mesh_b.z[0])
+                    np.allclose(mesh_a.x[-1], mesh_b.x[0], atol=atol[0])
+                    and np.allclose(mesh_a.y[-1], mesh_b.y[0], atol=atol[1])
+                    and np.allclose(mesh_a.z[-1], mesh_b.z[0], atol=atol[2])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching east and west interfaces"
@@ -963,9 +968,9 @@ def merge(
 
             elif axis == 1:
                 if not (
-                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0])
-                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])
-                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0])
+                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0], atol=atol[0])
+                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0], atol=atol[1])
+                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0], atol=atol[2])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching north and south interfaces"
@@ -975,9 +980,9 @@ def merge(
 
             else:
                 if not (
-                    np.allclose(mesh_a.x[..., -1], mesh_b.x[..., 0])
-                    and np.allclose(mesh_a.y[..., -1], mesh_b.y[..., 0])
-                    and np.allclose(mesh_a.z[..., -1], mesh_b.z[..., 0])
+                    np.allclose(mesh_a.x[..., -1], mesh_b.x[..., 0], atol=atol[0])
+                    and np.allclose(mesh_a.y[..., -1], mesh_b.y[..., 0], atol=atol[1])
+                    and np.allclose(mesh_a.z[..., -1], mesh_b.z[..., 0], atol=atol[2])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching top and bottom interfaces"
-- 
2.43.0


From e9dbd92c31aba66c421b22bcae82774298f4ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 34/39] fix: identify outlines nested in holes of boundary
 polygons

---
 pvgridder/utils/_misc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 10d0625..f3b3782 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import itertools
 from collections.abc import Sequence
 from typing import TYPE_CHECKING, cast, overload
 
@@ -254,14 +253,16 @@ def extract_boundary_polygons(
         holes = {}
         polygons = [shapely.Polygon(edge.points) for edge in edges]
 
-        for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
+        for j, polygon in enumerate(polygons):
+            parents = [
+                i
+                for i, parent in enumerate(polygons)
+                if parent.area > polygon.area and parent.contains(polygon)
+            ]
 
-            if polygons[i].area > polygons[j].area and polygons[i].contains(
-                polygons[j]
-            ):
-                holes[j] = i
+            # A polygon nested in a hole is another outline
+            if len(parents) % 2 == 1:
+                holes[j] = min(parents, key=lambda i: polygons[i].area)
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From 25ab10e49e2608743e7f2d455dfe913291a3c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:41 +0000
Subject: [PATCH 35/39] fix: place circles of a Voronoi mesh in the plane of
 the background mesh

Circles were generated in the xy plane whatever the axis of the Voronoi
mesh (and collapsed to a line for axes 0 and 1), and a center off the
plane of the mesh made plain circles fail.
---
 pvgridder/core/voronoi.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index e8e03b0..c61f680 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -145,25 +145,36 @@ class VoronoiMesh2D(MeshBase):
         )
         dr = constraint_radius - radius
 
+        # Project center onto the plane of the background mesh
+        center = np.zeros(3) if center is None else np.asanyarray(center)
+        center = np.delete(center, self.axis) if len(center) == 3 else center
+        center = np.insert(np.asarray(center, dtype=float), self.axis, 0.0)
+
+        def to_plane(mesh):
+            """Move mesh from xy plane to the plane of the background mesh."""
+            mesh.points = np.insert(mesh.points[:, :2], self.axis, 0.0, axis=1) + center
+
+            return mesh
+
         if dr > 0.0:
             self.add(
-                (
+                to_plane(
                     MeshMerge()
-                    .add(Circle(radius - dr, resolution, center=center))
-                    .add(Annulus(radius - dr, radius, 1, resolution, center=center))
+                    .add(Circle(radius - dr, resolution))
+                    .add(Annulus(radius - dr, radius, 1, resolution))
                     .generate_mesh()
                 ),
                 priority=priority,
                 group=group,
             )
             self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
+                to_plane(Annulus(radius, radius + dr, 1, resolution)),
                 priority=0,
             )
 
         elif dr == 0.0:
             self.add(
-                Circle(radius, resolution, center=center),
+                to_plane(Circle(radius, resolution)),
                 priority=priority,
                 group=group,
             )
@@ -172,8 +183,6 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
-            center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
             self.fuse_cells.append(
                 lambda x: np.linalg.norm(x - center, axis=1) < radius
             )
-- 
2.43.0


From 83b755ba5505181695d3b5c940dfc9652469272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:37 +0000
Subject: [PATCH 36/39] fix: find the holes of boundary polygons of meshes flat
 along x or y

The outlines were compared in the xy plane whatever the plane of the mesh,
so that holes were reported as outlines of their own, and ignored in Voronoi
meshes with axis 0 or 1.
---
 pvgridder/utils/_misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f3b3782..3129c5d 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -251,7 +251,12 @@ def extract_boundary_polygons(
     # Identify holes
     if with_holes:
         holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
+        # Discard the axis normal to the mesh (z if the mesh is not flat)
+        extent = np.ptp(mesh.points, axis=0)
+        axis = extent.argmin() if extent.min() < 1.0e-8 * extent.max() else 2
+        polygons = [
+            shapely.Polygon(np.delete(edge.points, axis, axis=1)) for edge in edges
+        ]
 
         for j, polygon in enumerate(polygons):
             parents = [
-- 
2.43.0


From b3bf09d5e0b9b563310e7cb5de909e18691824f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:37 +0000
Subject: [PATCH 37/39] fix: default group of the Voronoi mesh for circles
 without group

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c61f680..01d210a 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -159,7 +159,7 @@ class VoronoiMesh2D(MeshBase):
         if dr > 0.0:
             self.add(
                 to_plane(
-                    MeshMerge()
+                    MeshMerge(self.default_group)
                     .add(Circle(radius - dr, resolution))
                     .add(Annulus(radius - dr, radius, 1, resolution))
                     .generate_mesh()
-- 
2.43.0


From ca153013665b6d1e13a3eed620a0b3ff92ff0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:02 +0000
Subject: [PATCH 38/39] fix: VoronoiMesh2D.add does not change the point array
 passed to it

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 01d210a..38c8f3b 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -85,7 +85,7 @@ class VoronoiMesh2D(MeshBase):
 
         """
         if not isinstance(mesh_or_points, pv.DataSet):
-            mesh_or_points = self._check_point_array(mesh_or_points)
+            mesh_or_points = self._check_point_array(mesh_or_points).copy()
             mesh = pv.PolyData(mesh_or_points)
 
         else:
-- 
2.43.0


From 3baf1b7e27f634c702845ec885b390990a330bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:44 +0000
Subject: [PATCH 39/39] fix: average points of a mesh whose polygons all
 collapse

---
 pvgridder/utils/_misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 3129c5d..0a8fc66 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -81,7 +81,11 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             decimate(point_map[face], close=True) for face in mesh.irregular_faces
         ]
         faces = [face for face in irregular_faces if face.size > 2]
-        new_mesh = pv.PolyData().from_irregular_faces(new_points, faces)
+        new_mesh = (
+            pv.PolyData().from_irregular_faces(new_points, faces)
+            if faces
+            else pv.PolyData(new_points, faces=np.empty(0, dtype=int))
+        )
         new_mesh.cell_data["vtkOriginalCellIds"] = [
             i for i, face in enumerate(irregular_faces) if face.size > 2
         ]
-- 
2.43.0

