From 123993ccbab7b37abc7522f67ce8ecfa65ba6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 01/43] fix: do not lose an event scheduled at the current tick
 between ticks

---
 src/repast4py/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..6cb3d86 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -303,7 +303,7 @@ class Schedule:
         if at >= self.tick:
             self.last_count = next(self.counter)
             evt.order_idx = self.last_count
-            if at == self.tick:
+            if at == self.tick and self.executing_group.executing:
                 self.executing_group.add_evt(evt)
             else:
                 heapq.heappush(self.queue, (at, self.last_count, evt))
-- 
2.43.0


From cca14a747f1e7f625ed3cd8cab00ae9bbed84966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 02/43] fix: keep the priority order when events added during
 execution re-sort a tick

---
 src/repast4py/schedule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 6cb3d86..7fdf356 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,12 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # When this is a re-sort, after events were added during execution,
+        # the not yet executed random events are in prioritized. They have no
+        # meaningful priority to sort by, so take them out first.
+        self.random.extend(evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM)
+        self.prioritized = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From 4c96c465bdd202b522d23962b580248f856f020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 03/43] fix: ranks with an empty schedule no longer block the
 others, nor end never

---
 src/repast4py/schedule.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 7fdf356..7cfe893 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -620,9 +620,15 @@ class SharedScheduleRunner:
         """Executes this SharedSchedule by repeatedly popping the next scheduled events off the queue and
         executing them.
         """
+        self.next_tick = self.schedule.next_tick()
         while self.go:
-            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
-            if self.next_tick == global_next_tick:
+            # A rank with nothing scheduled (a next tick of -1) must not hold back the others.
+            next_tick = self.next_tick if self.next_tick >= 0 else float('inf')
+            global_next_tick = self.comm.allreduce(next_tick, op=MPI.MIN)
+            if global_next_tick == float('inf'):
+                # nothing is left to execute on any rank
+                break
+            if next_tick == global_next_tick:
                 self.schedule.execute()
             self.next_tick = self.schedule.next_tick()
 
-- 
2.43.0


From d2615ee8fb87d8b316bc10614aab71c147489374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 04/43] fix: adding an agent a space already contains keeps its
 location

---
 src/repast4py/space.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..16b3646 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,6 +94,14 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    auto iter = agent_map.find(agent->aid);
+    if (iter != agent_map.end()) {
+        // already in this space: keep its location
+        if (iter->second->agent == agent) return true;
+        // same id, but a different agent object: the new one replaces the old
+        remove(agent->aid);
+    }
+
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
-- 
2.43.0


From f84fb44343b55796e8d4a9185e55d1926420a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 05/43] fix: index 1D continuous spaces instead of crashing on
 the first move

---
 src/repast4py/SpatialTree.h | 4 +---
 src/repast4py/cspace.h      | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..4a16c9a 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -599,9 +599,7 @@ SpatialTree<BoxType, PointType, AccessorType>::SpatialTree(int threshold, const
     threshold_{threshold},  loc_map_{loc_map} {
 
     NodePoint min(box.xmin_, box.ymin_, box.zmin_);
-    if (box.num_dims == 1) {
-        // TODO 
-    } else if (box.num_dims == 2) {
+    if (box.num_dims <= 2) {
         root = std::make_shared<Composite2DNode<BoxType, PointType, AccessorType>>(min, box.x_extent_, box.y_extent_);
     } else if (box.num_dims == 3) {
         // std::cout << box.xmin_ << "," << box.ymin_ << "," << box.zmin_ << "," << box.z_extent_ << std::endl;
diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index cdb1e32..fd7aca4 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -47,9 +47,8 @@ BaseCSpace<AccessorType, BorderType>::BaseCSpace(const std::string& name, const
     //using Tree2DType = CPSpatialTreeImpl<SpatialTree<Box2D, R4Py_ContinuousPoint, AccessorType>>;
     // using Tree3DType = CPSpatialTreeImpl<SpatialTree<Box3D, R4Py_ContinuousPoint, AccessorType>>;
 
-    if (bounds.num_dims == 1) {
-        // TODO 
-    } else if (bounds.num_dims == 2) {
+    // a 1D space is indexed as a 2D one with a y extent of 0
+    if (bounds.num_dims <= 2) {
         spatial_tree = std::unique_ptr<CPSpatialTree>(new CPSpatialTreeImpl<SpatialTree<Box2D, R4Py_ContinuousPoint,
             AccessorType>>(tree_threshold, bounds, &location_map));
     } else if (bounds.num_dims == 3) {
-- 
2.43.0


From fc841c59b3c0ef3be38ffdfcd2cbf0a3f34fef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 06/43] fix: periodic borders keep unused coordinates and
 rounded values within the bounds

---
 src/repast4py/borders.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..ebeb6f9 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,13 +90,24 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+// wraps v into [min, max), where max = min + extent
+template <typename CoordType>
+CoordType wrap(CoordType v, long_t min, long_t max, long_t extent) {
+    if (v >= min && v < max) return v;
+    CoordType nc = fmod(v - min, extent);
+    CoordType wrapped = nc < 0 ? max + nc : min + nc;
+    // rounding a tiny continuous nc can result in max
+    return wrapped < max ? wrapped : (CoordType)min;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -104,11 +115,9 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -116,14 +125,9 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
-
-    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
-    transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = wrap<coord_type>(data[2], bounds.zmin_, bounds.zmax_, bounds.z_extent_);
 }
 
 template<typename PointType>
-- 
2.43.0


From d04b4f312a3eb0ccc7e9d8ee553edb4066f17ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 07/43] fix: sticky borders stay within the bounds of large
 continuous spaces

---
 src/repast4py/borders.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index ebeb6f9..d4af27d 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -7,6 +7,10 @@
 #ifndef SRC_BORDERS_H
 #define SRC_BORDERS_H
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "types.h"
 #include "geometry.h"
 
@@ -49,6 +53,16 @@ struct Offset<R4Py_ContinuousPoint> {
     constexpr static double value = 0.00000001;
 };
 
+// the largest coordinate within the upper bound, max, which is exclusive
+inline long_t upper_coord(long_t max, long_t offset) {
+    return max - offset;
+}
+
+inline double upper_coord(double max, double offset) {
+    // max - offset is max when max is too large
+    return std::min(max - offset, std::nextafter(max, std::numeric_limits<double>::lowest()));
+}
+
 template <typename PointType>
 void StickyBorders<PointType>::transform(const PointType* pt, PointType* transformed_pt) {
     coord_type* data = (coord_type *)PyArray_DATA(pt->coords);
@@ -64,9 +78,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, PointType* transfo
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min(upper_coord((coord_type)bounds_.xmax_, Offset<PointType>::value), data[0]));
+    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min(upper_coord((coord_type)bounds_.ymax_, Offset<PointType>::value), data[1]));
+    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min(upper_coord((coord_type)bounds_.zmax_, Offset<PointType>::value), data[2]));
 }
 
 template<typename PointType>
@@ -82,9 +96,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min(upper_coord((coord_type)bounds_.xmax_, Offset<PointType>::value), data[0]));
+    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min(upper_coord((coord_type)bounds_.ymax_, Offset<PointType>::value), data[1]));
+    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min(upper_coord((coord_type)bounds_.zmax_, Offset<PointType>::value), data[2]));
 }
 
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
-- 
2.43.0


From 33ae147f4f45b416170ced0d92d77f41216e920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 08/43] fix: index coincident agents of a continuous space by a
 copy of their location

---
 src/repast4py/SpatialTree.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 4a16c9a..0769f1b 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -117,8 +117,11 @@ void MOItems<PointType>::add(PointType* pt) {
     auto iter = point_counts.find(pt);
     if (iter == point_counts.end()) {
         ++sum;
-        Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
+        // use a copy as the key: the coordinates of pt, an agent's location,
+        // change when that agent moves
+        Point<PointType> coords;
+        extract_coords(pt, coords);
+        point_counts.emplace(create_point(Py_TYPE(pt), coords), 1);
     } else {
         ++(iter->second);
     }
@@ -143,14 +146,18 @@ bool MOItems<PointType>::remove(PointType* pt) {
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
     for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+        for (size_t i = 0; i < kv.second; ++i) {
+            node->addItem(kv.first, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
     for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+        for (size_t i = 0; i < kv.second; ++i) {
+            node->addItem(kv.first, threshold);
+        }
     }
 }
 
-- 
2.43.0


From befff91468074d90db42f76ad0fd17c6be786ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 09/43] fix: every buffered area of a shared value layer gets
 its own values, in the right place

---
 src/repast4py/value_layer.py | 180 ++++++++++++-----------------------
 1 file changed, 60 insertions(+), 120 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..1674992 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -4,6 +4,7 @@
 # By: Argonne National Laboratory
 # License: BSD-3 - https://github.com/Repast/repast4py/blob/master/LICENSE.txt
 
+import itertools
 import torch
 import numpy as np
 
@@ -426,34 +427,10 @@ def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
     of the metadata (data used to synchronize among ranks) arrays is different. This
     computes the size of the arrays.
     """
-    if num_slices == 1:
-        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
-    elif num_slices == 2:
-        # return meta_data[:, 0] + meta_data[:, offset]
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims]) + np.prod(row[offset: offset + num_dims]), 1, meta_data)
-    elif num_slices == 3:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims]),
-            1, meta_data)
-    elif num_slices == 4:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims]),
-            1, meta_data)
-    elif num_slices == 6:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims])
-            + np.prod(row[offset * 4: offset * 4 + num_dims])
-            + np.prod(row[offset * 5: offset * 5 + num_dims]),
-            1, meta_data)
+    counts = np.zeros(meta_data.shape[0], dtype=meta_data.dtype)
+    for i in range(num_slices):
+        counts += np.prod(meta_data[:, offset * i: offset * i + num_dims], axis=1, dtype=meta_data.dtype)
+    return counts
 
 
 class SharedValueLayer(ValueLayer):
@@ -504,22 +481,19 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
-
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
-        self.buffer_self = []
-        if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
+        # the bounds covered by the grid: the local bounds together with the buffers
+        lb, offsets = self.local_bounds, self.non_buff_grid_offsets
+        grid_bounds = BoundingBox(lb.xmin - offsets[0], lb.xextent + offsets[0] + offsets[1],
+                                  lb.ymin - offsets[2], lb.yextent + offsets[2] + offsets[3], 0, 0)
 
-            if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
-                self.buffer_self.append(self._buffer_self_X)
+        super().__init__(grid_bounds, borders, 'random', dtype)
 
+        self.buffer_self = []
+        if self.periodic and comm.Get_size() > 1 and buffer_size > 0:
             if len(self.procs_per_dim) == 2:
                 if self.procs_per_dim[0] == 1:
                     self.buffer_self.append(self._buffer_self_X)
@@ -528,7 +502,7 @@ class SharedValueLayer(ValueLayer):
         self._init_value(init_value, nd)
         self._buffer_self()
 
-        if comm.Get_size() > 1:
+        if comm.Get_size() > 1 and buffer_size > 0:
             self._init_sync_data(nd, topo, buffer_size)
             comm.Barrier()
             self._synch_ghosts()
@@ -572,25 +546,37 @@ class SharedValueLayer(ValueLayer):
         for func in self.buffer_self:
             func()
 
-    def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
-        if procs_per_dim > 1:
-            if start_val < 0:
-                start_val += full_extent
-                end_val += full_extent
-            elif start_val >= full_extent:
-                start_val -= full_extent
-                end_val -= full_extent
-
-        elif start_val == local_extent and self.periodic:
-            start_val = start_val + self.buffer_size
-            end_val = end_val + self.buffer_size
+    def _compute_buffer_slices(self, mins, maxs, used):
+        """Computes the slices of the part of this value layer's buffer that is
+        filled with the values in the specified (global) bounds.
 
-        return (start_val, end_val)
+        Args:
+            mins: the minimums, in pytorch order, of the bounds to get the slices for
+            maxs: the maximums (exclusive), in pytorch order, of the bounds to get the slices for
+            used: the previously computed slices
+        """
+        lb, offsets = self.local_bounds, self.non_buff_grid_offsets
+        dims = [(lb.xmin, lb.xextent, offsets[0], offsets[1], self.full_bounds.xextent),
+                (lb.ymin, lb.yextent, offsets[2], offsets[3], self.full_bounds.yextent)][:len(mins)]
+        options = []
+        for (lmin, extent, before, after, full_extent), bmin, bmax in zip(reversed(dims), mins, maxs):
+            # the candidates are the local bounds and the buffers before and after them
+            candidates = [(lmin - before, before), (lmin, extent), (lmin + extent, after)]
+            options.append([slice(int(start - lmin + before), int(start - lmin + before + size))
+                            for start, size in candidates
+                            if size == bmax - bmin and (start - bmin) % full_extent == 0])
+        local = tuple(slice(int(before), int(before + extent)) for _, extent, before, _, _ in reversed(dims))
+        for slices in itertools.product(*options):
+            if slices != local and slices not in used:
+                used.append(slices)
+                return slices
+
+        raise ValueError('Buffered data is not in the buffer of this value layer')
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
+        xmin, xextent = bounds.xmin, 0
+        ymin, yextent = bounds.ymin, 0
+        zmin, zextent = bounds.zmin, 0
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
@@ -685,7 +671,8 @@ class SharedValueLayer(ValueLayer):
         ngh_buffers.sort(key=lambda data: data[0])
         buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
 
-        data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
+        # a neighbor can be both before and after this rank
+        data_size = 6
 
         num_procs = self.cart_comm.Get_size()
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -717,27 +704,14 @@ class SharedValueLayer(ValueLayer):
         recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
         recv_buf_data = []
 
+        used = []
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             slice_data = []
             if data[0] != 0:
-                row = data[1] + r_trans
-                # origin + extent
-                stop_row = row + (data[2] - data[1])
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
+                for idx in range(0, data_size, offset):
                     if data[idx] != 0:
-                        row = data[idx + 1] + r_trans
-                        # origin + extent
-                        stop_row = row + (data[idx + 2] - data[idx + 1])
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                              self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
-                    else:
-                        break
+                        slices = self._compute_buffer_slices(data[idx + 1:idx + 2], data[idx + 2:idx + 3], used)
+                        slice_data.append((ngh_rank, data[idx], data[idx], slices))
             if len(slice_data) > 0:
                 recv_buf_data.append(slice_data)
 
@@ -769,15 +743,8 @@ class SharedValueLayer(ValueLayer):
         num_procs = self.cart_comm.Get_size()
 
         offset = 6
-        data_size = offset
-        if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
+        # a neighbor can be in all the directions from this rank
+        data_size = offset * 8
 
         # send buffer for meta data (bounds etc.)
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -807,47 +774,15 @@ class SharedValueLayer(ValueLayer):
         recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
         recv_buf_data = []
 
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
+        used = []
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
             slice_data = []
             if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
-                # origin + extent
-                stop_row = row + (data[3] - data[2])
-                stop_col = col + (data[5] - data[4])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
-                                                      self.procs_per_dim[1])
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
+                for idx in range(0, data_size, offset):
                     if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
-                        # origin + extent
-                        stop_row = row + (data[idx + 3] - data[idx + 2])
-                        stop_col = col + (data[idx + 5] - data[idx + 4])
-
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
-                                                              self.local_bounds.yextent, self.procs_per_dim[1])
-                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
-                                                              self.local_bounds.xextent, self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
-                                          (slice(row, stop_row), slice(col, stop_col))))
-                    else:
-                        break
-
+                        slices = self._compute_buffer_slices(data[idx + 2:idx + 6:2], data[idx + 3:idx + 6:2], used)
+                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2], slices))
             if len(slice_data) > 0:
                 recv_buf_data.append(slice_data)
 
@@ -957,6 +892,9 @@ class SharedValueLayer(ValueLayer):
     def _synch_ghosts(self):
         """Synchronizes the ghosted buffer part of this value layer.
         """
+        if self.cart_comm.Get_size() == 1 or self.buffer_size == 0:
+            return
+
         # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
         # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
@@ -964,17 +902,18 @@ class SharedValueLayer(ValueLayer):
 
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
+        send_displs = send_msg[1][1].copy()
         send_buf = send_msg[0]
         for ngh_rank, size, _, _, tslice in ngh_buffers:
             disp = send_displs[ngh_rank]
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
+            send_displs[ngh_rank] += size
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
         # update grid view from recv_buffer
         recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
+        recv_displs = recv_msg[1][1].copy()
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
             for ngh_rank, size, shape, tslice in items:
@@ -982,6 +921,7 @@ class SharedValueLayer(ValueLayer):
                     disp = recv_displs[ngh_rank]
                     self.grid[tslice] = torch.as_tensor(
                         recv_buf[disp: disp + size].reshape(shape))
+                    recv_displs[ngh_rank] += size
 
                 except Exception:
                     print(self.rank, ngh_rank, size, shape, tslice)
-- 
2.43.0


From fa7dad6ef228b92bf35e0716b9487cb6e3f8de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 10/43] fix: buffer areas and coordinates of a cartesian
 topology for all process layouts

---
 src/repast4py/distributed_space.cpp | 154 +++-------------------------
 src/repast4py/distributed_space.h   |   3 +
 src/repast4py/spacemodule.cpp       |  17 +--
 3 files changed, 22 insertions(+), 152 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..7da5f4e 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -5,7 +5,6 @@
 // License: BSD-3 - https://github.com/Repast/repast4py/blob/master/LICENSE.txt
 
 #include <algorithm>
-#include <set>
 
 #include "types.h"
 #include "distributed_space.h"
@@ -40,28 +39,26 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
     // 1: ngh to right of me.
     // -1: ngh to left of me.
-    // > 1: ngh is wrapped to left
-    // < -1: ngh is wrapped to right
-    if (offsets[0] == -1 || offsets[0] > 1) {
+    if (offsets[0] == -1) {
         xmin = local_bounds.xmin_;
         xmax = xmin + buffer_size;
-    } else if (offsets[0] == 1 || offsets[0] < -1) {
+    } else if (offsets[0] == 1) {
         xmin = local_bounds.xmax_ - buffer_size;
         xmax = xmin + buffer_size;
     }
 
-    if (offsets[1] == -1 || offsets[1] > 1) {
+    if (offsets[1] == -1) {
         ymin = local_bounds.ymin_;
         ymax = ymin + buffer_size;
-    } else if (offsets[1] == 1 || offsets[1] < -1) {
+    } else if (offsets[1] == 1) {
         ymin = local_bounds.ymax_ - buffer_size;
         ymax = ymin + buffer_size;
     }
 
-    if (offsets[2] == -1 || offsets[2] > 1) {
+    if (offsets[2] == -1) {
         zmin = local_bounds.zmin_;
         zmax = zmin + buffer_size;
-    } else if (offsets[2] == 1 || offsets[2] < -1) {
+    } else if (offsets[2] == 1) {
         zmin = local_bounds.zmax_ - buffer_size;
         zmax = zmin + buffer_size;
     }
@@ -79,130 +76,9 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
-    int offsets[3] = {0, 0, 0};
-
-    std::set<int> p_ranks;
-    if (num_dims == 1) {
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            // if in p_ranks:
-            //    coord_x > card_coords[0] -- to the right of me, so offsets to -1 as if to the left of me.
-            //    coord_x < card_coords[0] -- to the left of me , so offsets to 1 as if to right of me
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (offsets[0] < 0) offsets[0] = 1;
-                else offsets[0] = -1;
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
-    } else if (num_dims == 2) {
-        // bool is_0 = cart_coords[0] == 0 && cart_coords[1] == 0;
-        
-        // first element is number of times ngh appears, 2 and 3 and cart coord
-        // differences
-        std::map<int, std::vector<int>> coord_offset_counts;
-        // if (is_0) std::cout << "num nghs: " << nghs.size() << std::endl;
-        for (auto& ngh : nghs) {
-            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
-                int ox = ngh.cart_coord_x - cart_coords[0];
-                int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
-            } else {
-                coord_offset_counts[ngh.rank][0] += 1;
-                // int ox = ngh.cart_coord_x - cart_coords[0];
-                // int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-            }
-        }
-
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-
-        std::map<int, std::vector<int>> fixed_offsets;
-        for (auto kv : coord_offset_counts) {
-            auto& val = kv.second;
-            if (val[0] == 1) {
-                fixed_offsets.emplace(kv.first, std::vector<int>{val[1], val[2]});
-            } else if (val[0] == 2) {
-                // which dimension is duplicated
-                if (val[1] != 0 && x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{1, val[2], -1 , val[2]});
-                } 
-                
-                if (val[2] != 0 && y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
-                }
-            } else if (val[0] == 4) {
-                // both dimensions duplicated
-                fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
-            } else if (val[0] == 6) {
-                // this will occur with 2 procs and periodic -- meet at left / right or top / bottom
-                // and 4 corners
-                if (x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0});
-                } else if (y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1});
-                }
-            }
-        }
-
-        std::map<int, int> ngh_offsets_idx;
-        for (auto& ngh : nghs) {
-            int idx = ngh_offsets_idx[ngh.rank];
-            ngh_offsets_idx[ngh.rank] += 2;
-            auto& ngh_offsets = fixed_offsets[ngh.rank];
-            offsets[0] = ngh_offsets[idx];
-            offsets[1] = ngh_offsets[idx + 1];
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            // if (is_0) std::cout << "fixed ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        }
-
-        // for (auto& ngh : nghs) {
-        //     offsets[0] = ngh.cart_coord_x - cart_coords[0];
-        //     offsets[1] = ngh.cart_coord_y - cart_coords[1];
-        //     if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-        //         if (x2) {
-        //             if (offsets[0] < 0) offsets[0] = 1;
-        //             else if (offsets[0] > 0) offsets[0] = -1;
-        //         }
-        //         if (y2) {
-        //             if (offsets[1] < 0) offsets[1] = 1;
-        //             else if (offsets[1] > 0) offsets[1] = -1;
-        //         }
-        //         if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     }
-        //     compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-        //     p_ranks.emplace(ngh.rank);
-        // }
-    } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
+    for (auto& ngh : nghs) {
+        int offsets[3] = {ngh.offset_x, ngh.offset_y, ngh.offset_z};
+        compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
     }
 }
 
@@ -274,7 +150,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
@@ -351,8 +227,10 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
-                {0, 0, 0, 0}});
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}, xd, 0, 0});
+            }
         }
 
     } else if (num_dims_ == 2) {
@@ -387,7 +265,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, xd, yd, 0});
                     }
                 }
             }
@@ -435,7 +313,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, xd, yd, zd});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..5d34c12 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -27,6 +27,9 @@ struct CTNeighbor {
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // the direction of the neighbor in each dimension: -1, 0, or 1. The cartesian
+    // coordinates alone don't determine this when a periodic space wraps.
+    int offset_x, offset_y, offset_z;
 };
 
 struct GetBufferInfo {
diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 890941f..bbcacd2 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -2663,24 +2663,13 @@ static PyObject* CartesianTopology_getLocalBounds(PyObject* self, void* args) {
 static PyObject* CartesianTopology_getCartCoords(PyObject* self, void* closure) {
     std::vector<int> coords;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
-    #if defined(_MSC_VER)
-    if (coords.size() == 1) {
-        return Py_BuildValue("(L)", coords[0]);
-    } else if (coords.size() == 2) {
-        return Py_BuildValue("(LL)", coords[0], coords[1]);
-    } else {
-        return Py_BuildValue("(LLL)", coords[0], coords[1], coords[2]);
-    }
-    #else
     if (coords.size() == 1) {
-        return Py_BuildValue("(l)", coords[0]);
+        return Py_BuildValue("(i)", coords[0]);
     } else if (coords.size() == 2) {
-        return Py_BuildValue("(ll)", coords[0], coords[1]);
+        return Py_BuildValue("(ii)", coords[0], coords[1]);
     } else {
-        return Py_BuildValue("(lll)", coords[0], coords[1], coords[2]);
+        return Py_BuildValue("(iii)", coords[0], coords[1], coords[2]);
     }
-    #endif
-
 }
 
 static PyObject* CartesianTopology_computeBufferData(PyObject* self, PyObject* args) {
-- 
2.43.0


From 99f3559f6a655be130db5fb98e1dc26a3fa02db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 11/43] fix: neighbors and context synchronization of
 read/write value layers

---
 src/repast4py/value_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 1674992..a9ddf73 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -1026,7 +1026,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -1037,7 +1037,7 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self, agent_manager: AgentManager = None, create_agent: Callable = None):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
 
         Args:
-- 
2.43.0


From 00036207b6072bf3d7cfa2d78f692cd4309feecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 12/43] fix: an agent moving between ranks is removed from all
 the projections of its old rank

---
 src/repast4py/context.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..1c43d6f 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -140,9 +140,11 @@ class SharedContext:
             to send the data in the second list to.
         """
         send_data = [[] for i in range(self.comm.size)]
-        # gather agents to send from the out of bounds (oob) sequence
-        for pid, proj in self.bounded_projs.items():
-            for agent_id, ngh_rank, pt in proj._get_oob():
+        # gather agents to send from the out of bounds (oob) sequence: get all the sequences
+        # first as a moving agent is removed from all the projections
+        oob_data = [(pid, proj, list(proj._get_oob())) for pid, proj in self.bounded_projs.items()]
+        for pid, proj, oob in oob_data:
+            for agent_id, ngh_rank, pt in oob:
                 agent = self._agent_manager.remove_local(agent_id)
                 if agent is None:
                     # already removed
@@ -154,9 +156,8 @@ class SharedContext:
                     if agent_id in self._agent_manager._ghosted_agents:
                         data.append(self._agent_manager.delete_ghosted(agent_id))
 
-                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
-                    for nb_proj in self.non_bounded_projs:
-                        nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
+                    for prj in self.projections.values():
+                        prj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
 
                 # send to ngh rank a list of lists - inner list
                 # is [(agent_id, agent_state), (projection id, and projection data)]
-- 
2.43.0


From 0051e652577465b6a2b6a9232ed0ff5e580de268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 13/43] fix: moving agents without synchronizing ghosts no
 longer moves agents to where their ghosts are

---
 src/repast4py/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 1c43d6f..3772f58 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -143,13 +143,18 @@ class SharedContext:
         # gather agents to send from the out of bounds (oob) sequence: get all the sequences
         # first as a moving agent is removed from all the projections
         oob_data = [(pid, proj, list(proj._get_oob())) for pid, proj in self.bounded_projs.items()]
+        moving = set()
         for pid, proj, oob in oob_data:
             for agent_id, ngh_rank, pt in oob:
                 agent = self._agent_manager.remove_local(agent_id)
                 if agent is None:
+                    if agent_id not in moving:
+                        # a ghost in the buffer, and so not moving from this rank
+                        continue
                     # already removed
                     data = [(agent_id,)]
                 else:
+                    moving.add(agent_id)
                     oob_agents.append((agent, ngh_rank))
                     del self._agents_by_type[agent_id[1]][agent_id]
                     data = [agent.save()]
-- 
2.43.0


From 7edae605ce6703148879b4c48be770c04e9d8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 14/43] fix: a buffered ghost whose agent moves to its rank is
 replaced by the agent

---
 src/repast4py/context.py | 11 +++++++++++
 src/repast4py/space.py   |  8 ++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 3772f58..390a96c 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -127,6 +127,15 @@ class SharedContext:
         for proj in self.projections.values():
             proj.remove(agent)
 
+    def _remove_buffered(self, agent: Agent):
+        """Removes the ghost of an agent that has moved to this rank from the bounded projections.
+
+        Args:
+            agent: the moved agent
+        """
+        for proj in self.bounded_projs.values():
+            proj.remove(agent)
+
     def _gather_oob_data(self, oob_agents: List):
         """Gets the agent data from any agents that have moved out-of-bounds
         (oob), and adds to the specified list the agent data and the rank where the agent
@@ -198,6 +207,7 @@ class SharedContext:
                     # received what used to be ghost here
                     if agent.uid in self._agent_manager._ghost_agents:
                         ghosts_to_remove.append(agent.uid)
+                        self._remove_buffered(agent)
                     # print("Adding", agent.id)
                     self.add(agent)
                     if len(agent_data_list) == 2:
@@ -528,6 +538,7 @@ class SharedContext:
                 agent = create_agent(agent_data[0])
                 if agent.uid in self._agent_manager._ghost_agents:
                     ghosts_to_remove.append(agent.uid)
+                    self._remove_buffered(agent)
                 self.add(agent)
                 # update with data where to ghost to
                 if len(agent_data) == 2:
diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..481c6c1 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -263,7 +263,9 @@ class SharedGrid(_SharedGrid, SharedProjection):
         self.remove(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-        pass
+        # agents that moved here are no longer ghosts, and so no longer buffered here
+        moved_here = {uid for uid, dest_rank in moved_agents if dest_rank == agent_manager.rank}
+        self.buffered_agents = [agent for agent in self.buffered_agents if agent.uid not in moved_here]
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         pass
@@ -428,7 +430,9 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         self.remove(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-        pass
+        # agents that moved here are no longer ghosts, and so no longer buffered here
+        moved_here = {uid for uid, dest_rank in moved_agents if dest_rank == agent_manager.rank}
+        self.buffered_agents = [agent for agent in self.buffered_agents if agent.uid not in moved_here]
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         pass
-- 
2.43.0


From fbbc9c37fadda660c729cae0b014080d009d4a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 15/43] fix: out of bounds agents are fully synchronized when
 moving agents

---
 src/repast4py/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 390a96c..318319f 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -556,10 +556,15 @@ class SharedContext:
             self._agent_manager.delete_ghost(gh_uid)
 
         self._pre_synch_ghosts()
-        send_data = self._gather_oob_data([])
+        oob_moved_agents = []
+        send_data = self._gather_oob_data(oob_moved_agents)
         recv_data = self.comm.alltoall(send_data)
         ghosts_to_remove = []
         self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
+        if self._agents_moved(oob_moved_agents, self.projections.values()):
+            for gh_uid in ghosts_to_remove:
+                self._agent_manager.delete_ghost(gh_uid)
+
         self._synch_ghosts(create_agent)
 
         for proj in self.projections.values():
-- 
2.43.0


From 74c748e1753d6309cc157bb651b6790a6562a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 16/43] fix: a deleted ghost is no longer a requested ghost

---
 src/repast4py/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..c641e8b 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,7 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From c694822364dbf738a5f869fd02c2f39929c5a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 17/43] fix: a requested agent that already is a ghost is kept
 up to date

---
 src/repast4py/context.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 318319f..bfc1440 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -435,13 +435,16 @@ class SharedContext:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
             agent = self._agent_manager.get_ghost(request[0], 0)
-            if agent is None:
+            # the rank to request from needs to know about a request for an existing
+            # ghost as well, so it keeps that ghost up to date
+            if agent is None or not self._agent_manager.is_requested(agent.uid):
                 lst = requests[request[1]]
                 if lst is None:
                     requests[request[1]] = [request[0]]
-                else:
-                    requests[request[1]].append(request[0])
-            else:
+                elif request[0] not in lst:
+                    lst.append(request[0])
+
+            if agent is not None:
                 existing_ghosts.append(agent)
                 self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
@@ -479,6 +482,11 @@ class SharedContext:
         recv_agents = self.comm.alltoall(sent_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
+                agent = self._agent_manager.get_ghost(agent_data[0], 0)
+                if agent is not None:
+                    # already a ghost, and included as such
+                    agent.update(*agent_data[1:])
+                    continue
                 agent = create_agent(agent_data)
                 ghosts.append(agent)
                 self._add_ghost(rank, agent)
-- 
2.43.0


From a3e4aea6f834c18a94c154b395a1574a001d2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 18/43] fix: ghosts know the rank their agent moved to

---
 src/repast4py/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index bfc1440..8d7161a 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -503,6 +503,10 @@ class SharedContext:
         # in a previous call to proj._agent_moving_rank
         all_moved_agents[self.rank] = []
         if any_moved:
+            for uid, dest in itertools.chain(*all_moved_agents):
+                ghost = self._agent_manager.get_ghost(uid, 0)
+                if ghost is not None and dest != self.rank:
+                    ghost.local_rank = dest
             for proj in projs:
                 proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
         return any_moved
-- 
2.43.0


From d1418031df6a9b6696b1e586c1fd84331282ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 19/43] fix: shared value layers of an integer type can be
 created

---
 src/repast4py/value_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index a9ddf73..c755fef 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -490,7 +490,7 @@ class SharedValueLayer(ValueLayer):
         grid_bounds = BoundingBox(lb.xmin - offsets[0], lb.xextent + offsets[0] + offsets[1],
                                   lb.ymin - offsets[2], lb.yextent + offsets[2] + offsets[3], 0, 0)
 
-        super().__init__(grid_bounds, borders, 'random', dtype)
+        super().__init__(grid_bounds, borders, init_value, dtype)
 
         self.buffer_self = []
         if self.periodic and comm.Get_size() > 1 and buffer_size > 0:
-- 
2.43.0


From 13c65a3099657543072cbe5a8adbd7d697dd940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 20/43] fix: removing an agent removes its ghosts from the
 projections they are in only

---
 src/repast4py/context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 8d7161a..17df7cd 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -232,9 +232,12 @@ class SharedContext:
         recv_data = self.comm.alltoall(send_data)
         for updates in recv_data:
             for removed_id in updates:
-                ghost = self._agent_manager.get_ghost(removed_id)
+                ghost = self._agent_manager.get_ghost(removed_id, incr=0)
+                if ghost is None:
+                    continue
                 for proj in self.projections.values():
-                    proj.remove(ghost)
+                    if ghost in proj:
+                        proj.remove(ghost)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
-- 
2.43.0


From bdf16d827376e8bb62dad5ca5924e83a5caee765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 21/43] fix: both ranks of a shared network edge keep track of
 it

An edge between a local agent and a ghost was only tracked on the rank that
created it: updating or removing it on the other rank failed, moving an agent
lost edges (those with requested ghosts, or when both agents moved), and the ghosted
reference counts of the two ranks diverged, leaving stale ghosts or none at all.
---
 src/repast4py/context.py |  30 ++-
 src/repast4py/network.py | 445 +++++++++++++++++++++++----------------
 2 files changed, 280 insertions(+), 195 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 17df7cd..9aebaa1 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -261,8 +261,23 @@ class SharedContext:
         """Calls _pre_synch_ghosts on all "ghostable" projections
         and value layers.
         """
-        for proj in self.projections.values():
+        # first those that may need ghosts the bounded projections don't need any longer
+        for proj in self.non_bounded_projs:
+            proj._pre_synch_ghosts(self._agent_manager)
+        for proj in self.bounded_projs.values():
             proj._pre_synch_ghosts(self._agent_manager)
+        self._update_removed_ghosts()
+
+    def _synch_non_bounded(self, restore_agent: Callable):
+        """Synchronizes the ghosts of the non-bounded projections such that
+        all ranks know about the ghosts when agents move.
+
+        Args:
+            restore_agent: a Callable that when given serialized agent data
+            returns an agent.
+        """
+        for proj in self.non_bounded_projs:
+            proj._synch_ghosts(self._agent_manager, restore_agent)
 
     def _synch_ghosts(self, restore_agent: Callable):
         """Synchronizes ghosts on all "ghostable" projections
@@ -294,6 +309,7 @@ class SharedContext:
 
         if sync_ghosts:
             self._pre_synch_ghosts()
+        self._synch_non_bounded(restore_agent)
 
         oob_moved_agents = []
         # These 3 synchronize bounded projections -- agents that
@@ -316,16 +332,6 @@ class SharedContext:
             for proj in self.projections.values():
                 proj._post_agents_moved_rank(self._agent_manager, restore_agent)
 
-            # synch ghosts for non-oob projections -- they don't need a double synch
-            # to maintain coherences
-            for proj in self.non_bounded_projs:
-                proj._pre_synch_ghosts(self._agent_manager)
-
-                self._update_ghosts()
-                for pid, proj in self.projections.items():
-                    if pid not in self.bounded_projs:
-                        proj._synch_ghosts(self._agent_manager, restore_agent)
-
     def contains_type(self, agent_type: int) -> bool:
         """Get whether or not this SharedContexts contains any agents of the specified type
 
@@ -531,6 +537,7 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._synch_non_bounded(create_agent)
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -571,6 +578,7 @@ class SharedContext:
             self._agent_manager.delete_ghost(gh_uid)
 
         self._pre_synch_ghosts()
+        self._synch_non_bounded(create_agent)
         oob_moved_agents = []
         send_data = self._gather_oob_data(oob_moved_agents)
         recv_data = self.comm.alltoall(send_data)
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..7efdd08 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -66,25 +66,32 @@ class SharedNetwork(SharedProjection, ABC):
 
         # list of edge keys
         self.edges_to_update = set()
+        # the edges between local agents and ghosts that both ranks know about:
         # key is edge tuple, val is GhostedEdge
         self.ghosted_edges = {}
+        # those the other rank doesn't know about yet:
         # key is edge tuple, val is GhostedEdge
         self.new_edges = {}
         # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # list of edges that need to be recreated when a
-        # agent moves off of this rank. Edge is (u.uid, v.uid)
+        # data of the agents moving off of this rank: key is agent uid, val is
+        # (destination rank, set of the ranks this network ghosts the agent to, list of edges).
+        # Edge is (u.uid, v.uid, edge_attr). Identifying these agents
+        # and communicating their edges occur in different stages so we track this info as field
+        self._moving_agents = {}
+        # edges received by this rank as both agents have moved, to be
+        # added during the next sync: (u.uid, v.uid, edge_attr, local uid, rank of the ghost)
         self._agent_moved_edges = []
-        # list of agent ids that should not be ghosted to this
-        # rank after an agent move. The identification of
-        # these agents and communicating to the ghosting rank
-        # occur in different stages so we track this info as field
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-        # list of ghosts agents that need to have their
-        # ref count incremented. This can occur when an agent
-        # in a buffer zone is added via an edge, but has not
-        # yet has the ghost ref count incremented
-        self.ghosts_to_ref = []
+        # the ranks this network ghosts local agents to: key is agent uid,
+        # val is the set of ranks. The network is counted once in the
+        # ghosted reference count of the agent on each of the ranks ...
+        self._ghosted_to = {}
+        # ... and once in the reference count of the ghosts on this rank with
+        # these uids
+        self._ghosts = set()
+        # uids of the agents that lost a ghosted edge, and so may
+        # not need to be ghosted any longer
+        self._unlinked = []
 
     def __iter__(self) -> Iterable[Agent]:
         """Gets an Iterable over all the nodes (agents) in
@@ -216,8 +223,45 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for edge in set(self._edges(agent)): # type: ignore
+                self._forget_edge(*edge)
+        self._ghosted_to.pop(agent.uid, None)
+        self._ghosts.discard(agent.uid)
         self.graph.remove_node(agent)
 
+    def _forget_edge(self, u_agent: Agent, v_agent: Agent):
+        """Removes the specified edge from all the collections of edges used to
+        synchronize this network, but not from the graph.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+        """
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        self.edges_to_update.discard(edge_key)
+        self.new_edges.pop(edge_key, None)
+        if self.ghosted_edges.pop(edge_key, None) is not None:
+            self._unlinked += (u_agent.uid, v_agent.uid)
+        self._remove_edge_key(u_agent, v_agent)
+
+    def _add_ghosted_edge(self, u_agent: Agent, v_agent: Agent, edge_attr: Dict):
+        """Adds an edge between a local agent and a ghost that the ghost's rank
+        knows about.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+            edge_attr: the attributes of the edge
+        """
+        self.graph.add_edge(u_agent, v_agent, **edge_attr)
+        edge_key = self._add_edge_key(u_agent, v_agent)
+        attr = self.graph.edges[edge_key]
+        if u_agent.local_rank == self.rank:
+            self.ghosted_edges[edge_key] = GhostedEdge(u_agent, v_agent, attr)
+        else:
+            self.ghosted_edges[edge_key] = GhostedEdge(v_agent, u_agent, attr)
+
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Updates the edge between u_agent and v_agent with the specified
         attributes.
@@ -236,8 +280,7 @@ class SharedNetwork(SharedProjection, ABC):
         for k, v in kwattr.items():
             self.graph.edges[edge_key][k] = v
 
-        if (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank) or \
-           (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
+        if edge_key in self.ghosted_edges:
             self.edges_to_update.add(edge_key)
 
     def remove_edge(self, u_agent: Agent, v_agent: Agent):
@@ -251,31 +294,25 @@ class SharedNetwork(SharedProjection, ABC):
         """
         self.graph.remove_edge(u_agent, v_agent)
 
-        if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or \
-           u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            edge_key = self._get_edge_key((u_agent, v_agent))
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        if edge_key in self.ghosted_edges:
             # edge key order might be different than remove edge args
             # so need to check in edge key which is the ghost
             self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
-            # if removed before update sync or removed before new edge sync
-            # then remove it here
-            self.edges_to_update.discard(edge_key)
-            self.new_edges.pop(edge_key, None)
 
-        self._remove_edge_key(u_agent, v_agent)
+        # if removed before update sync or removed before new edge sync
+        # then remove it here
+        self._forget_edge(u_agent, v_agent)
 
     def clear_edges(self):
         """Removes all the edges.
         """
-        self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
+        for edge_key in self.ghosted_edges:
             self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
 
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
+        for edge in list(self.graph.edges()):
+            self._forget_edge(*edge)
+        self.graph.clear_edges()
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -299,35 +336,72 @@ class SharedNetwork(SharedProjection, ABC):
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
 
         self.edges_to_remove.clear()
+        self._exchange_removed(sync_edges, agent_manager)
+
+    def _exchange_removed(self, sync_edges: List, agent_manager: AgentManager):
+        """Removes the specified edges on other ranks, and the edges specified by
+        other ranks on this one.
+
+        Args:
+            sync_edges: a nested list of edges (u.uid, v.uid) in "alltoall" format
+            agent_manager: AgentManager used to manage agent synchronization
+        """
         to_remove = self.comm.alltoall(sync_edges)
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
-                else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                # this rank might have removed the edge, or one of the agents, as well
+                if u_agent is not None and v_agent is not None and self.graph.has_edge(u_agent, v_agent):
                     self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    self._forget_edge(u_agent, v_agent)
+
+    def _get_agent(self, uid: Tuple, agent_manager: AgentManager) -> Agent:
+        """Gets the local agent or ghost with the specified uid, or None.
+        """
+        agent = agent_manager.get_local(uid)
+        return agent_manager.get_ghost(uid, incr=0) if agent is None else agent
+
+    def _ghost_to(self, rank: int, agent: Agent, sync_agents: List, agent_manager: AgentManager):
+        """Ghosts the specified local agent to the specified rank, if this
+        network doesn't do that already.
 
-                self._remove_edge_key(u_agent, v_agent)
+        Args:
+            rank: the rank to ghost the agent to
+            agent: the agent
+            sync_agents: the list of agents to send to each rank
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        ranks = self._ghosted_to.setdefault(agent.uid, set())
+        if rank not in ranks:
+            ranks.add(rank)
+            agent_manager.tag_as_ghosted(rank, agent.uid)
+            sync_agents[rank].append(agent.save())
+
+    def _sync_unlinked(self, agent_manager: AgentManager):
+        """Stops the ghosting of agents that have no edge any longer with an agent on the
+        rank they are ghosted to.
+
+        Args:
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        for uid in self._unlinked:
+            agent = self._get_agent(uid, agent_manager)
+            if agent is None or not self.graph.has_node(agent):
+                continue
+            ranks = {(v if u is agent else u).local_rank for u, v in self._edges(agent)} # type: ignore
+            for rank in self._ghosted_to.get(uid, set()) - ranks:
+                self._ghosted_to[uid].remove(rank)
+                agent_manager.untag_as_ghosted(rank, uid)
+            if uid in self._ghosts and self.rank not in ranks:
+                self._ghosts.remove(uid)
+                # Note that remove_ghost will check for inclusion in requested
+                agent_manager.remove_ghost(agent)
+                if not agent_manager.is_requested(uid):
+                    self.remove(agent)
+        self._unlinked.clear()
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -354,11 +428,8 @@ class SharedNetwork(SharedProjection, ABC):
             ghost_agent = ghosted_edge.ghost_agent
             other_rank = ghost_agent.local_rank
             self.ghosted_edges[nodes] = ghosted_edge
-            # not already ghosted so send agent itself
-            if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
-                sync_agents[other_rank].append(local_agent.save())
-                agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
-
+            # if not already ghosted then send agent itself
+            self._ghost_to(other_rank, local_agent, sync_agents, agent_manager)
             sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
         self.new_edges.clear()
 
@@ -368,14 +439,26 @@ class SharedNetwork(SharedProjection, ABC):
             sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
         self.edges_to_update.clear()
 
+        for _, _, _, local_id, rank in self._agent_moved_edges:
+            self._ghost_to(rank, agent_manager.get_local(local_id), sync_agents, agent_manager)
+
         recv_agents = self.comm.alltoall(sync_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
+                # get will increment ref count if ghost exists
+                agent = agent_manager.get_ghost(agent_data[0])
+                if agent is None:
+                    agent = create_agent(agent_data)
+                    # 1 because added to network
+                    agent_manager.add_ghost(rank, agent, 1)
+                self._ghosts.add(agent.uid)
                 self.add(agent)
 
+        # both ranks of these edges know about them now
+        for u_id, v_id, edge_attr, _, _ in self._agent_moved_edges:
+            self._add_ghosted_edge(self._get_agent(u_id, agent_manager), self._get_agent(v_id, agent_manager), edge_attr)
+        self._agent_moved_edges.clear()
+
         return sync_edges
 
     def _sync_edges(self, sync_edges: List, agent_manager: AgentManager):
@@ -393,20 +476,26 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
         """
         recv_edges = self.comm.alltoall(sync_edges)
-        for edges in recv_edges:
+        rejected = [[] for i in range(self.comm.size)]
+        for rank, edges in enumerate(recv_edges):
             for u_id, v_id, edge_attr in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                else:
-                    # u_agent is GhostAgent so get agent from it
-                    u_agent = u_agent.agent
-                    v_agent = agent_manager._local_agents[v_id]
-
-                self.graph.add_edge(u_agent, v_agent, **edge_attr)
-                self._add_edge_key(u_agent, v_agent)
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                if u_agent is None or v_agent is None:
+                    # the local agent has been removed
+                    self._unlinked += (u_id, v_id)
+                    rejected[rank].append((u_id, v_id))
+                    continue
+
+                self._add_ghosted_edge(u_agent, v_agent, edge_attr)
+                # the local agent already is a ghost on the other rank
+                local_id = u_id if u_agent.local_rank == self.rank else v_id
+                ranks = self._ghosted_to.setdefault(local_id, set())
+                if rank not in ranks:
+                    ranks.add(rank)
+                    agent_manager.tag_as_ghosted(rank, local_id)
+
+        self._exchange_removed(rejected, agent_manager)
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
         """Synchronizes the edges and nodes of this projection across ranks.
@@ -416,36 +505,29 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
+        self._pre_synch_ghosts(agent_manager)
         self._sync_removed(agent_manager)
         sync_edges = self._sync_vertices(agent_manager, create_agent)
         self._sync_edges(sync_edges, agent_manager)
+        self._sync_unlinked(agent_manager)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
         synchronization.
 
-        This synchronizes any necessary proj reference count updates to
-        ranks that ghost to this rank.
+        This counts the references of this network to the ghosts in new edges, which
+        otherwise may be gone when another projection doesn't need them any longer.
 
         Args:
             agent_manager: this rank's AgentManager
         """
-        send_msg = [[] for i in range(self.comm.size)]
-        for agent in self.ghosts_to_ref:
-            if self.graph.has_node(agent):
-                ghost = agent_manager.get_ghost(agent.uid)
-                if ghost is None:
-                    agent_manager.add_ghost(agent.local_rank, agent)
-
-                # ghosting rank need to increment ref count to this rank
-                send_msg[agent.local_rank].append(agent.uid)
-
-        self.ghosts_to_ref.clear()
-
-        recv_msg = self.comm.alltoall(send_msg)
-        for rank, agents in enumerate(recv_msg):
-            for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
+        for ghosted_edge in self.new_edges.values():
+            ghost = ghosted_edge.ghost_agent
+            if ghost.uid not in self._ghosts:
+                self._ghosts.add(ghost.uid)
+                # get will increment ref count if ghost exists
+                if agent_manager.get_ghost(ghost.uid) is None:
+                    agent_manager.add_ghost(ghost.local_rank, ghost)
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
@@ -456,21 +538,6 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        for u_id, v_id, edge_attr in self._agent_moved_edges:
-            u = agent_manager.get_local(u_id)
-            if u is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                u = agent_manager.get_ghost(u_id, incr=0)
-
-            v = agent_manager.get_local(v_id)
-            if v is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                v = agent_manager.get_ghost(v_id, incr=0)
-            self.add_edge(u, v, **edge_attr)
-
-        self._agent_moved_edges.clear()
         self._synch_ghosts(agent_manager, create_agent)
 
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
@@ -493,35 +560,26 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
-        # case, remove the edge, and the node (if the node is not in any other
-        # edges)
+        # 1. If the moving agent is in edge with ghost, then the rank
+        # of that ghost will recreate the edge with the moved agent. So, delete
+        # the edge.
         #
         # 2. Check if moving agent is in edge with local agent. This edge
-        # needs to be preserved. So, delete edge, and add this rank to the
+        # needs to be preserved. So, add this rank to the
         # dictionary in the moved agent_data list (the data used by the dest rank
-        # to set up ghosting of the moved agent).
-        nodes_to_remove = []
-        edges_to_remove = []
-        for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
+        # to set up ghosting of the moved agent), and recreate the edge when the agent has moved.
+        #
+        # In both cases the other agent may be moving as well. So, keep the edge in order
+        # to send it to where both agents have moved to.
+        ranks = self._ghosted_to.pop(moving_agent.uid, set())
+        edges = []
+        for u, v in set(self._edges(moving_agent)): # type: ignore
             other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
-                edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
-                    # other is only on this rank to to be part of the removed edge
-                    # and now the edge is gone so remove as node and ghost
-                    nodes_to_remove.append(other)
-                    agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
-
-            else:
-                # moving agent participates in edges with local agents
+            edges.append((u.uid, v.uid, self.graph.edges[u, v]))
+            if other.local_rank == self.rank and other is not moving_agent and self.rank not in ranks:
                 # this should tell destination rank to ghost the moved
                 # agent back to this rank, so the edge remains live
+                ranks.add(self.rank)
                 if len(moving_agent_data) == 1:
                     moving_agent_data.append({self.rank: 1})
                 else:
@@ -530,19 +588,17 @@ class SharedNetwork(SharedProjection, ABC):
                     else:
                         moving_agent_data[1][self.rank] = 1
 
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
-                self._agent_moved_edges.append((u.uid, v.uid, attr))
-
-        for edge in edges_to_remove:
-            self.graph.remove_edge(*edge)
-            self._remove_edge_key(*edge)
-
-        for node in nodes_to_remove:
-            self.graph.remove_node(node)
+            self._forget_edge(u, v)
 
+        self._moving_agents[moving_agent.uid] = (dest_rank, ranks, edges)
         self.graph.remove_node(moving_agent)
+        if self.rank in ranks:
+            # agent will be ghosted to this rank, so need to add it as a
+            # ghost
+            self._ghosts.add(moving_agent.uid)
+            if agent_manager.get_ghost(moving_agent.uid) is None:
+                agent_manager.add_ghost(dest_rank, moving_agent)
+            self.graph.add_node(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
         """Notifies this projection that the specified agents have moved rank.
@@ -558,45 +614,76 @@ class SharedNetwork(SharedProjection, ABC):
                 EXCEPT for those moved off of the current rank.
             agent_manager: AgentManager
         """
-        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
-        for ghost_rank, ids in enumerate(stop_ghosting_ids):
-            for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
+        moved_agents = list(moved_agents)
+        dests = dict(moved_agents)
+        dests.update((uid, data[0]) for uid, data in self._moving_agents.items())
 
         for uid, dest in moved_agents:
+            ghost = agent_manager.get_ghost(uid, 0)
+            if ghost is None or not self.graph.has_node(ghost):
+                continue
+            edge_list = [(u, v, self.graph.edges[u, v]) for u, v in set(self._edges(ghost))] # type: ignore
             if dest == self.rank:
-                # Check if moved agent was formerly a ghost on this rank
-                # and if so, then copy the edges the ghost participated in
+                # moved agent was formerly a ghost on this rank
+                # so copy the edges the ghost participated in
                 # to new edges created with the now local agent, and remove
                 # the old ghost
-                ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
-                    agent = agent_manager.get_local(uid)
-                    edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
-                    for u, v, attr in edge_list:
-                        self.graph.remove_edge(u, v)
-                        if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
-                        else:
-                            self.graph.add_edge(u, agent, **attr)
-                    self.graph.remove_node(ghost)
+                agent = agent_manager.get_local(uid)
+                self.remove(ghost)
+                self.graph.add_node(agent)
+                for u, v, attr in edge_list:
+                    if u.uid == agent.uid:
+                        self.add_edge(agent, v, **attr)
+                    else:
+                        self.add_edge(u, agent, **attr)
             else:
-                # check if moved agent is a ghost on this rank,
-                # if so, then check if that agent participated in
-                # a ghosted edge. If so, then update the local rank
-                # of that ghost agent so that ghosted edge will be
-                # ghosted to new destination, and add that edge to
+                # moved agent is a ghost on this rank,
+                # so check if that agent participated in
+                # a ghosted edge. If so, then add that edge to
                 # the new edges, so it will be ghosted to new rank
                 # during next sync.
-                agent = agent_manager.get_ghost(uid, 0)
-                if agent is not None:
-                    for edge in self._edges(agent): # type: ignore
-                        edge_key = self._get_edge_key(edge)
-                        ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                for u, v, attr in edge_list:
+                    ge = self.ghosted_edges.get(self._get_edge_key((u, v)), None)
+                    if ge is not None:
+                        self.new_edges[self._get_edge_key((u, v))] = ge
+                        # the former rank may not need the local agent any longer
+                        self._unlinked.append(ge.local_agent.uid)
+
+        # send the edges of moved agents
+        send_data = [[] for _ in range(self.comm.size)]
+        for uid, (dest, ranks, edges) in self._moving_agents.items():
+            both_moved = []
+            for u_id, v_id, attr in edges:
+                other_id = v_id if u_id == uid else u_id
+                if other_id in dests:
+                    both_moved.append((u_id, v_id, attr))
+                    if dests[other_id] != dest:
+                        send_data[dests[other_id]].append((other_id, set(), [(u_id, v_id, attr)]))
+                else:
+                    other = agent_manager.get_local(other_id)
+                    if other is not None:
+                        ghost = agent_manager.get_ghost(uid, 0)
+                        if u_id == uid:
+                            self.add_edge(ghost, other, **attr)
+                        else:
+                            self.add_edge(other, ghost, **attr)
+            # in case all the other agents have moved as well
+            self._unlinked.append(uid)
+            send_data[dest].append((uid, ranks, both_moved))
+        self._moving_agents.clear()
+
+        for data in self.comm.alltoall(send_data):
+            for uid, ranks, edges in data:
+                self._ghosted_to.setdefault(uid, set()).update(ranks - {self.rank})
+                self._unlinked.append(uid)
+                for u_id, v_id, attr in edges:
+                    u = agent_manager.get_local(u_id)
+                    v = agent_manager.get_local(v_id)
+                    if u is not None and v is not None:
+                        self.add_edge(u, v, **attr)
+                    else:
+                        other_id = v_id if u_id == uid else u_id
+                        self._agent_moved_edges.append((u_id, v_id, attr, uid, dests[other_id]))
 
 
 class UndirectedSharedNetwork(SharedNetwork):
@@ -664,6 +751,8 @@ class UndirectedSharedNetwork(SharedNetwork):
             v_agent: the v node agent
         """
         edge_key = (u_agent, v_agent)
+        if edge_key in self.canonical_edge_keys:
+            return self.canonical_edge_keys[edge_key]
         self.canonical_edge_keys[edge_key] = edge_key
         self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
         return edge_key
@@ -698,22 +787,16 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
 
         if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            if not self.graph.has_node(v_agent):
-                self.ghosts_to_ref.append(v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
-            if not self.graph.has_node(u_agent):
-                self.ghosts_to_ref.append(u_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -813,13 +896,13 @@ class DirectedSharedNetwork(SharedNetwork):
     def _add_edge_key(self, u_agent: Agent, v_agent: Agent) -> Tuple: # type: ignore
         """Creates a canonical edge key for the pair of nodes.
 
-        This is a NOOP on SharedDirectedNetwork
+        This is the edge itself on SharedDirectedNetwork
 
         Args:
             u_agent: the u node agent
             v_agent: the v node agent
         """
-        pass
+        return (u_agent, v_agent)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge beteen u_agent and v_agent.
@@ -839,22 +922,16 @@ class DirectedSharedNetwork(SharedNetwork):
             >>> g.add_edge(agent1, agent2, weight=3.1)
         """
         if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            if not self.graph.has_node(v_agent):
-                self.ghosts_to_ref.append(v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
-            if not self.graph.has_node(u_agent):
-                self.ghosts_to_ref.append(u_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From 5d1faa0997a85b4d806ec0df0ab0d8c5b22f1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 22/43] fix: a stop is restored from a checkpoint only when
 asked for

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..2eb8c36 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -241,7 +241,7 @@ class Checkpoint:
             evt_tag = metadata.get('tag', DEFAULT_TAG)
             if evt_tag == tag:
                 evt_type = metadata['__type']
-                evt = None
+                evt = IGNORE_EVT
                 if evt_type != schedule.EvtType.STOP:
                     evt = evt_creator(metadata)
                     if evt is None:
-- 
2.43.0


From 0a78c8dfb639ebe5a2900d6b6a127c504750895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 23/43] fix: a checkpoint made by an event includes the events
 still pending in that tick

---
 src/repast4py/checkpoint.py |  9 +++++++++
 src/repast4py/schedule.py   | 38 +++++++++++++++++++++++++++++++++----
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 2eb8c36..35afd2e 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -166,6 +166,15 @@ class Checkpoint:
         evts = [self._to_evt_data(evt) for evt in runner.end_evts if evt.metadata['__type'] != schedule.EvtType.VOID]
         # item: (at, count, evt) tuple
         evts += [self._to_evt_data(item[2]) for item in runner.schedule.queue if item[2].metadata['__type'] != schedule.EvtType.VOID]
+        # when saving from within an event, then the events of the current tick that are yet to
+        # execute, and any repeats of the event itself are not in the queue.
+        group = runner.schedule.executing_group
+        evts += [self._to_evt_data(evt) for evt in group.pending_evts() if evt.metadata['__type'] != schedule.EvtType.VOID]
+        evt = group.executing_evt()
+        if evt is not None and evt.metadata['__type'] == schedule.EvtType.REPEATING:
+            evt_data = self._to_evt_data(evt)
+            evt_data.at += evt_data.interval
+            evts.append(evt_data)
         ss['evts'] = evts
 
     def _schedule_evt(self, runner: schedule.SharedScheduleRunner, evt_type: schedule.EvtType, evt_data: EvtData,
diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 7cfe893..e4b9d9c 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -10,7 +10,7 @@ simulation. Users will typically only use the :class:`repast4py.schedule.SharedS
 
 import heapq
 import itertools
-from typing import Callable, List, Dict
+from typing import Callable, List, Dict, Union
 import types
 from enum import IntEnum
 
@@ -174,6 +174,9 @@ class ScheduleGroup:
         self.executing = False
         self.interrupted = False
         self.size_ = 0
+        # the events being executed, and the index of the next one
+        self.executing_evts = []
+        self.next_idx = 0
 
     def reset(self):
         self.first.clear()
@@ -245,17 +248,20 @@ class ScheduleGroup:
     def execute_evts(self, evts: List, queue: List) -> bool:
         interrupted = False
 
-        next_idx = 0
+        self.executing_evts = evts
+        self.next_idx = 0
         for evt in evts:
             self.size_ -= 1
+            self.next_idx += 1
             evt()
             evt.reschedule(queue)
-            next_idx += 1
             if self.interrupted:
                 interrupted = True
                 break
 
-        del evts[:next_idx]
+        del evts[:self.next_idx]
+        self.executing_evts = []
+        self.next_idx = 0
 
         if interrupted:
             self._add_during_ex_evts()
@@ -263,6 +269,30 @@ class ScheduleGroup:
 
         return interrupted
 
+    def executing_evt(self) -> Union[ScheduledEvent, None]:
+        """Gets the event that is currently executing.
+
+        Returns:
+            The currently executing event, or None if no event is executing.
+        """
+        return self.executing_evts[self.next_idx - 1] if self.next_idx > 0 else None
+
+    def pending_evts(self) -> List[ScheduledEvent]:
+        """Gets the events that are yet to be executed in the currently executing tick.
+
+        Returns:
+            The events of the currently executing tick that have not yet been executed,
+            an empty list if no event is executing.
+        """
+        if self.next_idx == 0:
+            return []
+
+        pending = self.executing_evts[self.next_idx:]
+        for evts in (self.first, self.prioritized, self.last):
+            if evts is not self.executing_evts:
+                pending += evts
+        return pending + self.evts_added_during_execution
+
     def execute(self, queue: List):
         self.executing = True
         interrupted = self.execute_evts(self.first, queue)
-- 
2.43.0


From b0c03d0fe2ebc746caa19d83f0db5fe2f04080d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 24/43] fix: events scheduled between two calls of
 restore_schedule keep their place

---
 src/repast4py/checkpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 35afd2e..49d0511 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -244,6 +244,8 @@ class Checkpoint:
             runner.schedule.tick = schedule_state['tick']
         else:
             runner = schedule.runner()
+        # events may have been scheduled since a previous call
+        last_count = max(schedule_state['last_count'], runner.schedule.last_count)
 
         for evt_data in schedule_state['evts']:
             metadata = evt_data.metadata
@@ -264,7 +266,6 @@ class Checkpoint:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
 
-        last_count = schedule_state['last_count']
         runner.schedule.counter = itertools.count(last_count + 1)
         runner.schedule.last_count = last_count
 
-- 
2.43.0


From 27a7b536f05ba69a30a869675aee1302e80fdb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 25/43] fix: directed network edges from other ranks' agents
 are restored from a checkpoint

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 49d0511..3a0c8df 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -438,7 +438,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From 3e74ce43d99eaa69ac11b7023800a7435ff39ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 26/43] fix: a space with agents that have no location can be
 saved in a checkpoint

---
 src/repast4py/checkpoint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 3a0c8df..d0e0760 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -322,7 +322,9 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            location = space.get_location(agent)
+            # an agent that has not been moved to any location has none
+            locations[agent.uid] = None if location is None else location.coordinates
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -339,11 +341,13 @@ class Checkpoint:
         if isinstance(space, SharedGrid):
             for agent in context.agents():
                 location = locations[agent.uid]
-                space.move(agent, DiscretePoint(location[0], location[1], location[2]))
+                if location is not None:
+                    space.move(agent, DiscretePoint(location[0], location[1], location[2]))
         else:
             for agent in context.agents():
                 location = locations[agent.uid]
-                space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
+                if location is not None:
+                    space.move(agent, ContinuousPoint(location[0], location[1], location[2]))
 
 
     def save_network(self, network: SharedNetwork, rank: int):
-- 
2.43.0


From a9b94fb9dfb51fdd41eae9f1c273c1cb2d8b466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 27/43] fix: saved locations and edge attributes do not change
 after they have been saved

---
 src/repast4py/checkpoint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index d0e0760..ce8c6c9 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -324,7 +324,7 @@ class Checkpoint:
         for agent in context.agents():
             location = space.get_location(agent)
             # an agent that has not been moved to any location has none
-            locations[agent.uid] = None if location is None else location.coordinates
+            locations[agent.uid] = None if location is None else location.coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -361,13 +361,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From 50941462796a73c094d6c142d8b6b210f18f5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 28/43] fix: restoring a network without its agents raises the
 documented error

---
 src/repast4py/checkpoint.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index ce8c6c9..8b7ae22 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -413,6 +413,12 @@ class NetworkRestorer:
         self.context = context
         self.ghost_edges = []
 
+    def _get_node(self, node_uid):
+        node = self.context.agent(node_uid)
+        if node is None:
+            raise ValueError("Expected agent not found in context. Have agents been restored to the context?")
+        return node
+
     def _make_suc_edge(self, node_uid, other_uid, e_attribs):
         return (0, node_uid, other_uid, e_attribs)
     
@@ -447,15 +453,12 @@ class NetworkRestorer:
     def restore(self, requests: Dict):
         self.requests = requests
         edges = self.network_save["data"]
-        try:
-            if self.network.is_directed:
-                for node_uid, successors, predecessors in edges:
-                    node = self.context.agent(node_uid)
-                    self._add_edges(node, successors, self._make_suc_edge, self._add_suc_edge)
-                    self._add_edges(node, predecessors, self._make_pre_edge, self._add_pre_edge)
-            else:
-                for node_uid, others in edges:
-                    node = self.context.agent(node_uid)
-                    self._add_edges(node, others, self._make_suc_edge, self._add_suc_edge)
-        except KeyError:
-            raise ValueError("Expected agent not found in context. Have agents been restored to the context?")
+        if self.network.is_directed:
+            for node_uid, successors, predecessors in edges:
+                node = self._get_node(node_uid)
+                self._add_edges(node, successors, self._make_suc_edge, self._add_suc_edge)
+                self._add_edges(node, predecessors, self._make_pre_edge, self._add_pre_edge)
+        else:
+            for node_uid, others in edges:
+                node = self._get_node(node_uid)
+                self._add_edges(node, others, self._make_suc_edge, self._add_suc_edge)
-- 
2.43.0


From f1973911b830123b0751f3b898fe67a16f65549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 29/43] fix: read network files with nested attributes or
 braces in strings

The attribute dictionary of a node or edge was cut at the first closing
brace, so files written by write_network with nested dictionaries, or
strings that contain a brace, could not be read.
---
 src/repast4py/network.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 7efdd08..e575083 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -981,15 +980,15 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        # everything after the third element is the json attribute dictionary
+        vals = line.split(maxsplit=3)
         n_vals = len(vals)
-        if n_vals < 3 or n_vals > 4:
+        if n_vals < 3:
             raise ValueError
         n_id = int(vals[0])
         agent_type = int(vals[1])
@@ -1020,9 +1019,10 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        # everything after the second element is the json attribute dictionary
+        vals = line.split(maxsplit=2)
         n_vals = len(vals)
-        if n_vals < 2 or n_vals > 3:
+        if n_vals < 2:
             raise ValueError
 
         u_id = int(vals[0])
-- 
2.43.0


From 8445d8a11a8b7815a46ee7a3c3713181a346dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 30/43] fix: log to a file in the current directory

The directory of a file name without one is '', which does not exist and
cannot be made.
---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From 3f6a02a68cb34e1eef47385dc604ad42e1066e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 31/43] fix: an agent with an invalid type and a negative rank
 crashed

The rank was parsed as a long into an unsigned int, and so overwrote half
of the pointer that follows it, which is released when the agent is.
---
 src/repast4py/coremodule.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 8ab1a32..361aa42 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -202,13 +202,16 @@ static PyObject* Agent_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 
 static int Agent_init(R4Py_Agent* self, PyObject* args, PyObject* kwds) {
     static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", NULL};
+    // the rank of the id is not a long, so parse into one
+    long rank = 0;
     #if defined(_MSC_VER)
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &rank)) {
     # else
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &rank)) {
     #endif
         return -1;
     }
+    self->aid->rank = (unsigned int)rank;
     self->local_rank = self->aid->rank;
     if (self->aid->type < 0) {
         PyErr_SetString(PyExc_ValueError, "Type component of agent unique id must be a non-negative integer");
@@ -216,10 +219,14 @@ static int Agent_init(R4Py_Agent* self, PyObject* args, PyObject* kwds) {
     }
     // TODO - maybe build this with PyTuple_New rather than parse the format string
     #if defined(_MSC_VER)
-    self->aid->as_tuple = Py_BuildValue("(LiI)", self->aid->id, self->aid->type, self->aid->rank);
+    PyObject* uid = Py_BuildValue("(LiI)", self->aid->id, self->aid->type, self->aid->rank);
     #else
-    self->aid->as_tuple = Py_BuildValue("(liI)", self->aid->id, self->aid->type, self->aid->rank);
+    PyObject* uid = Py_BuildValue("(liI)", self->aid->id, self->aid->type, self->aid->rank);
     #endif
+    if (uid == NULL) {
+        return -1;
+    }
+    Py_XSETREF(self->aid->as_tuple, uid);
     return 0;
 }
 
-- 
2.43.0


From 1a1285f73dd136a3fe9745e3eab95afe912298c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 32/43] fix: the uid of an agent whose constructor was not
 called crashed

A subclass that does not call Agent.__init__ has no uid: report that
instead of dereferencing a null pointer.
---
 src/repast4py/coremodule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 361aa42..26bc43b 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -244,6 +244,10 @@ static PyObject* Agent_get_type(R4Py_Agent* self, void* closure) {
 
 static PyObject* Agent_get_uid(R4Py_Agent* self, void* closure) {
     PyObject* uid = self->aid->as_tuple;
+    if (uid == NULL) {
+        PyErr_SetString(PyExc_AttributeError, "The agent has no unique id: Agent.__init__ has not been called");
+        return NULL;
+    }
     Py_INCREF(uid);
     return uid;
 }
-- 
2.43.0


From 3852023c47973d3f4ae857c4762bfd0451fa08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 33/43] fix: equal points were also unequal

The comparison of points did not define !=, which fell back to comparing
the identity of the objects.
---
 src/repast4py/spacemodule.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index bbcacd2..bfd5093 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -241,10 +241,11 @@ static PyObject* DiscretePoint_repr(R4Py_DiscretePoint* self) {
 }
 
 static PyObject* DiscretePoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         long_t* p1 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
         long_t* p2 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        bool equal = p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2];
+        if (equal == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
@@ -487,10 +488,11 @@ static PyObject* ContinuousPoint_repr(R4Py_ContinuousPoint* self) {
 }
 
 static PyObject* ContinuousPoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         double* p1 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
         double* p2 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        bool equal = p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2];
+        if (equal == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
-- 
2.43.0


From 5bd216d7c428ab15b9eb6a46f14829bf414e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 34/43] fix: points set from arrays that are not contiguous got
 wrong coordinates

_reset_from_array ignored the strides and byte order of the array, so that
a column, a slice with a step or a row of a transposed array were misread.
---
 src/repast4py/spacemodule.cpp | 55 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index bfd5093..3669512 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -152,26 +152,26 @@ static PyObject* DiscretePoint_reset_from_array(PyObject* self, PyObject* args)
     
     long_t* d = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
     int typ = PyArray_TYPE(arr);
-    if (typ == NPY_LONG) {
-        long* o = (long*)PyArray_DATA(arr);
-        for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
-        }
-    } else if (typ == NPY_LONGLONG) {
-        long_t* o = (long_t*)PyArray_DATA(arr);
-        for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
-        }
-    } else if (typ == NPY_INT) {
-        int* o = (int*)PyArray_DATA(arr);
-        for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
-        }
-    } else {
+    if (typ != NPY_LONG && typ != NPY_LONGLONG && typ != NPY_INT) {
         PyErr_SetString(PyExc_RuntimeError, "R4Py_DiscretePoint can only be reset from numpy array of integers");
         return NULL;
     }
 
+    // the elements are not necessarily contiguous, e.g., in a view
+    #if defined(_MSC_VER)
+    PyArrayObject* in = (PyArrayObject*)PyArray_FROM_OTF((PyObject*)arr, NPY_LONGLONG, NPY_ARRAY_IN_ARRAY);
+    #else
+    PyArrayObject* in = (PyArrayObject*)PyArray_FROM_OTF((PyObject*)arr, NPY_LONG, NPY_ARRAY_IN_ARRAY);
+    #endif
+    if (in == NULL) {
+        return NULL;
+    }
+    long_t* o = (long_t*)PyArray_DATA(in);
+    for (int i = 0; i < c && i < 3; ++i) {
+        d[i] = o[i];
+    }
+    Py_DECREF(in);
+
     Py_RETURN_NONE;
 }
 
@@ -403,21 +403,22 @@ static PyObject* ContinuousPoint_reset_from_array(PyObject* self, PyObject* args
     
     double* d = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
     int typ = PyArray_TYPE(arr);
-    if (typ == NPY_DOUBLE) {
-        double* o = (double*)PyArray_DATA(arr);
-        for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
-        }
-    } else if (typ == NPY_FLOAT) {
-        float* o = (float*)PyArray_DATA(arr);
-        for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
-        }
-    } else {
+    if (typ != NPY_DOUBLE && typ != NPY_FLOAT) {
         PyErr_SetString(PyExc_RuntimeError, "R4Py_ContinuousPoint can only be reset from numpy array of floats");
         return NULL;
     }
 
+    // the elements are not necessarily contiguous, e.g., in a view
+    PyArrayObject* in = (PyArrayObject*)PyArray_FROM_OTF((PyObject*)arr, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (in == NULL) {
+        return NULL;
+    }
+    double* o = (double*)PyArray_DATA(in);
+    for (int i = 0; i < c && i < 3; ++i) {
+        d[i] = o[i];
+    }
+    Py_DECREF(in);
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 3a06e4155923b701b44b750e9b8ab2cd0752d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 35/43] fix: read an empty parameters file

yaml gives None for an empty file, to which the overriding parameters could
not be added.
---
 src/repast4py/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/parameters.py b/src/repast4py/parameters.py
index c6917ff..e7d0e87 100644
--- a/src/repast4py/parameters.py
+++ b/src/repast4py/parameters.py
@@ -64,7 +64,8 @@ def init_params(parameters_file: str, parameters: str, dump_file: str = None) ->
     """
     global params
     with open(parameters_file) as f_in:
-        params = yaml.load(f_in, Loader=yaml.SafeLoader)
+        # an empty file has no parameters
+        params = yaml.load(f_in, Loader=yaml.SafeLoader) or {}
     if parameters != '':
         params.update(json.loads(parameters))
 
-- 
2.43.0


From 2d65729b54c81365f11ff76ba33537a2d0f569c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 36/43] fix: the agents found by a query were used after they
 were freed

---
 src/repast4py/core.h    | 35 ++++++++++++++++++++++++++++++-----
 src/repast4py/space.cpp |  2 ++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/core.h b/src/repast4py/core.h
index 7e69d80..300cee2 100644
--- a/src/repast4py/core.h
+++ b/src/repast4py/core.h
@@ -12,6 +12,7 @@
 
 #include <list>
 #include <memory>
+#include <vector>
 
 #include "types.h"
 
@@ -57,16 +58,22 @@ struct R4Py_AgentIter {
     AgentIter* iter;
 };
 
+// Iterates over the agents that are in the iterable when the iteration begins.
+// These agents are owned by the iterator: the iterable may change, and the
+// agents may be removed, during the iteration.
 template<typename IterableT>
 class TAgentIter : public AgentIter {
 
 private:
     std::shared_ptr<IterableT> iterable_;
-    typename IterableT::iterator iter_;
+    std::vector<R4Py_Agent*> agents_;
+    std::vector<R4Py_Agent*>::iterator iter_;
 
 public:
     TAgentIter(std::shared_ptr<IterableT>);
-    virtual ~TAgentIter() {}
+    TAgentIter(const TAgentIter&) = delete;
+    TAgentIter& operator=(const TAgentIter&) = delete;
+    virtual ~TAgentIter();
 
     R4Py_Agent* next() override;
     bool hasNext() override;
@@ -75,16 +82,34 @@ public:
 
 template<typename IterableT>
 TAgentIter<IterableT>::TAgentIter(std::shared_ptr<IterableT> iterable) : AgentIter(),
-    iterable_{iterable}, iter_(iterable_->begin()) {}
+    iterable_{iterable}, agents_(), iter_(agents_.begin()) {
+    reset();
+}
+
+template<typename IterableT>
+TAgentIter<IterableT>::~TAgentIter() {
+    for (auto agent : agents_) {
+        Py_DECREF(agent);
+    }
+}
 
 template<typename IterableT>
 bool TAgentIter<IterableT>::hasNext() {
-    return iter_ != iterable_->end();
+    return iter_ != agents_.end();
 }
 
 template<typename IterableT>
 void TAgentIter<IterableT>::reset() {
-    iter_ = iterable_->begin();
+    // agents_ keeps the agents alive when the iterable is the result of a query
+    std::vector<R4Py_Agent*> agents(iterable_->begin(), iterable_->end());
+    for (auto agent : agents) {
+        Py_INCREF(agent);
+    }
+    agents_.swap(agents);
+    iter_ = agents_.begin();
+    for (auto agent : agents) {
+        Py_DECREF(agent);
+    }
 }
 
 template<typename IterableT>
diff --git a/src/repast4py/space.cpp b/src/repast4py/space.cpp
index 362a962..5066c2e 100644
--- a/src/repast4py/space.cpp
+++ b/src/repast4py/space.cpp
@@ -12,6 +12,8 @@ void decref(AgentListPtr& agent_list) {
     for (auto iter = agent_list->begin(); iter != agent_list->end(); ++iter)  {
         Py_DECREF(*iter);
     }
+    // iterators may still refer to the list
+    agent_list->clear();
 }
 
 void decref(R4Py_Agent* agent) {
-- 
2.43.0


From 8d75934a06a075c26d6b8d4dc0f9a202892c882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 37/43] fix: the spatial index of a destroyed continuous space
 kept its points

---
 src/repast4py/SpatialTree.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 0769f1b..395cd2c 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -110,7 +110,9 @@ public:
 template<typename PointType>
 MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
 template<typename PointType>
-MOItems<PointType>::~MOItems() {}
+MOItems<PointType>::~MOItems() {
+    clear();
+}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
@@ -227,7 +229,9 @@ template<typename PointType>
 SOItems<PointType>::SOItems() : points{} {}
 
 template<typename PointType>
-SOItems<PointType>::~SOItems() {}
+SOItems<PointType>::~SOItems() {
+    clear();
+}
 
 template<typename PointType>
 void SOItems<PointType>::add(PointType* pt) {
-- 
2.43.0


From af98209ec1d3f609f2fdf9fe7a9a6f55f7e8debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 38/43] fix: removing an edge from an agent to itself failed in
 an undirected network

---
 src/repast4py/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index e575083..111abfa 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -765,7 +765,8 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
         edge_key = (u_agent, v_agent)
         self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        # in an edge from an agent to itself both keys are the same
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
-- 
2.43.0


From 7b618dd714eafc1206dcad9fa33d7fcd6f44551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 39/43] fix: a buffered ghost whose new edge was removed before
 it was synchronized remained a node

---
 src/repast4py/network.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 111abfa..a84c996 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -239,8 +239,8 @@ class SharedNetwork(SharedProjection, ABC):
         """
         edge_key = self._get_edge_key((u_agent, v_agent))
         self.edges_to_update.discard(edge_key)
-        self.new_edges.pop(edge_key, None)
-        if self.ghosted_edges.pop(edge_key, None) is not None:
+        new_edge = self.new_edges.pop(edge_key, None)
+        if self.ghosted_edges.pop(edge_key, None) is not None or new_edge is not None:
             self._unlinked += (u_agent.uid, v_agent.uid)
         self._remove_edge_key(u_agent, v_agent)
 
@@ -528,6 +528,14 @@ class SharedNetwork(SharedProjection, ABC):
                 if agent_manager.get_ghost(ghost.uid) is None:
                     agent_manager.add_ghost(ghost.local_rank, ghost)
 
+        # the ghosts whose new edges have been removed remain until then too, such that
+        # they can be removed as nodes
+        for uid in self._unlinked:
+            ghost = agent_manager.get_ghost(uid, 0)
+            if ghost is not None and uid not in self._ghosts and self.graph.has_node(ghost):
+                self._ghosts.add(uid)
+                agent_manager.get_ghost(uid)
+
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
         allowing this projection to perform any necessary actions.
-- 
2.43.0


From 08d2f6269f537bfe1d6e9ccfe107072c66b30d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 40/43] fix: a ghost was counted twice when edges with it were
 created on both ranks

---
 src/repast4py/network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index a84c996..ca453d4 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -444,13 +444,14 @@ class SharedNetwork(SharedProjection, ABC):
         recv_agents = self.comm.alltoall(sync_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                # get will increment ref count if ghost exists
-                agent = agent_manager.get_ghost(agent_data[0])
+                # get will increment ref count if ghost exists and isn't counted already
+                uid = agent_data[0]
+                agent = agent_manager.get_ghost(uid, 0 if uid in self._ghosts else 1)
                 if agent is None:
                     agent = create_agent(agent_data)
                     # 1 because added to network
                     agent_manager.add_ghost(rank, agent, 1)
-                self._ghosts.add(agent.uid)
+                self._ghosts.add(uid)
                 self.add(agent)
 
         # both ranks of these edges know about them now
-- 
2.43.0


From 2468c244c2c8371dd7067e8f992f5eedcdd9498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 41/43] fix: ghosts remained for ever when a projection was
 added to a context that had them

---
 src/repast4py/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index c641e8b..438dd24 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -276,14 +276,16 @@ class AgentManager:
         self._ghost_agents[uid] = ghost_agent
 
     def add_ghosts_to_projection(self, projection):
-        """Adds all the ghost agents to the specified projection.
+        """Adds the requested ghost agents to the specified projection. Any other
+        ghosts only exist as long as the projections that ghosted them need them.
 
         Args:
             projection: The projection to add the ghosts to
         """
-        for gh in self._ghost_agents.values():
-            gh.ref_count += 1
-            projection.add(gh.agent)
+        for uid, gh in self._ghost_agents.items():
+            if uid in self._req_ghosts:
+                gh.ref_count += 1
+                projection.add(gh.agent)
 
     def get_ghost(self, agent_uid: Tuple, incr: int = 1) -> Agent:
         """Gets the agent with the specified id from the collection
-- 
2.43.0


From 2dc64d5cd46457c12ceba0b05fd443a94ac677ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 42/43] fix: a network lost a ghost that another network no
 longer needed when agents were moved

---
 src/repast4py/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 9aebaa1..67a4577 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -276,6 +276,8 @@ class SharedContext:
             restore_agent: a Callable that when given serialized agent data
             returns an agent.
         """
+        for proj in self.non_bounded_projs:
+            proj._pre_synch_ghosts(self._agent_manager)
         for proj in self.non_bounded_projs:
             proj._synch_ghosts(self._agent_manager, restore_agent)
 
-- 
2.43.0


From f484f275ff4cfce5c2a622395fba46cbcb68448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 43/43] fix: edges were lost after an agent linked to them had
 been removed and others moved

---
 src/repast4py/network.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ca453d4..7195408 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -222,6 +222,20 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if agent.local_rank == self.rank and self.graph.has_node(agent):
+            for edge in set(self._edges(agent)): # type: ignore
+                edge_key = self._get_edge_key(edge)
+                if edge_key in self.ghosted_edges:
+                    self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
+        self._remove_node(agent)
+
+    def _remove_node(self, agent: Agent):
+        """Removes the specified agent from the nodes of this SharedNetwork and its edges
+        from all the collections of edges used to synchronize this network.
+
+        Args:
+            agent: the agent to remove
+        """
         if self.graph.has_node(agent):
             for edge in set(self._edges(agent)): # type: ignore
                 self._forget_edge(*edge)
@@ -399,7 +413,7 @@ class SharedNetwork(SharedProjection, ABC):
                 # Note that remove_ghost will check for inclusion in requested
                 agent_manager.remove_ghost(agent)
                 if not agent_manager.is_requested(uid):
-                    self.remove(agent)
+                    self._remove_node(agent)
         self._unlinked.clear()
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
@@ -637,7 +651,7 @@ class SharedNetwork(SharedProjection, ABC):
                 # to new edges created with the now local agent, and remove
                 # the old ghost
                 agent = agent_manager.get_local(uid)
-                self.remove(ghost)
+                self._remove_node(ghost)
                 self.graph.add_node(agent)
                 for u, v, attr in edge_list:
                     if u.uid == agent.uid:
-- 
2.43.0

