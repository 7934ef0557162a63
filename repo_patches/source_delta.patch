From 0fe3fd17d35c2430035fd79f26e044ad1bf336c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 01/58] fix: closest_candidates after removal of all boxes and
 for degenerate boxes

---
 src/bgem/polygons/aabb_lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..bcd3e8a 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -74,7 +74,10 @@ class AABB_Lookup:
         boxes = self.boxes[:self.n_boxes, :]
         if boxes.shape[0] == 0 :
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
+        if np.all(boxes[:, 0] >= self.inf):
+            # all boxes have been removed
+            return []
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
@@ -89,7 +92,7 @@ class AABB_Lookup:
         #except:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
-        return np.where(inf_dists < l2_max)[0]
+        return np.where(inf_dists <= l2_max)[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 2f3f305a6f3c5923c0892a190112a0bd1f9191f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 02/58] fix: wire parents after disconnecting an inner
 component from the outer wire of its polygon

---
 src/bgem/polygons/decomp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..b7d73a1 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -517,11 +517,10 @@ class Decomposition:
             # childs of the orig wire are in outer wire
             for ch in list(a_wire.childs):
                 ch.set_parent(outer_wire)
-            # possible wires in the new inner_wire bubble
-            for seg, side in inner_wire.segments():
-                side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
-                side_wire.set_parent(inner_wire)
+            # wires in the new inner_wire bubble, possibly not adjacent to the inner_wire
+            for wire in list(orig_parent.childs):
+                if wire != outer_wire and inner_wire.contains_wire(wire):
+                    wire.set_parent(inner_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
 
-- 
2.43.0


From 02f305eb25a9f18e54bd89cc7dba972187d1dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 03/58] fix: snap new lines to free points

---
 src/bgem/polygons/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..8d0a67c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -480,6 +480,8 @@ class PolygonDecomposition:
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
         candidates = self.segments_lookup.intersect_candidates(box)
         candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
+        # free points are not vertices of any segment
+        candidate_pt.update(self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box))
         candidate_pt = candidate_pt.difference(omit)
         # new line close to existing vertices, snap to them
         for pt in candidate_pt:
-- 
2.43.0


From a156e34ed7962a146c1d76447707fe9619843395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 04/58] fix: undo of new_segment on an existing segment and of
 removals loosing attributes

---
 src/bgem/polygons/polygons.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 8d0a67c..0a0e175 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -637,11 +637,14 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
+        is_new = len(self.segments) > n_segments
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
@@ -650,16 +653,20 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        self._add_point(pt.xy, pt.poly).attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
         seg = self.segments[seg.id]
         self.segments_lookup.rm_object(seg.id)
+        polygon_attrs = [poly.attr for poly in seg.polygons()]
         self.decomp.delete_segment(seg)
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg.attr = seg.attr
+        for poly, attr in zip(new_seg.polygons(), polygon_attrs):
+            poly.attr = attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
-- 
2.43.0


From 483462bb43744e2d75a18987c0cfad63bde4c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 05/58] fix: stale vector and lookup boxes after join_segments
 and move_points

---
 src/bgem/polygons/decomp.py   |  1 +
 src/bgem/polygons/polygons.py | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index b7d73a1..5569aed 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 0a0e175..7e7887b 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -253,6 +253,16 @@ class PolygonDecomposition:
         """
         for pt in points:
             pt.move(displacement)
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            for seg, side in pt.segments():
+                self._update_segment_box(seg)
+
+    def _update_segment_box(self, seg):
+        """
+        Update the lookup box of a segment with changed end points.
+        """
+        box = aabb_lookup.make_aabb([vtx.xy for vtx in seg.vtxs], margin=self.tolerance)
+        self.segments_lookup.add_object(seg.id, box)
 
 
     def get_last_polygon_changes(self):
@@ -687,6 +697,7 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self._update_segment_box(seg0)
         yield "Join segments", mid_pt
 
         self._split_segment(seg0, mid_pt)
-- 
2.43.0


From d9a255426cec9edb44bf267ce0f62f2931446eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 06/58] fix: merge_points for segments without attributes

---
 src/bgem/polygons/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 7e7887b..3a568ea 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -528,7 +528,7 @@ class PolygonDecomposition:
         b_diff = (a.xy - b.xy) #/2
         #a_can_move = self.check_displacment([a],  a_diff)
         b_can_move = self.check_displacment([b],  b_diff)
-        b_can_move = b_can_move and not b.segment[0].attr.boundary
+        b_can_move = b_can_move and not getattr(b.segment[0].attr, 'boundary', False)
         if b_can_move:
             #a.move(a_diff)
             for seg, b_idx in list(b.segments()):
-- 
2.43.0


From 994ed5d0ff19939ca5364d9de605456ef10c4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 07/58] fix: snapping of a point between two close parallel
 segments

---
 src/bgem/polygons/polygons.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 3a568ea..1b81c47 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -410,7 +410,11 @@ class PolygonDecomposition:
                 nb /= np.linalg.norm(nb)
                 if nb @ (point - xb) < 0:
                     nb = -nb
-                t = (self.tolerance - (xa - xb) @ nb) / (ua @ nb)
+                ua_nb = ua @ nb
+                if abs(ua_nb) < 1e-10 * np.linalg.norm(ua):
+                    # parallel segments
+                    return (1, seg_a, ta)
+                t = (self.tolerance - (xa - xb) @ nb) / ua_nb
                 xt = xa + t * ua
                 assert np.linalg.norm(xt - seg_b.parametric(self.seg_project_point(ub, xb, xt))) > self.tolerance*0.99
                 return (1, seg_a, t)
-- 
2.43.0


From 8802ab0956b6939b33085bd3903b04651ccfd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 08/58] fix: intersection of decompositions with vertices on
 segments of a later one

---
 src/bgem/polygons/merge.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..b2ae2c7 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -1,4 +1,6 @@
+import numpy.linalg as la
 from . import polygons
+from . import aabb_lookup
 from .decomp import PolygonChange, in_vtx, out_vtx, right_side, left_side
 
 def deep_copy(self):
@@ -39,6 +41,28 @@ def deep_copy(self):
     return decomp, id_maps
 
 
+def divided_segments(decomp, other, other_point_map):
+    """
+    Segments of 'other' subdivided by existing points of 'decomp' lying on them.
+    Yields (seg, a_pt, b_pt), for every part of a segment of 'other'; 'a_pt' and 'b_pt' are points of 'decomp'.
+    """
+    for seg in other.segments.values():
+        a_pt, b_pt = [decomp.points[other_point_map[pt.id]] for pt in seg.vtxs]
+        if a_pt == b_pt:
+            continue
+        vec = b_pt.xy - a_pt.xy
+        box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=decomp.tolerance)
+        mid_points = []
+        for pt_id in decomp.points_lookup.intersect_candidates(box):
+            pt = decomp.points[pt_id]
+            t = decomp.seg_project_point(vec, a_pt.xy, pt.xy)
+            if pt not in (a_pt, b_pt) and la.norm(a_pt.xy + t * vec - pt.xy) < decomp.tolerance:
+                mid_points.append((t, pt.id))
+        line = [a_pt] + [decomp.points[pt_id] for t, pt_id in sorted(mid_points)] + [b_pt]
+        for part_a_pt, part_b_pt in zip(line[:-1], line[1:]):
+            yield seg, part_a_pt, part_b_pt
+
+
 def intersect_single(decomp, other, merge_tol = 1e-10):
     """
     TODO: move to separate intersection module.
@@ -91,10 +115,7 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
         other_point_map[pt.id] = new_pt.id
         #maps_self[0].setdefault(new_pt.id, new_pt.id)
 
-    for seg in other.segments.values():
-        new_a_pt, new_b_pt = [decomp.points[other_point_map[pt.id]] for pt in seg.vtxs]
-        if new_a_pt == new_b_pt:
-            continue
+    for seg, new_a_pt, new_b_pt in divided_segments(decomp, other, other_point_map):
         other_right_poly, other_left_poly = seg.polygons()
         # print(decomp)
         # print('add line {} {}'.format(a, b))
-- 
2.43.0


From be1bcbeee7491636ae5327de3bee210994b14e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 09/58] fix: polygon map of the intersection for polygons in
 holes

---
 src/bgem/polygons/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index b2ae2c7..53f423e 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -157,7 +157,8 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
             while stack:
                 p_id = stack.pop(-1)
                 maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
+                outer_wire = decomp.polygons[p_id].outer_wire
+                for seg, side in [half_seg for w in [outer_wire, *outer_wire.childs] for half_seg in w.segments()]:
                     ngh_poly = seg.wire[1 - side].polygon
                     if maps_other[2][ngh_poly.id] is None:
                         stack.append(ngh_poly.id)
-- 
2.43.0


From 2a6ecc4cf75ef65eb23ef30d62e8fdc4fc533229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 10/58] fix: outer polygon in the polygon map of the
 intersection with a decomposition without segments

---
 src/bgem/polygons/merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 53f423e..1f97ec8 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -148,6 +148,8 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
             maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id
             maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
 
+    maps_other[2][decomp.outer_polygon.id] = other.outer_polygon.id
+
     # Fill remaining maps_other[2] items using DFS
     for poly_id in decomp.polygons.keys():
         maps_other[2].setdefault(poly_id, None)
-- 
2.43.0


From 31ccd20cedd07f431aff8eaf1fc2fe9afd253155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 11/58] fix: redocount of the undo stack

---
 src/bgem/undo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..3434024 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -255,7 +255,7 @@ class Stack:
 
     def redocount(self):
         ''' Return the number of redos available. '''
-        return len(self._undos)
+        return len(self._redos)
 
     def undotext(self):
         ''' Return a description of the next available undo. '''
-- 
2.43.0


From e94edecc0d5c907fc44e2903b546c14ff5171337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 12/58] fix: undo groups: restore the receiver after nested or
 failed groups

---
 src/bgem/undo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 3434024..8d4c699 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -101,11 +101,12 @@ class _Group:
         self._stack = []
 
     def __enter__(self):
+        self._outer_receiver = stack()._receiver
         stack().setreceiver(self._stack)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        stack()._receiver = self._outer_receiver
         if exc_type is None:
-            stack().resetreceiver()
             stack().append(self)
         return False
 
@@ -270,9 +271,10 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
         yield
-        self.resetreceiver()
+        self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From 6c0b6365f1c3b5347c4313e89f87510d08309ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 13/58] fix: haschanged after undo followed by another action

---
 src/bgem/undo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 8d4c699..546d09e 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -299,14 +299,18 @@ class Stack:
 
     def savepoint(self):
         ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
+        self._savepoint = self._last_action()
 
     def haschanged(self):
         ''' Return *True* if the state has changed since the savepoint. 
         
         This will always return *True* if the savepoint has not been set.
         '''
-        return self._savepoint is None or self._savepoint != self.undocount()
+        return self._savepoint is None or self._savepoint is not self._last_action()
+
+    def _last_action(self):
+        # The action to be undone next, the list itself if there is none.
+        return self._undos[-1] if self.canundo() else self._undos
 
 
 _stack = None
-- 
2.43.0


From e45a24e758a327efa353f98514ee0a99c33bdc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 14/58] fix: rebuilding of wires listed from the tip of a
 dendrite

---
 src/bgem/polygons/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 1b81c47..05b291c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -806,6 +806,9 @@ class PolygonDecomposition:
         wire = decomp.Wire()
         self.decomp.wires.append(wire)
 
+        if seg_ids[0] == seg_ids[1]:
+            # starts at the tip of a dendrite, both sides of the segment are possible; start after the tip
+            seg_ids = seg_ids[1:] + seg_ids[:1]
         # detect orientation of the first segment
         last_seg = self.decomp.segments[seg_ids[0]]
         seg1 = self.decomp.segments[seg_ids[1]]
-- 
2.43.0


From 23c158dfd1b0642adc37152ae1f5fefa169f45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 15/58] fix: equidistant knots for an integer knot range

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..abe520e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -37,7 +37,7 @@ class SplineBasis:
         :return: SplineBasis object.
         """
         n = n_intervals + 2 * degree + 1
-        knots = np.array((knot_range[0],) * n)
+        knots = np.array((knot_range[0],) * n, dtype=float)
         diff = (knot_range[1] - knot_range[0]) / n_intervals
         for i in range(degree + 1, n - degree):
             knots[i] = (i - degree) * diff + knot_range[0]
-- 
2.43.0


From 3e5ae1c478bd414603388e8b35c3edb7a12daaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 16/58] fix: linear poles for a domain that does not start at
 zero

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index abe520e..fc878c7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -235,7 +235,7 @@ class SplineBasis:
         Return poles of basis functions to get a f(x) = x.
         :return:
         """
-        poles= [ 0.0 ]
+        poles= [ self.knots[0] ]
         for i in range(self.size-1):
             pp = poles[-1] + (self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)
             poles.append(pp)
-- 
2.43.0


From 6f0caff0f2ef464ed12859a9d8642624efe5517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 17/58] fix: Z_Surface.eval

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index fc878c7..a36d915 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -857,7 +857,7 @@ class Z_Surface:
         :param u, v: Evaluation point.
         :return: D-dimensional numpy array. D - is dimension given by dimension of poles.
         """
-        z = self.z_surface.eval(u, v)
+        z = self.z_surface.eval(u, v)[0]
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-- 
2.43.0


From a4121ce08ef8028e96ca75492db6fb412440a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 18/58] fix: copies of Z_Surface with own XY transform

---
 src/bgem/bspline/bspline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index a36d915..e5d2b8f 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -810,7 +810,11 @@ class Z_Surface:
         bs.Surface for Z coordinates (Z poles).
         :return: A copy of the Z_Surface object.
         """
-        return copy.copy(self)
+        other = copy.copy(self)
+        # bind the XY maps to the copy
+        other.uv_to_xy = getattr(other, self.uv_to_xy.__name__)
+        other.xy_to_uv = getattr(other, self.xy_to_uv.__name__)
+        return other
 
 
     """
-- 
2.43.0


From 67931058839ac1115997ce7d6b6718d4d6f3a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 19/58] fix: Z_Surface.apply_z_transform resets also the public
 transform

---
 src/bgem/bspline/bspline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index e5d2b8f..f6c916c 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -800,8 +800,7 @@ class Z_Surface:
             self.z_surface = self.z_surface.deep_copy()
             self.z_surface.poles *= self._z_mat[0]
             self.z_surface.poles += self._z_mat[1]
-            self._z_mat = np.array([1.0, 0.0])
-            self._have_z_mat = False
+            self._reset_transform_z()
 
 
     def get_copy(self):
-- 
2.43.0


From ec6ddf12246018b78ad1acf1dd91f6327743cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 20/58] fix: Z_Surface.aabb for negative Z scale

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index f6c916c..93f6271 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -929,7 +929,7 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])
         return xyz_box
 
 
-- 
2.43.0


From f9c4e10dd900bf5804f07b7ffb61ea2ff56a2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 21/58] fix: XY transform of the bilinear Z_Surface

---
 src/bgem/bspline/bspline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 93f6271..1af1a68 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -743,6 +743,9 @@ class Z_Surface:
         else:
             # bilinear case
             self.quad = xy_quad
+            # used only in the linear case
+            self._xy_shift = np.zeros(2)
+            self._mat_uv_to_xy = self._mat_xy_to_uv = np.eye(2)
             self.xy_to_uv = self._bilinear_xy_to_uv
             self.uv_to_xy = self._bilinear_uv_to_xy
 
-- 
2.43.0


From c12a603350bceb09240aa806714981b38a4a447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 22/58] fix: copy of a rational surface

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 1af1a68..7f44871 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -568,7 +568,7 @@ class Surface:
         u_basis = copy.copy(self.u_basis)
         v_basis = copy.copy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From 9259f46d5b566a142fbc279000232c23d89196c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 23/58] fix: rational curves and surfaces from lists of poles

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 7f44871..2a9a006 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -381,8 +381,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -513,8 +513,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From b32ded496ec971df187cb8be195942fd32ac65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 24/58] fix: bounding boxes of rational curves and surfaces

---
 src/bgem/bspline/bspline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 2a9a006..22a0f7f 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -434,7 +434,7 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        return np.array( [np.amin(self.poles[:, 0:self.dim], axis=0), np.amax(self.poles[:, 0:self.dim], axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -585,7 +585,7 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        return np.array( [np.amin(self.poles[:, :, 0:self.dim], axis=(0,1)), np.amax(self.poles[:, :, 0:self.dim], axis=(0,1))] )
 
 
     def bounding_boxes(self):
-- 
2.43.0


From e29c2386398b6473700849a4a3d64e7badb447fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 25/58] fix: Z evaluation of a transformed grid surface

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 22a0f7f..54ee180 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1162,7 +1162,7 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From 519f35833ce78bd05f6a82ab335ea49cbc947b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 26/58] fix: boxes of curves and surfaces of degree other than
 two, of other dimension than three, rational

---
 src/bgem/bspline/bspline.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 54ee180..d6317b6 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -443,7 +443,7 @@ class Curve:
         :return:
         """
         tree = bih.BIH()
-        boxes = [bih.AABB(self.poles[it:it + 3, :].tolist()) for it in range(self.basis.n_intervals)]
+        boxes = [bih.AABB(self.poles[it:it + self.basis.degree + 1, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]
         tree.add_boxes(boxes)
         tree.construct()
 
@@ -597,14 +597,16 @@ class Surface:
         tree = bih.BIH()
         n_patch = self.u_basis.n_intervals * self.v_basis.n_intervals
 
-        patch_poles = np.zeros([9, 3, n_patch])
+        du = self.u_basis.degree + 1
+        dv = self.v_basis.degree + 1
+        patch_poles = np.zeros([du * dv, self.dim, n_patch])
         i_patch = 0
         for iu in range(self.u_basis.n_intervals):
             for iv in range(self.v_basis.n_intervals):
                 n_points = 0
-                for i in range(0, 3):
-                    for j in range(0, 3):
-                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, :]
+                for i in range(0, du):
+                    for j in range(0, dv):
+                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, 0:self.dim]
                         n_points += 1
                 assert i_patch == self.patch_pos2id(iu, iv)
                 i_patch += 1
-- 
2.43.0


From e696f682b9a2cb4bbdfc09dc58ed80f9e1c19567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 27/58] fix: derivative of the piecewise constant basis

---
 src/bgem/bspline/bspline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index d6317b6..5eef144 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -213,6 +213,8 @@ class SplineBasis:
     def eval_diff(self, i_base, t):
         assert 0 <= i_base < self.size
         deg = self.degree
+        if deg == 0:
+            return 0.0
         i = i_base
         if i_base == self.size - 2 and t == self.domain[1]:
             return - deg  / (self.knots[i + deg + 1] - self.knots[i + 1])
-- 
2.43.0


From bf9b6646cac49f788b607046ddf7c4badc714613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 28/58] fix: overhang of lines and bilinear surfaces given by
 integers

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..8f8c757 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,7 +47,7 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
@@ -78,7 +78,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From b75a273595913a99db0e4c0e5701ac1ae07ebc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 29/58] fix: overhang of a twisted bilinear surface

---
 src/bgem/bspline/bspline_approx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 8f8c757..4ebcd07 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -51,7 +51,9 @@ def bilinear_surface(vtxs, overhang=0.0):
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
+        twist = overhang * (dv[0] + dv[2])
         vtxs +=  np.roll(dv, 1, axis=0) - dv
+        vtxs += np.outer([-1, 1, -1, 1], twist)
 
     def mid(*idx):
         return np.mean( vtxs[list(idx)], axis=0)
-- 
2.43.0


From e4c2e79aec784ca4254cbfb379a7cd261097d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 30/58] fix: maximum norm of the approximation error

---
 src/bgem/bspline/bspline_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4ebcd07..3271358 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -463,7 +463,7 @@ class SurfaceApprox:
         logging.info('Computing error ...')
         start_time = time.time()
         diff = b_mat.dot(z_vec) - g_vec
-        self.error = max_diff = np.max(diff)
+        self.error = max_diff = np.max(np.abs(diff))
         logging.info("Approximation error (max norm): {}".format(max_diff) )
         end_time = time.time()
         logging.info('Computed in: {} s'.format(end_time - start_time))
-- 
2.43.0


From 9fa5e6a8179c50cdddded3a64f4d335265f6fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 31/58] fix: approximation of points with weights

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 3271358..49eb661 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -433,8 +433,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From 2c6cd09bd27111fb4106a847331b5409e95e71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 32/58] fix: approximation by a single patch

---
 src/bgem/bspline/bspline_approx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 49eb661..c139f3b 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -445,9 +445,10 @@ class SurfaceApprox:
 
         logging.info('Computing A and B svds approximation ...')
         start_time = time.time()
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=None,
+        ncv = min(10, bb_mat.shape[0] - 1)
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=None,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM',
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=ncv, tol=1e-2, which='LM',
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From 4db44fe6baea4e69a0c00ed56e56ac114d6d4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 33/58] fix: surface points on the boundary of other domains
 than [0, 1]

---
 src/bgem/bspline/surface_point.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/surface_point.py b/src/bgem/bspline/surface_point.py
index 27be9b0..241763c 100644
--- a/src/bgem/bspline/surface_point.py
+++ b/src/bgem/bspline/surface_point.py
@@ -64,7 +64,7 @@ class SurfacePoint:
         interface_flag as   "-1" corresponds to lower bound of the curve
                             "1" corresponds to upper bound of the curve
                             "0" corresponds to the interior points of the curve
-        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to 0 or 1
+        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to a bound of the domain
                             "0" otherwise
 
         """
@@ -80,8 +80,8 @@ class SurfacePoint:
             elif abs(ti[i, 1] - self.uv[i]) == 0:
                 self.interface_flag[i] = int(1)
 
-            # max/ min parameter value instead of 0 / 1
-            if np.logical_or(self.uv[i] == 0, self.uv[i] == 1):
+            domain = (self.surf.u_basis, self.surf.v_basis)[i].domain
+            if np.logical_or(self.uv[i] == domain[0], self.uv[i] == domain[1]):
                 self.boundary_flag[i] = 1
 
     # def patch_id(self):
-- 
2.43.0


From 69b6f3defbc6babb9b562f3d7bd4725626619b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 34/58] fix: construction of curve points

---
 src/bgem/bspline/curve_point.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bgem/bspline/curve_point.py b/src/bgem/bspline/curve_point.py
index 544f68d..dfc0635 100644
--- a/src/bgem/bspline/curve_point.py
+++ b/src/bgem/bspline/curve_point.py
@@ -20,7 +20,7 @@ class CurvePoint:
 
         self.interface_flag = 0
         self.boundary_flag = 0
-        self._curve_boundary_intersection()
+        self.curve_boundary_intersection()
         self.extend_patches()
 
     def extend_patches(self):
@@ -29,7 +29,7 @@ class CurvePoint:
         :return:
         """
 
-        if np.logical_and(self.curve_boundary_flag == 0, self.interface_flag != 0):
+        if np.logical_and(self.boundary_flag == 0, self.interface_flag != 0):
             it = self.it[0] + self.interface_flag
             self.it.append(it)
 
@@ -43,20 +43,21 @@ class CurvePoint:
         interface_flag as   "-1" corresponds to lower bound of the curve
                             "1" corresponds to upper bound of the curve
                             "0" corresponds to the interior points of the curve
-        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to 0 or 1
+        boundary_flag as    "1" if parameter corresponds to the surface boundary, i.e, equal to a bound of the domain
                             "0" otherwise
 
         """
 
-        t0 = self.surf.basis.knots[self.it[0] + 2]
-        t1 = self.surf.basis.knots[self.it[0] + 3]
+        t0 = self.curv.basis.knots[self.it[0] + 2]
+        t1 = self.curv.basis.knots[self.it[0] + 3]
 
         if abs(t0 - self.t) == 0:
             self.interface_flag = -1
         elif abs(t1 - self.t) == 0:
             self.interface_flag = 1
 
-        if np.logical_or(self.t == 0, self.t == 1):
+        domain = self.curv.basis.domain
+        if np.logical_or(self.t == domain[0], self.t == domain[1]):
             self.boundary_flag = 1
 
 
-- 
2.43.0


From a85e56fc8e64b17a1422fad7057f522f61eabee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 35/58] fix: intersections of a curve and a surface

---
 src/bgem/bspline/isec_curve_surf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index cb276d7..ed33176 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -10,9 +10,12 @@ class IsecCurveSurf:
     Class which provides intersection of the given surface and curve
     """
 
-    def __init__(self, surf, curv):
+    def __init__(self, surf, curv, max_it=10, rel_tol=1e-16, abs_tol=1e-14):
         self.surf = surf
         self.curv = curv
+        self.max_it = max_it
+        self.abs_tol = abs_tol
+        self.rel_tol = rel_tol
 
     def _compute_jacobian_and_coordinates(self, uvt, iuvt):
         """
@@ -130,7 +133,7 @@ class IsecCurveSurf:
 
                     if curv_point.interface_flag != 0:
                         ind = it + int(0.5 * (curv_point.interface_flag + 1))
-                        crossing[tuple(ind)] = 1
+                        crossing[ind] = 1
 
         return point_list
 
-- 
2.43.0


From d409b354d009053469ef451b114b984e9d8f097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 36/58] fix: intersections with curves parallel to the surface

---
 src/bgem/bspline/isec_curve_surf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index ed33176..80a3f09 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -87,7 +87,11 @@ class IsecCurveSurf:
                 break
 
             delta_xyz = delta_xyz.flatten()
-            uvt = uvt - la.solve(J, delta_xyz)
+            try:
+                uvt = uvt - la.solve(J, delta_xyz)
+            except la.LinAlgError:
+                # the curve is parallel to the surface, no isolated intersection
+                break
             uvt = np.maximum(uvt, min_bounds)
             uvt = np.minimum(uvt, max_bounds)
 
-- 
2.43.0


From d8f38a26cee0e07615430bca6e7f4125d1b1a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 37/58] fix: location of the written model

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..f4ab099 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1085,7 +1085,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From a3f7de88469ead2f77fc3da0d1d5bd458ca4e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 38/58] fix: plane through a given list of points

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index f4ab099..87a5f02 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -375,7 +375,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From 88f1eb45e754e541ee014e4bc7e022f37741499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 39/58] fix: repeated indexing and writing of a model

---
 src/bgem/bspline/brep_writer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 87a5f02..bcf9325 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -84,7 +84,9 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
+        is_identity = getattr(self, 'matrix', True) is None
+        if not is_identity and getattr(self, '_groups', None) is not groups:
+            self._groups = groups
             id=len(groups['locations'])+1
             self.id = id
             groups['locations'].append(self)
@@ -194,7 +196,8 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if getattr(self, '_groups', None) is not groups:
+            self._groups = groups
             id = len(groups['curves_3d']) + 1
             self.id = id
             groups['curves_3d'].append(self)
@@ -249,7 +252,8 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if getattr(self, '_groups', None) is not groups:
+            self._groups = groups
             id = len(groups['curves_2d']) + 1
             self.id = id
             groups['curves_2d'].append(self)
@@ -331,7 +335,8 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if getattr(self, '_groups', None) is not groups:
+            self._groups = groups
             id = len(groups['surfaces']) + 1
             self.id = id
             groups['surfaces'].append(self)
@@ -600,8 +605,9 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if getattr(self, '_groups', None) is groups:
             return
+        self._groups = groups
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
             sub_ref.shape._dfs(groups)
-- 
2.43.0


From 19185e0853423c2b17cfca74d9f6d1e621bb2423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 40/58] fix: reading of version 1 meshes without the format
 section

---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..6d75fce 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,6 +97,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From 5c5fe9b233a480a6d2b22311c25a8caba5edf637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 41/58] fix: reading of elements with a short list of tags and
 nodes

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 6d75fce..4479d00 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -148,7 +148,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From b167778dc0c6f60edb2398d97698bf0fc1876826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 42/58] fix: reading of physical names containing spaces

---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4479d00..a372b63 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -122,6 +122,7 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
 
-- 
2.43.0


From 39a0bcf30af2c74a451c49f333af65d6fb74532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 43/58] fix: reading of a mesh stopped at an empty line

---
 src/bgem/gmsh/gmsh_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index a372b63..a61ff10 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -99,10 +99,10 @@ class GmshIO:
         readmode = 0
         ftype = 0
         print('Reading %s' % mshfile.name)
-        line = 'a'
-        while line:
-            line = mshfile.readline()
-            line = line.strip()
+        raw_line = 'a'
+        while raw_line:
+            raw_line = mshfile.readline()
+            line = raw_line.strip()
 
             if line.startswith('$'):
                 if line == '$NOD' or line == '$Nodes':
@@ -119,7 +119,7 @@ class GmshIO:
                     self.read_element_data_block(mshfile)
                 else:
                     readmode = 0
-            elif readmode:
+            elif readmode and line:
                 columns = line.split()
                 if readmode == 5:
                     columns = line.split(None, 2)
-- 
2.43.0


From 25c0acfe72da4c18834b49e85cba80961b041624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 44/58] fix: writing of element data given by a 1d array

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index a61ff10..4bdf6d3 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -266,7 +266,7 @@ class GmshIO:
         """
         n_els = values.shape[0]
         n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        values = np.reshape(values, (n_els, n_comp))
         header_dict = dict(
             field=str(name),
             time=0,
-- 
2.43.0


From 5ff302529275357d487c8607c97d666c70da4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 45/58] fix: writing of fields to the current mesh file

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4bdf6d3..3612dc8 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -301,7 +301,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From eb4e08d250595683123160a3b935fcf80eb9bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 46/58] fix: faces joining the edges of a tetrahedron in its
 gradient error indicator

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..d5a1a36 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -86,7 +86,7 @@ class Tetrahedron(ShapeBase):
     def smooth_grad_error_indicator(self):
         faces = self.face_areas
         e_lens = self.edge_lens
-        e_faces = [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3], [2, 3]] # faces joining the edge
+        e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
         regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
-- 
2.43.0


From 207c286bf64bb0dce35ad4b19e7fe7f06b282e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 47/58] fix: gamma of a flat tetrahedron with nodes on a circle

---
 src/bgem/gmsh/heal_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index d5a1a36..fb91adb 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -101,8 +101,8 @@ class Tetrahedron(ShapeBase):
             # circum radius
             a,b,c,A,B,C = self.edge_lens
             x_area = (a*A + b*B + c*C)*(a*A + b*B - c*C)*(a*A - b*B + c*C)*(-a*A + b*B + c*C)
-            assert x_area > 0, x_area
-            R = np.sqrt(x_area) / 24 / max(1e-300, V)
+            # zero (up to rounding) for nodes on a common circle
+            R = np.sqrt(max(0, x_area)) / 24 / max(1e-300, V)
             self._gamma = 3 * r/max(1e-300, R)
         return self._gamma
 
-- 
2.43.0


From 93ff3e2f8554b4e00fcfe6d6527ee3e887a81572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 48/58] fix: altitude of a tetrahedron in the flat indicator

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index fb91adb..f172166 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -42,7 +42,7 @@ class ShapeBase:
         dim = self.dim
         max_edge = max(1e-300, np.max(self.edge_lens))
         if dim == 3:
-            alt = 6 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
+            alt = 3 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
         else:
             alt = 2 * np.abs(self.measure) / max_edge
 
-- 
2.43.0


From 7752438b124dd3690abc66766e0237ae01ca0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 49/58] fix: size of the mesh for the tolerance of nodes

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index f172166..4e3c129 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From 97e9a60eea4cd663515e5c6289f6b029f564bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 50/58] fix: healing of an isolated element with repeated or
 close nodes

---
 src/bgem/gmsh/heal_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 4e3c129..0ca32cb 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -457,9 +457,9 @@ class HealMesh:
             if eid in self.mesh.elements:
                 ele = self._make_element(eid)
                 modified = self._check_dupl_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_degen_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_duplicate_element(ele)
                 if modified: continue
 
-- 
2.43.0


From dd1751e4dae19d3ea0cd9dd98c1a6df3a61f349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 51/58] fix: upper bound of the threshold field

---
 src/bgem/gmsh/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..dc50e62 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -45,7 +45,7 @@ def distance_edges(curves, nodes_per_edge=8, coordinate_fields=None) -> Field:
 def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     """
     field_min, threshold_min = lower_bound
-    field_max, threshold_max = lower_bound
+    field_max, threshold_max = upper_bound
 
     threshold = threshold_min IF field <= field_min
     threshold = threshold_max IF field >= field_max
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From 0887d7f270cd253bcc9e7fe6db8acac3ea49d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 52/58] fix: threshold field without an upper bound

---
 src/bgem/gmsh/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index dc50e62..471ef8a 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -65,7 +65,9 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-        gmsh_field.setNumber(id, "StopAtDistMax", True)
+        # no upper bound, GMSH would use its default values otherwise
+        gmsh_field.setNumber(id, "DistMax", 1e300)
+        gmsh_field.setNumber(id, "LcMax", threshold_min)
 
     if sigmoid:
         gmsh_field.setNumber(id, "Sigmoid", True)
-- 
2.43.0


From 9271d7304736f4129a6fd96141c2be4ffdafb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 53/58] fix: rectangle changed the given list of sides

---
 src/bgem/gmsh/gmsh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..07f0bb7 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,8 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
-        corner = np.array(center) - np.array(xy_sides) / 2
+        corner = np.array(center) - np.array([*xy_sides[0:2], 0]) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
         return self.object(2, rec_tag)
-- 
2.43.0


From 0ba20099665a6541da29eb9351ac5b52fd86c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 54/58] fix: polygon needs synchronization

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 07f0bb7..70bee03 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -295,6 +295,7 @@ class GeometryOCC:
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From 436c0b6f74ab6c89f338e51d5f448ff60f4941c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 55/58] fix: polygon with an integer mesh step

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 70bee03..1f4dcdd 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -288,7 +288,7 @@ class GeometryOCC:
         """
         if mesh_step is None:
             mesh_step = 0.0
-        if type(mesh_step) is float:
+        if np.ndim(mesh_step) == 0:
             mesh_step = np.full(len(points), mesh_step)
         vertices = [self.model.addPoint(*p, step, tag=-1) for p, step in zip(points, mesh_step)]
         vertices.append(vertices[0])
-- 
2.43.0


From 1f7540578e6c9a482c12a0674433577e5a60e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 56/58] fix: order of the corners in make_rectangle

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 1f4dcdd..244d2ea 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -327,7 +327,7 @@ class GeometryOCC:
 
     def make_rectangle(self, scale) -> int:
         # Vertices of the rectangle
-        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])
+        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])
         corners = shifts[:, :] * scale[None, :]
         point_tags = [self.model.addPoint(*corner) for corner in corners]
         lines = [self.model.addLine(point_tags[i - 1], point_tags[i]) for i in range(4)]
-- 
2.43.0


From 232dc5a82e97f82188c6af275b101d8240a4ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 57/58] fix: shapes removed by keep_only

---
 src/bgem/gmsh/gmsh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 244d2ea..1458e51 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -466,9 +466,11 @@ class GeometryOCC:
         all_dimtags = set(gmsh.model.getEntities())
         remove_dimtags = all_dimtags.difference(set(group_dimtags))
         try:
-            self.model.remove(list(remove_dimtags), recursive=False)
+            # higher dimensions first, a shape can not be removed while it bounds another one
+            self.model.remove(sorted(remove_dimtags, reverse=True), recursive=False)
         except ValueError:
             pass
+        self._need_synchronize = True
 
     def all_entities(self):
         self.synchronize()
-- 
2.43.0


From 72e1026edec1cbe2451c5d12ab0ed4423897bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 58/58] fix: unique names of physical groups

---
 src/bgem/gmsh/gmsh.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 1458e51..43da572 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -399,12 +399,15 @@ class GeometryOCC:
             reg_names[reg.name].add(reg.id)
 
         # make used region names unique
-        for id_set in reg_names.values():
+        used_names = set(reg_names)
+        for name, id_set in reg_names.items():
             if len(id_set) > 1:
-                for i, id in enumerate(sorted(id_set)
-
-                                       ):
+                i = 0
+                for id in sorted(id_set):
+                    while "{}_{}".format(name, i) in used_names:
+                        i += 1
                     reg_to_tags[id][0].set_unique_name(i)
+                    used_names.add(reg_to_tags[id][0].name)
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-- 
2.43.0

