From 97d55fb9f6952db730b38990ea81a9dee96276a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 01/17] fix: SheetPlex.limit looks up the second side on the
 intersection

---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..0060c44 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -83,7 +83,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From dcdfbb6f598b32c7c06856ac86b6846d2f67582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 02/17] fix: write_dxf skips empty sheets instead of writing
 NaN coordinates

An empty geometry has a NaN bounding box, which made the offsets of all
following sheets NaN.
---
 plycutter/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..a4d6acf 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,10 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            # Nothing to draw, and no bounding box to lay out
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From bd7a2e3a2ca8003310e1691d8c9071128c978172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 03/17] fix: find joints beyond 1000 units of the joint origin

The initial range of a joint was limited to +-1000 of the origin of its
coordinate system; anything beyond that silently got no fingers.
---
 plycutter/sheetbuild.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..de4830f 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -23,7 +23,7 @@ import pyrsistent as pyr
 import logging
 
 from .misc import Autocompletable
-from .plytypes import fastr, F, Fraction
+from .plytypes import fastr, F
 from .geometry.geom1d import Geom1D
 
 logger = logging.getLogger(__name__)
@@ -257,7 +257,10 @@ def create_sheetbuild(sp, params):
                         sheet_ok[interside.sheet] &
                         sp.sheets[interside.sheet].slices_max &
                         interside.make_fingers(
-                            Geom1D([[Fraction(-1000), Fraction(1000)]])))
+                            # Everything along the joint, wherever it is
+                            interside.project_to_1d(
+                                sp.sheets[interside.sheet].slices_max)
+                            .buffer(1)))
                     for interside in sp.intersides()}
 
     for interside in sp.intersides():
-- 
2.43.0


From 3aac6680eb4dbda2bf2b983d87d5eeae25b4b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 04/17] fix: random_min_max fails on joints without slack

When the total is (almost) n times the minimum or maximum width, rounding
of the running total made the assertion low <= hi fail.
---
 plycutter/heuristics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..5989824 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -416,7 +416,10 @@ def random_min_max(n, mn, mx, total, rng):
         low = max(at_min, mn)
         hi = min(at_most, mx)
         # logger.debug(low, hi)
-        assert low <= hi
+        assert low <= hi + 1e-8
+        # When there is (almost) no slack, rounding in running_total
+        # can put these in the wrong order
+        hi = max(low, hi)
         cur = rng.uniform(low, hi)
         # logger.debug(cur)
         lengths[i] = cur
@@ -428,8 +431,8 @@ def random_min_max(n, mn, mx, total, rng):
     for i in range(n):
         result.append((cur_sum, cur_sum + lengths[i]))
         cur_sum += lengths[i]
-    assert cur_sum - \
-        total < 1e-8, (lengths, sum(lengths), result, cur_sum, total)
+    assert abs(cur_sum - total) < 1e-8, \
+        (lengths, sum(lengths), result, cur_sum, total)
     return result
 
 
-- 
2.43.0


From ae80f1e1f49fadb7115209aa39ba764740a5169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 05/17] fix: canned_1 hides the original error of a failing
 step

Without return_on_failure in params (as from the command line) a KeyError
was raised instead; with it, a failure to create the sheetbuild ended in an
UnboundLocalError.
---
 plycutter/canned.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..26b68ef 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -37,6 +37,7 @@ def canned_1(sheetplex, params, show=False):
     global sb_log
     sb_log = []
     ok = False
+    sb = None
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
@@ -79,14 +80,14 @@ def canned_1(sheetplex, params, show=False):
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
         ok=ok,
         sheetbuild=sb,
         history=sb_log,
-        sheet_cuts=sb.sheet_chosen,
+        sheet_cuts=sb.sheet_chosen if sb is not None else None,
         params=params,
     )
 
-- 
2.43.0


From d584344200aff9f7b64aaf72253d2b8cbc9d0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 06/17] fix: canned_1(show=True) calls do_show without the
 sheetbuild

---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index 26b68ef..cfa6f79 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -71,7 +71,7 @@ def canned_1(sheetplex, params, show=False):
             sb_log.append(sb.set('dbg', op))
             sb = op(sb, params)
             if show:
-                do_show(op)
+                do_show(op, sb)
 
         sb_log.append(sb)
         sb.check(force=True)
-- 
2.43.0


From c9ab466ba3c7504c54c2c246b1dbeaa26926290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 07/17] fix: to_mpatch of an empty geometry with an axes object

---
 plycutter/geometry/geom2dbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/geometry/geom2dbase.py b/plycutter/geometry/geom2dbase.py
index 3cc2047..6051504 100644
--- a/plycutter/geometry/geom2dbase.py
+++ b/plycutter/geometry/geom2dbase.py
@@ -134,7 +134,8 @@ class Geom2DBase:
             patch = None
 
         if ax is not None:
-            ax.add_patch(patch)
+            if patch is not None:
+                ax.add_patch(patch)
             ax.autoscale_view()
         return patch
 
-- 
2.43.0


From 08d91f4d801b7ff2a69b79b109380ff2cc34484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 08/17] fix: implement the documented ^ operation of Geom2D

---
 plycutter/geometry/geom2dbase.py                 | 2 ++
 plycutter/geometry/impl2d/geom2d_simple_holes.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/plycutter/geometry/geom2dbase.py b/plycutter/geometry/geom2dbase.py
index 6051504..aca0b4e 100644
--- a/plycutter/geometry/geom2dbase.py
+++ b/plycutter/geometry/geom2dbase.py
@@ -60,6 +60,8 @@ class Geom2DBase:
     def __and__(self, other): pass
     @abstractmethod
     def __sub__(self, other): pass
+    @abstractmethod
+    def __xor__(self, other): pass
 
     @abstractmethod
     def locate(self, pt):
diff --git a/plycutter/geometry/impl2d/geom2d_simple_holes.py b/plycutter/geometry/impl2d/geom2d_simple_holes.py
index fe6eff9..e1a82cc 100644
--- a/plycutter/geometry/impl2d/geom2d_simple_holes.py
+++ b/plycutter/geometry/impl2d/geom2d_simple_holes.py
@@ -304,6 +304,9 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
 
         return self._arrangement_op([self, other], oper)
 
+    def __xor__(self, other):
+        return self._arrangement_op([self, other], operator.xor)
+
     def buffer(self, amount):
         global locs
         locs = locals()  # DBG
-- 
2.43.0


From c9f06c2d0b7060d5a1fedc28df6ed4890c8c2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 09/17] fix: Geom1D.is_bounded overflows on huge rationals

---
 plycutter/geometry/geom1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..d1101c8 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -163,7 +163,7 @@ class Geom1D:
     def is_bounded(self):
         """Return true if the region described by this Geom1D is bounded.
         """
-        return math.isfinite(self.measure1d())
+        return self.measure1d() < math.inf
 
     def __or__(self, other):
         return Geom1D(self.intervals + other.intervals)
-- 
2.43.0


From 77e85b55cf000d099021102ad208363175a0b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 10/17] fix: approximate formatting of rationals too large for
 a float

---
 plycutter/plytypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plycutter/plytypes.py b/plycutter/plytypes.py
index 6c22dc7..ebf0e3a 100644
--- a/plycutter/plytypes.py
+++ b/plycutter/plytypes.py
@@ -95,7 +95,11 @@ def fstr(*objs, approx=False):  # noqa (recursion)
                                    for k, v in o.items()) + "}"
         if isinstance(o, FractionClass):
             if approx:
-                f = float(o)
+                try:
+                    f = float(o)
+                except OverflowError:
+                    # Not representable as a float
+                    return str(int(o))
                 if math.trunc(f) == f:
                     return str(int(f))
                 return str(f)
-- 
2.43.0


From a92225f27e592f379d031e3a5dcae92e9b3b610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 11/17] fix: make the output independent of string hash
 randomization

The iteration order of PMaps and sets of strings depends on PYTHONHASHSEED, and
the numbering of joint sides, the order of heuristic choices and of random
numbers drawn, and the layout of the parts followed it: the same command with
the same --random_seed gave different cuts from one process to the next.
---
 plycutter/command_line.py     |  2 +-
 plycutter/create_sheetplex.py |  3 ++-
 plycutter/heuristics.py       | 10 +++++-----
 plycutter/sheetplex.py        |  2 +-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index fc3a9da..4c5a175 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -96,7 +96,7 @@ def main(arguments=sys.argv[1:]):
 
     to_write_dilated = {
         k: v.buffer(args.final_dilation)
-        for k, v in to_write.items()
+        for k, v in sorted(to_write.items())
     }
     print(to_write_dilated)
 
diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index 52d64cf..09f8ed3 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -297,7 +297,8 @@ def find_all_facets(mesh):
 
 
 def create_intersections(sp):
-    sheets = list(sp.sheets.values())
+    # Sorted: the order of a PMap depends on string hashes
+    sheets = [sheet for _, sheet in sorted(sp.sheets.items())]
     for i, sheet0 in enumerate(sheets):
         for sheet1 in sheets[i+1:]:
             sp = create_intersection(sp, (sheet0, sheet1))
diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 5989824..c523394 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -152,7 +152,7 @@ def _find_interactions(sb):
 
     interactions = collections.defaultdict(lambda: [])
 
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         intersides = list(sp.intersides(sheet.id))
         for i, i_interside in enumerate(intersides):
             i_fingers = i_interside.make_fingers(
@@ -258,7 +258,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
     for cluster in clusters.values():
         logger.debug('CLUSTER', cluster)
         intersections = [sp.intersections[intersection_id]
-                         for intersection_id in cluster.keys()]
+                         for intersection_id in sorted(cluster.keys())]
 
         sheet_ids = set()
         intersides_by_sheet = collections.defaultdict(lambda: [])
@@ -268,7 +268,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
                 sheet_ids.add(interside.sheet)
                 intersides_by_sheet[interside.sheet].append(interside)
 
-        sheets = [sp.sheets[sheet_id] for sheet_id in sheet_ids]
+        sheets = [sp.sheets[sheet_id] for sheet_id in sorted(sheet_ids)]
 
         eps = F(2, 10)
         min_finger = 3
@@ -379,7 +379,7 @@ def choose_the_ok_side(sb, params=None):
     sb.check()
 
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         for interside in intersection.sides:
             this_only = sb.interside_ok[interside.id]
             this_only -= sb.interside_chosen[interside.id]
@@ -445,7 +445,7 @@ def single_fingers_random(sb, params=None):
     # XXX Assert that there are no multiple intersections
     # any more
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         sides = intersection.sides
         assert len(sides) == 2
         # At this point, everything left should be
diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 0060c44..0b7c201 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -65,7 +65,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
 
     def intersides(self, sheet_id=None):
         """Return an iterator for intersides of a particular sheet or all"""
-        for intersection in self.intersections.values():
+        for _, intersection in sorted(self.intersections.items()):
             for side in intersection.sides:
                 if sheet_id is None or side.sheet == sheet_id:
                     yield side
-- 
2.43.0


From e2ff89c309c9e2aa00eefd4d675bb097e847c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 12/17] fix: polygon with a hole inside a partially filled hole
 fails to assemble

When a cell is merged into a hole after that hole had been separated from its
outer boundary, the cell was recorded only for the hole. A further component
inside that cell then found no outer polygon and the operation failed with an
assertion, depending on the order of a set of objects.
---
 plycutter/geometry/impl2d/arrangement2d.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/plycutter/geometry/impl2d/arrangement2d.py b/plycutter/geometry/impl2d/arrangement2d.py
index b1600ef..b8200ff 100644
--- a/plycutter/geometry/impl2d/arrangement2d.py
+++ b/plycutter/geometry/impl2d/arrangement2d.py
@@ -813,6 +813,26 @@ class SegmentArrangement:
                 pos_original_cell[original] = pos_cell
                 # print('POSOR', fastr(original, pos_cell))
 
+        # Originals that were merged into a hole after it had separated
+        # from the outer boundary are listed only for the hole.
+        # They belong to the outer cell with which the hole shares originals.
+        changed = True
+        while changed:
+            changed = False
+            for neg_cell in negatives:
+                originals = cells_originals[neg_cell]
+                outers = {pos_original_cell[original]
+                          for original in originals
+                          if original in pos_original_cell}
+                missing = [original for original in originals
+                           if original not in pos_original_cell]
+                if len(outers) > 0 and len(missing) > 0:
+                    assert len(outers) == 1
+                    outer, = outers
+                    for original in missing:
+                        pos_original_cell[original] = outer
+                    changed = True
+
         # XXX
         # neg_original_cell = {}
         # for neg_cell in negatives:
-- 
2.43.0


From 6ddbc81c1ed7b397b41b47591aec0399362cf699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 13/17] fix: growing or shrinking a shape loses pieces inside a
 hole of another piece

---
 plycutter/geometry/impl2d/geom2d_simple_holes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plycutter/geometry/impl2d/geom2d_simple_holes.py b/plycutter/geometry/impl2d/geom2d_simple_holes.py
index e1a82cc..5ddf5ca 100644
--- a/plycutter/geometry/impl2d/geom2d_simple_holes.py
+++ b/plycutter/geometry/impl2d/geom2d_simple_holes.py
@@ -357,6 +357,12 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
     def _minkowski_convex_op(self, cpoly, sign):
         cpoly = NP(cpoly)
         assert sign != 0
+        if len(self.spwhs) > 1:
+            # Piece by piece: what is removed for a hole of one piece
+            # must not remove other pieces that lie inside that hole.
+            return union_tree([
+                self.__class__([spwh])._minkowski_convex_op(cpoly, sign)
+                for spwh in self.spwhs])
 #        if sign < 0:
 #            cpoly = cpoly * -1
         offset = NP((0, 0))
-- 
2.43.0


From 1288279449e204371e02ddde44fd0f4cb84d9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 14/17] fix: totuple turns large integers into floats

---
 plycutter/plytypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/plytypes.py b/plycutter/plytypes.py
index ebf0e3a..e75f1b9 100644
--- a/plycutter/plytypes.py
+++ b/plycutter/plytypes.py
@@ -117,7 +117,8 @@ def totuple(v):
 
     Useful for creating hash keys from numpy arrays of rationals.
     """
-    v = np.asarray(v)
+    # Not letting numpy choose a type for the values, which may be inexact
+    v = np.asarray(v, dtype=object)
     if len(v.shape) > 0:
         return tuple([totuple(elem) for elem in v])
     return v.tolist()
-- 
2.43.0


From 264f356a5f6261ed91424e0040ca5943c2cca58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 15/17] fix: exact printing of a Geom1D raises TypeError

---
 plycutter/geometry/geom1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d1101c8..360178c 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
-- 
2.43.0


From 099574b05b3ff3ad5729c0450d1efd9704235510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 16/17] fix: refusing to rule out a decided position raises
 AttributeError

---
 plycutter/sheetbuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index de4830f..3b10e9d 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -79,7 +79,8 @@ class SheetBuild(pyr.PRecord, Autocompletable):
     def unchoose_interside(self, interside_id, v):
         """State that the range v will never be chosen"""
         assert (self.interside_chosen[interside_id] & v).is_empty(), fastr(
-            interside_id, v, (self.interside_chosen[interside_id] & v).area()
+            interside_id, v,
+            (self.interside_chosen[interside_id] & v).measure1d()
         )
         interside = self.sheetplex.interside(interside_id)
 
-- 
2.43.0


From 8df0bdf78bcab4af4b796fa6eda31114d8fbde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 17/17] fix: slivers between material and joint edges become
 loose parts

---
 plycutter/sheetbuild.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 3b10e9d..296bbeb 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -25,6 +25,7 @@ import logging
 from .misc import Autocompletable
 from .plytypes import fastr, F
 from .geometry.geom1d import Geom1D
+from .geometry.geom2d import Geom2D
 
 logger = logging.getLogger(__name__)
 
@@ -233,6 +234,15 @@ def map_or(mapping1, mapping2):
     return mapping1
 
 
+def remove_specks(geom, min_area=F(1, 100)):
+    """Remove the polygons whose area is negligible."""
+    polygons = list(geom.polygons())
+    kept = [polygon for polygon in polygons if polygon.area() >= min_area]
+    if len(kept) == len(polygons):
+        return geom
+    return Geom2D.union(kept)
+
+
 def create_sheetbuild(sp, params):
     """Create an as-free-as-possible SheetBuild for the given SheetPlex.
     """
@@ -271,6 +281,10 @@ def create_sheetbuild(sp, params):
         interside = sp.interside(k)
         sheet_chosen[interside.sheet] -= interside.make_fingers(v)
 
+    # The coordinates come from floats: material and joint edges that
+    # should coincide may leave slivers which would become loose pieces
+    sheet_chosen = {k: remove_specks(v) for k, v in sheet_chosen.items()}
+
     global locs
     locs = locals()
 
-- 
2.43.0

