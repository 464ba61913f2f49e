From 812c634a14793fe56d3e652926de1d7427a2e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 1/9] fix: reproducible order of merged cells (hash cells by
 vertices, not address)

---
 plycutter/geometry/impl2d/cell_merger.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plycutter/geometry/impl2d/cell_merger.py b/plycutter/geometry/impl2d/cell_merger.py
index c812e45..7826417 100644
--- a/plycutter/geometry/impl2d/cell_merger.py
+++ b/plycutter/geometry/impl2d/cell_merger.py
@@ -53,6 +53,11 @@ class CellMergerSlow:
                 v1 = cell[(i + 1) % n]
                 self.half_edges[v0, v1] += 1
 
+        def __hash__(self):
+            # Not the default, address-based hash: the iteration order of
+            # the set of cells must be reproducible
+            return hash(self.vertices)
+
         def __repr__(self):
             return f'CELL({fstr(self.vertices), fstr(self.origs)})'
 
-- 
2.43.0


From 09a6ba1d6f813a57703c7b994b9fec42c3558296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 2/9] fix: process sheets and intersections in id order, not in
 hash order

---
 plycutter/command_line.py     |  2 +-
 plycutter/create_sheetplex.py |  3 ++-
 plycutter/heuristics.py       | 18 +++++++++---------
 plycutter/sheetplex.py        |  3 ++-
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index fc3a9da..4c5a175 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -96,7 +96,7 @@ def main(arguments=sys.argv[1:]):
 
     to_write_dilated = {
         k: v.buffer(args.final_dilation)
-        for k, v in to_write.items()
+        for k, v in sorted(to_write.items())
     }
     print(to_write_dilated)
 
diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index 52d64cf..ae0a8e5 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -297,7 +297,8 @@ def find_all_facets(mesh):
 
 
 def create_intersections(sp):
-    sheets = list(sp.sheets.values())
+    # By id: the iteration order of a PMap varies from run to run
+    sheets = sorted(sp.sheets.values(), key=lambda sheet: sheet.id)
     for i, sheet0 in enumerate(sheets):
         for sheet1 in sheets[i+1:]:
             sp = create_intersection(sp, (sheet0, sheet1))
diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..eac346e 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -68,7 +68,7 @@ def remove_loose(sb, params=None):
     both-face support"""
     sb.check()
     sp = sb.sheetplex
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         full_support = sheet.faces[0] & sheet.faces[1]
         possible = sb.sheet_chosen[sheet.id] | sb.sheet_ok[sheet.id]
         impossible = Geom2D.empty()
@@ -106,7 +106,7 @@ def update_sheet_ok(sb, params=None):
     """
     sb.check()
     sp = sb.sheetplex
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         on_interside = Geom2D.empty()
         ok_on_interside = Geom2D.empty()
         for interside in sp.intersides(sheet.id):
@@ -152,7 +152,7 @@ def _find_interactions(sb):
 
     interactions = collections.defaultdict(lambda: [])
 
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         intersides = list(sp.intersides(sheet.id))
         for i, i_interside in enumerate(intersides):
             i_fingers = i_interside.make_fingers(
@@ -258,7 +258,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
     for cluster in clusters.values():
         logger.debug('CLUSTER', cluster)
         intersections = [sp.intersections[intersection_id]
-                         for intersection_id in cluster.keys()]
+                         for intersection_id in sorted(cluster.keys())]
 
         sheet_ids = set()
         intersides_by_sheet = collections.defaultdict(lambda: [])
@@ -268,7 +268,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
                 sheet_ids.add(interside.sheet)
                 intersides_by_sheet[interside.sheet].append(interside)
 
-        sheets = [sp.sheets[sheet_id] for sheet_id in sheet_ids]
+        sheets = [sp.sheets[sheet_id] for sheet_id in sorted(sheet_ids)]
 
         eps = F(2, 10)
         min_finger = 3
@@ -355,7 +355,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
 
         # Unchoose all other intersides
 
-        for other_intersection_id, rnge in cluster.items():
+        for other_intersection_id, rnge in sorted(cluster.items()):
             other_intersection = sp.intersections[other_intersection_id]
             for side in other_intersection.sides:
                 if side.sheet != sheets[choice].id:
@@ -379,7 +379,7 @@ def choose_the_ok_side(sb, params=None):
     sb.check()
 
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         for interside in intersection.sides:
             this_only = sb.interside_ok[interside.id]
             this_only -= sb.interside_chosen[interside.id]
@@ -442,7 +442,7 @@ def single_fingers_random(sb, params=None):
     # XXX Assert that there are no multiple intersections
     # any more
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         sides = intersection.sides
         assert len(sides) == 2
         # At this point, everything left should be
@@ -521,7 +521,7 @@ def clean_up_thin_ok_parts(sb, params=None):
     eps_pos = F(1, 100)  # noqa
     eps_neg = F(1, 2)
     sheet_ok = sb.sheet_ok
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         logger.debug(sheet.id)
         chosen = sb.sheet_chosen[sheet.id]
         ok = sb.sheet_ok[sheet.id]
diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..3307ae4 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -65,7 +65,8 @@ class SheetPlex(pyr.PRecord, Autocompletable):
 
     def intersides(self, sheet_id=None):
         """Return an iterator for intersides of a particular sheet or all"""
-        for intersection in self.intersections.values():
+        # By id: the iteration order of a PMap varies from run to run
+        for _, intersection in sorted(self.intersections.items()):
             for side in intersection.sides:
                 if sheet_id is None or side.sheet == sheet_id:
                     yield side
-- 
2.43.0


From 58c8da1b02d15ead0ef93816091ed37cef15c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 3/9] fix: limiting a sheetplex raised AttributeError (misspelt
 variable)

---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 3307ae4..b5bd8b4 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -84,7 +84,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From 9b83891bd79f4657b9075dba8e226428dc7aeba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 4/9] fix: pass the sheetbuild to do_show after each stage

---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..005f6da 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -70,7 +70,7 @@ def canned_1(sheetplex, params, show=False):
             sb_log.append(sb.set('dbg', op))
             sb = op(sb, params)
             if show:
-                do_show(op)
+                do_show(op, sb)
 
         sb_log.append(sb)
         sb.check(force=True)
-- 
2.43.0


From 53c9ca00544cbf77e78bd5aba38ffab5d607150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 5/9] fix: report the original failure when return_on_failure
 is not given

---
 plycutter/canned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index 005f6da..c85fa57 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -37,6 +37,7 @@ def canned_1(sheetplex, params, show=False):
     global sb_log
     sb_log = []
     ok = False
+    sb = None
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
@@ -79,7 +80,7 @@ def canned_1(sheetplex, params, show=False):
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if sb is None or not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
-- 
2.43.0


From e6b08c49b4394071693e49082b7e0f2e0050a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 6/9] fix: unchoose_interside failed to report its own
 assertion

---
 plycutter/sheetbuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..2d88ec0 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -79,7 +79,8 @@ class SheetBuild(pyr.PRecord, Autocompletable):
     def unchoose_interside(self, interside_id, v):
         """State that the range v will never be chosen"""
         assert (self.interside_chosen[interside_id] & v).is_empty(), fastr(
-            interside_id, v, (self.interside_chosen[interside_id] & v).area()
+            interside_id, v,
+            (self.interside_chosen[interside_id] & v).measure1d()
         )
         interside = self.sheetplex.interside(interside_id)
 
-- 
2.43.0


From 1f50998f119c2d2b7694f60d9f5d5b3443c678e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 7/9] fix: an empty sheet made all later sheets' coordinates
 NaN

---
 plycutter/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..c84c09c 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,9 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From bbc3db75618c47d7817f0741f57b085ca79c629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 8/9] fix: SegmentTree1D lost all segments given as a one-shot
 iterator

---
 plycutter/geometry/impl2d/segment_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plycutter/geometry/impl2d/segment_tree.py b/plycutter/geometry/impl2d/segment_tree.py
index 5e9bbe0..a747171 100644
--- a/plycutter/geometry/impl2d/segment_tree.py
+++ b/plycutter/geometry/impl2d/segment_tree.py
@@ -139,6 +139,7 @@ class SegmentTree1D:
             return f"RL({self.min}V, {self.max}V, {self.at})"
 
     def __init__(self, segments):
+        segments = list(segments)
         endpoints = []
         for v0, v1, _ in segments:
             assert v1 >= v0
-- 
2.43.0


From 8b5b9a044475a47b0404fd23832f599917dee428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 9/9] fix: formatting a Geom1D with fstr or fastr raised
 TypeError

---
 plycutter/geometry/geom1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..4fe2f97 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
-- 
2.43.0

