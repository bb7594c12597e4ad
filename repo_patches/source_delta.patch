From 483a7ccbc1c200ada983cf1137d7639f6bd2e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 01/40] fix: equal PolygonLines must have equal hashes

__hash__ hashed a generator object, i.e. its address, so equal lines (and the
same line on two calls) hashed differently and sets/dicts of them misbehaved.
---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..705d245 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From 713e84ad848acb6f1de7673e64887cb4b926264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 02/40] fix: point-in-polygon rays must end outside the polygon

The far end was drawn from [xmax, 500*xmax] x [ymax, 30*ymax], which for
polygons with a non-positive xmax or ymax lies inside or below the polygon.
---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 705d245..4ea8c30 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -494,12 +494,14 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        # the size of the polygon, to place the other end of the rays safely outside, wherever the polygon lies
+        _dx, _dy = _x - _bb[0][0], _y - _bb[1][0]
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
                 # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                P = Point((_x + random.uniform(1, 500) * max(_dx, _dy), _y + random.uniform(1, 30) * max(_dx, _dy)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From a359cee7b066deb83d23b7ff2986be60e0e76efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 03/40] fix: angle between (anti)parallel segments must not
 leave the domain of acos

---
 geometry/SR_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..34b3ade 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -517,7 +517,9 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
+        # rounding may take the cosine of (anti)parallel lines slightly out of [-1, 1]
+        _cos = max(-1., min(1., self.dotproduct(other) / (self.norm * other.norm)))
+        _ret = degrees(acos(_cos))
         return _ret
 
     def angle_from_start_point(self, p=EMPTY):
-- 
2.43.0


From e4dbd29c7499f7be694c790b63e3a2ae91def58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 04/40] fix: opposite_direction compared rounded degrees for
 exact equality

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 34b3ade..b5013b7 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -229,7 +229,8 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
+        if self.dotproduct(other) < 0 and \
+                abs(self.crossproduct(other)) <= EPS * self.norm * other.norm:
             return True
         else:
             return False
-- 
2.43.0


From 2ea43ce0818e7e0526a7f34f15252326a4fc8e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 05/40] fix: is_on_boundary always returned False

is_external_point is the negation of is_internal_point, so the first check was
always true.
---
 geometry/SR_polygon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 4ea8c30..06459fb 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -537,8 +537,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From 5f39958f45b8293ee1a35d8353491e22df441bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 06/40] fix: orientation of concave polygons

Counting left and right turns gives the wrong orientation (or raises) for
concave polygons with as many or more reflex corners than convex ones.
---
 geometry/SR_polygon.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 06459fb..f2b5ecc 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -464,17 +464,10 @@ class PolygonLine(object):
             else:
                 return True
 
-        else:  # positive and negative values mixed
-            _ps = len([x for x in self.cps if x >= 0])
-            _ns = len([x for x in self.cps if x <= 0])
-            if _ps > _ns:
-                return False
-            elif _ps < _ns:
-                return True
-            else:
-                print(_ps)
-                print(_ns)
-                raise Exception("This shouldn't happen")
+        else:  # positive and negative values mixed: sign of the enclosed area
+            _x0, _y0 = self.first_point.xy
+            _area = sum([(s.i.x - _x0) * (s.j.y - _y0) - (s.j.x - _x0) * (s.i.y - _y0) for s in self.segments])
+            return _area < 0
 
     @property
     def isccw(self):
-- 
2.43.0


From 3abd879b0590d1e1a577dbee27e6ff0a612257e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 07/40] fix: add() extended its first operand in place and did
 not connect lines

The docstring promises a new line with a connecting segment where the ends differ.
---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index f2b5ecc..941184c 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1820,8 +1820,10 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
+    _sum = list(self.segments)  # a copy, self must not be changed
     for s in other:
+        if _sum[-1].j != s.first_point:  # connecting the lines
+            _sum.append(LineSegment(_sum[-1].j, s.first_point))
         _sum += s.segments
 
     _ret = PolygonLine(_sum)
-- 
2.43.0


From 971180409f0070dabc3677008611fd9cdc2337cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 08/40] fix: stale area and triangles after a PolygonLine was
 changed

area is a cached_property and the triangulation is kept, but appending a point,
closing, moving, rotating and mirroring did not discard them.
---
 geometry/SR_polygon.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 941184c..1daf0e6 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -101,6 +101,11 @@ class PolygonLine(object):
     def _delete_triangles(self):
         self._triangles = set()
 
+    def _geometry_changed(self):
+        """ forget what was calculated from the former geometry """
+        self._delete_triangles()
+        self.__dict__.pop('area', None)
+
     @property
     def segments(self):
         return self._segments
@@ -262,6 +267,7 @@ class PolygonLine(object):
         assert p.isvalid  # a Point object
 
         self._segments.append(LineSegment(self.last_point, p))
+        self._geometry_changed()
 
     def append_point_at_beginning(self, p=EMPTY):
         """
@@ -272,6 +278,7 @@ class PolygonLine(object):
         assert p.isvalid  # a Point object
 
         self._segments.insert(0, LineSegment(p, self.first_point))
+        self._geometry_changed()
 
     def add_internal_point(self, p=EMPTY, segment=None):
         """ add a point that is for sure on the inside of the polygon """
@@ -430,6 +437,7 @@ class PolygonLine(object):
         """ adds a segment to close the plygon """
         if self.isopen:
             self._segments.append(LineSegment(self.last_point, self.first_point))
+            self._geometry_changed()
         else:
             pass
 
@@ -562,12 +570,14 @@ class PolygonLine(object):
             _c = (_p.x * _cp - _p.y * _sp, _p.x * _sp + _p.y * _cp)  # "exact values"
             _c = tuple([round(x, int(PRECISION)) for x in _c])  # rounding to "PRRECISION" number of decimals
             _p._set_coords(coords=_c)
+        self._geometry_changed()
 
     def mirror_vertical(self, x0):
         """ Mirrors the segment on a vertical line located at x0 """
         self.purge()
         for _p in self.point_set:
             _p._set_coords(coords=(_p.x - 2 * (_p.x - x0), _p.y))
+        self._geometry_changed()
 
     def move(self, x0=None, y0=None):
         """ Moves the polygon by x0, y0 units """
@@ -576,6 +586,7 @@ class PolygonLine(object):
         #     s.move(x0=x0, y0=y0)
         for _p in self.point_set:
             _p._set_coords(coords=(_p.x + x0, _p.y + y0))
+        self._geometry_changed()
 
     def rotate_about_xy(self, x0=None, y0=None, phi=None):
         """ Rotates polygon by phi degrees about given x, y point """
-- 
2.43.0


From 140ceff6b3a7bf96d2844b3b0d174bfd2853229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 09/40] fix: appending a coincident point to a purged line left
 it marked purged

Later transformations then moved only one of the two coincident Points.
---
 geometry/SR_polygon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 1daf0e6..f52ede9 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -259,6 +259,14 @@ class PolygonLine(object):
 
         return True
 
+    def _own_point(self, p):
+        """ the Point of a purged line p coincides with, otherwise p itself: no coincident Points if purged """
+        if self.purged:
+            for x in self.all_points:
+                if x == p:
+                    return x
+        return p
+
     def append_point_at_end(self, p=EMPTY):
         """
         Adds a point to the end, that is, a new segment with the starting point previous endpoint
@@ -266,7 +274,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
-        self._segments.append(LineSegment(self.last_point, p))
+        self._segments.append(LineSegment(self.last_point, self._own_point(p)))
         self._geometry_changed()
 
     def append_point_at_beginning(self, p=EMPTY):
@@ -277,7 +285,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
-        self._segments.insert(0, LineSegment(p, self.first_point))
+        self._segments.insert(0, LineSegment(self._own_point(p), self.first_point))
         self._geometry_changed()
 
     def add_internal_point(self, p=EMPTY, segment=None):
-- 
2.43.0


From 272658ed0ad6b9e73e231f9f8de20ca96f6c8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 10/40] fix: Point.isvalid must follow the current coordinates

It was cached, so emptying or setting the coordinates left a stale answer.
---
 geometry/SR_point.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index de9b02d..009bc8a 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 import math
-from cached_property import cached_property
 from geometry import _plotting_available, plt
 
 EMPTY = (None, None)
@@ -107,7 +106,7 @@ class Point(object):
     def distance(self, other):
         return distance(self, other)
 
-    @cached_property
+    @property
     def isvalid(self):
         """ checks for validity """
         if self._coords == EMPTY:
-- 
2.43.0


From 20d9acb8559adde0590ec3491aa6446eb6fed83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 11/40] fix: Points with other than two numeric coordinates are
 not valid

Three coordinates were accepted, one raised IndexError, text raised ValueError.
---
 geometry/SR_point.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index 009bc8a..5291925 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -89,7 +89,7 @@ class Point(object):
         try:
             # making sure floats are used, even if defined in int (Python 2)
             self._coords = tuple([round(float(x), PRECISION) for x in coords])
-        except TypeError:  # if not a number that it is accepted. invalid point, anyways.
+        except (TypeError, ValueError):  # if not a number that it is accepted. invalid point, anyways.
             self._coords = coords
 
     def _empty(self):
@@ -112,15 +112,15 @@ class Point(object):
         if self._coords == EMPTY:
             # print('coords empty')
             return False
+        if len(self._coords) != 2:
+            # print('two coords are needed')
+            return False
         if not isinstance(self.x, (int, float)):
             # print('coord x is not numeric')
             return False
         if not isinstance(self.y, (int, float)):
             # print('coord x is not numeric')
             return False
-        if len(self.xy) != 2:
-            # print('two coords are needed')
-            return False
         return True
 
     def bounding_box(self):
-- 
2.43.0


From 817d8fc42cecb89f0db14e64a0481907de3164b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 12/40] fix: comparing a Point with something else is not an
 error

---
 geometry/SR_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index 5291925..4cc8406 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -50,7 +50,7 @@ class Point(object):
             return 'Non-valid instance of class %s' % self.__class__.__name__
 
     def __eq__(self, other):
-        if not self.isvalid or not other.isvalid:
+        if not isinstance(other, Point) or not self.isvalid or not other.isvalid:
             return False
 
         # if self.xy == other.xy and not self.isvalid:  # none are valid - still equal :-)
-- 
2.43.0


From 6c9ee72ec2cbc83a648de1457ff62677b894eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 13/40] fix: NameError for a line touching the sphere

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0


From 820b40fcca0a948f7b829ef24fb5b191b051a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 14/40] fix: TypeError in
 PolygonLine.loose_equal(direction_matters=True)

---
 geometry/SR_polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index f52ede9..dc20568 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -71,10 +71,10 @@ class PolygonLine(object):
         if len(self.segments) != len(other.segments):
             return False
 
-        segment_loose_equality = False  # segment loose equality
+        segment_loose_equality = [False]  # segment loose equality
         if direction_matters:  # direction matters
             if set(self.segments) == set(other.segments):
-                segment_loose_equality = True
+                segment_loose_equality = [True]
 
         else:  # whatever the direction
             # we must find for ALL segments in self a segment in other that is loosely equal
-- 
2.43.0


From 61f508bed4d540df7a8be9b08f9d4c40c6001985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 15/40] fix: both ends of a valid LineSegment must be Points

---
 geometry/SR_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index b5013b7..545cefe 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -70,7 +70,7 @@ class LineSegment(object):
     @cached_property
     def isvalid(self):
         """ validity check for LineSegments """
-        if not (isinstance(self.i, Point) or isinstance(self.j, Point)):
+        if not (isinstance(self.i, Point) and isinstance(self.j, Point)):
             return False
         if not (self.i.isvalid and self.j.isvalid):
             return False
-- 
2.43.0


From c90550f6a3941c4f084992f854c8071480144372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 16/40] fix: StandZarge.from_dict created a Mantel

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..a2cc479 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -628,7 +628,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From a046b19c6d278032988b170572221fa87b9289da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 17/40] fix: a point on the line is not to the right of it

is_point_to_left allows for rounding, is_point_to_right did not.
---
 geometry/SR_line.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 545cefe..9f4d83f 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -200,6 +200,9 @@ class LineSegment(object):
         """
         assert p.isvalid
 
+        if self.is_point_on_line(p=p):
+            return False
+
         # _val = self.crossproduct_commonstart(other=LineSegment(self.i, p))
         _val = self.crossproduct(other=LineSegment(self.i, p))
         if _val < 0:
-- 
2.43.0


From 51a876300ee961bed7828fca91d4a7bb69b32c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 18/40] fix: which loops are unions of other loops

The loop of a room was dropped when its area happened to equal the sum of the
areas of other loops, and the loop around several rooms was kept as a room when
rounding made the areas differ by more than the absolute limit of 1e-8 (a few
percent of ordinary vessels).
---
 geometry/SR_polygon_group.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..c65d570 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -650,8 +650,13 @@ class BehalterGraph(PolygonGroup):
                 combs = itertools.combinations(polygons, comblen)
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
+                    _sum_area = sum([tri.area for tri in _all_tris])
                     for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                        # equal area is not enough: the others must lie in p and next to each other
+                        # the numerical error of the area grows with the area
+                        if abs(p.area - _sum_area) < max(EPS, 1e-6 * p.area) and p not in comb and \
+                                all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris) and \
+                                all(x.disjunct(y) for x, y in itertools.combinations(comb, 2)):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From ce0e2983ea46839be26b5b957847c92aebbfb084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 19/40] fix: walk_segments overlooked branches

Only segments starting at the current point were counted, so a loop around
several rooms was taken for a loop without branches if the segments happened to
point the right way, its segments were set aside and the rooms were never found.
---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index dc20568..845a59e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1873,7 +1873,8 @@ def walk_segments(segments=(), startingpoint=None):
             _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
             if not _nextsegment:
                 return False
-        if len(_nextsegment) > 1:
+        # a branch, whatever the direction of the segments
+        if len([x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]) > 1:
             _has_branch = True
         _nextsegment = _nextsegment[0]
 
-- 
2.43.0


From 2f72aeb876c904fd18264f86cea9b60ef6d05329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 20/40] fix: line_reversed of a Wall compared unequal to the
 reversed Wall

It returned a LineSegment, and segments of different classes are never equal.
---
 geometry/SR_line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 9f4d83f..6c1d113 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -509,8 +509,8 @@ class LineSegment(object):
 
     @property
     def line_reversed(self):
-        """ Returns a LineSegment object with reserved endpoints """
-        return LineSegment(self.j, self.i)
+        """ Returns an object of the same class with reversed endpoints """
+        return self.__class__(self.j, self.i)
 
     # def angle_at_point(self):
     #     """ The angle between two segments that connect to the same point """
-- 
2.43.0


From 968876b8afec3739a8c5c196c2db1406f34c5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 21/40] fix: walk_segments was called without segments when all
 loops were found

---
 geometry/SR_polygon_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index c65d570..c4b0482 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -561,11 +561,11 @@ class BehalterGraph(PolygonGroup):
 
         # first, try a walk-along starting at a random point. this may be faster if we have lots of segments but just
         # one cycle or two cycles.
-        _polygon = walk_segments(segments=graph)
+        _polygon = walk_segments(segments=graph) if graph else False
         while _polygon and _polygon not in cycles:  # a loop without branch
             cycles.append(_polygon)  # returns just a polygon
             graph = [x for x in graph if x not in _polygon.segments and x.line_reversed not in _polygon.segments]
-            _polygon = walk_segments(segments=graph)
+            _polygon = walk_segments(segments=graph) if graph else False
 
         # some loops may have been found
         comblen = 1
-- 
2.43.0


From 97b24b25aa6b9edd88f7d8c4d009c882a544e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 22/40] fix: building a Behalter reversed the segments of its
 parts

---
 geometry/SR_polygon_group.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index c4b0482..66ad7da 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -86,7 +87,8 @@ class PolygonGroup(object):
         for k, v in self.segments_in_cycles.items():  # dict with cycle: points in cycle (integer numbered)
             segs = list(itertools.chain.from_iterable([x.wall_segments for x in v]))  # all segments in the cycle
 
-            _ch = PolygonLine(remove_outlier_segments(segs))
+            # ordering may reverse segments, so use copies: these belong to the polygons of the group
+            _ch = PolygonLine(copy.deepcopy(list(remove_outlier_segments(segs))))
             _ch.order()
 
             # _ret[k] = [self.points_numbered[x] for x in itertools.chain([x.i for x in _ch.segments])]  # Points, ordered
@@ -537,7 +539,7 @@ class BehalterGraph(PolygonGroup):
             # the originals but may be slightly different (order, direction etc.)
             # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
             _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments for y in v.segments])]
+                       or any([y in x.segments or y.line_reversed in x.segments for y in v.segments])]
 
         return _ret
 
@@ -582,7 +584,8 @@ class BehalterGraph(PolygonGroup):
                     continue
 
                 # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                # ordering may reverse segments, so use copies: these belong to the polygons of the group
+                _polygon = PolygonLine(copy.deepcopy(list(p)))
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
-- 
2.43.0


From d8b04f948dcbfacbf381a09db3a49d082bfccde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 23/40] fix: rounding errors made a Mantel invalid

---
 SR_Vessel/SR_hauptteile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index a2cc479..c48230d 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -707,7 +707,8 @@ class Mantel(Hauptteil):
         _ok = []
         _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
         _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        # axis vertical; the sums of the decimal coordinates are not exact
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < 1e-5)
         if not all(_ok):
             return False
 
-- 
2.43.0


From 12335a151a21d1bc03acf1da89f5b08ff8d18a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 24/40] fix: a StandZarge was never valid

---
 SR_Vessel/SR_hauptteile.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index c48230d..b377346 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -694,11 +694,16 @@ class Mantel(Hauptteil):
     def characteristic_size(self):
         return min(self.d) / 2.
 
+    @property
+    def mantel_segments(self):
+        """ the right and the left line of the Mantel """
+        return self.graph.segments
+
     @property
     def isvalid(self):
 
         # checking if the graph is valid
-        _s = self.graph.segments  # shorthand
+        _s = self.mantel_segments  # shorthand
         # two segments
         if len(_s) != 2:
             return False
@@ -1305,6 +1310,11 @@ class StandZarge(Mantel):
         _segs[3] = Wall(*_segs[3].ij)  # wird auf Wanll umgestellt
         return _segs
 
+    @property
+    def mantel_segments(self):
+        """ the right and the left line, without the wall at the bottom """
+        return [x for x in self.graph.segments if x.i.y != x.j.y]
+
 
 class RaumEnde(Hauptteil):
     def __init__(self, name=None, pos_v=None, d=None, pos_h=None):
-- 
2.43.0


From 7c6bfcb4d36964811b3f4c0fc72cff9c82c083f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 25/40] fix: innere Wandung included parts not next to the raum

---
 SR_Vessel/SR_hauptteile.py | 40 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index b377346..1820c63 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -282,29 +282,27 @@ class Behalter(PolygonGroup):
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = self.contained_cycles[c]
+                    _cycles_to_check = list(self.contained_cycles[c])
                     # first, check the cycles that are overlapping (if any)
+                    # k: tuple of cycles that have common segment, eg. (0, 1); only the contained ones are relevant here
+                    _overlaps = {k: v for k, v in self.graph.overlaps_in_cycles.items()
+                                 if all(x in self.contained_cycles[c] for x in k)}
+
+                    # grouping the cycles: connected cycles have a common innere Wandung
+                    _groups = []
+                    for k in _overlaps:
+                        _connected = [x for x in _groups if x.intersection(k)]
+                        _groups = [x for x in _groups if x not in _connected] + [set(k).union(*_connected)]
+
                     _iw = []  # innere Wandung
-                    _visited = []
-                    for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
-                        # first run
-                        if not _visited:
-                            _iw.append([])
-                            for s in k:
-                                _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        # later runs
-                        for vindex, _v in enumerate(_visited):
-                            if any([x in _v for x in k]):  # we saw this earlier!
-                                for s in k:
-                                    _iw[vindex] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-                            else:
-                                _iw.append([])
-                                for s in k:
-                                    _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        _visited.append(k)
-                        _cycles_to_check = [x for x in _cycles_to_check if x not in k]
+                    for g in _groups:
+                        # the parts between two contained cycles are not next to this raum
+                        _shared = list(itertools.chain.from_iterable(v for k, v in _overlaps.items() if g.issuperset(k)))
+                        _iw.append([])
+                        for x in itertools.chain.from_iterable(sic[s] for s in sorted(g)):
+                            if x not in _shared and x not in _iw[-1]:
+                                _iw[-1].append(x)
+                        _cycles_to_check = [x for x in _cycles_to_check if x not in g]
 
                     _r.cycle.append(_iw)
                     _r._innere_wandung += _iw
-- 
2.43.0


From 7c667b6f66d4a5f1745fc72d0d7c3017325d9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 26/40] fix: contained_cycles confused a cycle with its convex
 hull

---
 geometry/SR_polygon_group.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 66ad7da..f070814 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -416,18 +416,14 @@ class BehalterGraph(PolygonGroup):
 
             _ret[e] = []
             for z in [x for x in _cycles.keys() if x != e]:  # keys, except for "e"
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[e]])
-                _ch = sum([x.point_set for x in _cycles[e]], [])  # all points in cycle "e"
-                _convhull = convex_hull([w.xy for w in _ch])  # as tuples for the convex hull
-                # check if the points of z inside the convex hull of e are
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[z]])
-                _ch = sum([x.point_set for x in _cycles[z]], [])  # all points in cycle "z"
-                # internal points for the convex hull
-                _internals = [p for p in _ch if _convhull.is_internal_point(p)]
+                # the cycles themselves are compared, not their parts or their convex hulls: parts may reach over
+                # a cycle (e.g. when split by a raumende) and a cycle may surround another one on three sides
+                _ch = self.cycles[z].point_set
+                # the points of z that are inside of e
+                _internals = [p for p in _ch if self.cycles[e].is_internal_point(p)]
 
                 if set(_internals) == set(_ch):  # totally contained
                     _ret[e].append(z)
-                    # _convhull.plot(also_plot=_ch, show=True)  # plots the hull and the internal points
                 elif not _internals:  # empty
                     pass
                 # else:  # partial overlap
-- 
2.43.0


From 1d39c6b25862f3830f423dcdfc27bd241398461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 27/40] fix: parts were assigned to rooms they only have points
 in common with

---
 geometry/SR_polygon_group.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index f070814..d38383f 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -530,12 +530,11 @@ class BehalterGraph(PolygonGroup):
             #     p.plot(show=True, title=p.hauptteil.name)
             # p.plot(show=True)
 
-            # finding the polygons that make up a segment
-            # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
-            # the originals but may be slightly different (order, direction etc.)
+            # finding the polygons that have a segment in the cycle, whatever its direction is in the cycle
             # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
-            _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments or y.line_reversed in x.segments for y in v.segments])]
+            # having common points only is not enough: the cycle may surround a polygon or lie on both sides of it
+            _ret[k] = [x for x in self.polygons
+                       if any([y in x.segments or y.line_reversed in x.segments for y in v.segments])]
 
         return _ret
 
-- 
2.43.0


From 8fdeafb5ad560d15f2844d7492d321a01500fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 28/40] fix: collinear segments with rounded coordinates were
 not taken for parallel

---
 geometry/SR_line.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 6c1d113..ab0f2bd 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -186,8 +186,10 @@ class LineSegment(object):
         if p == self.i or p == self.j:
             return True
 
+        # the coordinates are rounded, so the distance of p from the line is not exactly zero. This must not depend on
+        # the length of the line: the crossproduct is the distance multiplied by the length
         # print(abs(self.cross_product(LineSegment(self.i, p))))
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS:
+        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS * max(1., 2 * self.norm):
 
             return True
         else:
@@ -245,7 +247,9 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if self.crossproduct(other) == 0:
+        # the coordinates are rounded, the crossproduct of parallel lines is not exactly zero: the shorter one
+        # may deviate from the direction of the longer one as much as the rounding
+        if abs(self.crossproduct(other)) <= 2 * EPS * max(self.norm, other.norm):
             return True
         else:
             return False
@@ -345,7 +349,7 @@ class LineSegment(object):
             # two linesegments are created. since these are collinear, if their direction is the same: there is overlap
             l1 = LineSegment(cp, otherpoints[0])
             l2 = LineSegment(cp, otherpoints[1])
-            if l1.direction == l2.direction:  # the two segments are in the same direction and cp is common point
+            if l1.dotproduct(l2) > 0:  # the two segments are in the same direction and cp is common point
                 # print('overlapping segment')
                 return True, sorted([l1, l2], key=lambda x: x.norm)[0]
             else:
-- 
2.43.0


From ca7665432185b2de293a9d7465d43024a48da5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 29/40] fix: raum_dict_checker ignored raums that only the
 basedict has

---
 SR_Vessel/SR_hauptteile.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 1820c63..589034d 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -41,12 +41,15 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
     # def dict_equal(d1, d2):
     #     return all([d1[k] == d2[k] for k in d1.keys()]) and all([d1[k] == d2[k] for k in d2.keys()])
 
-    # unique values in the values()
-    _raums = []
-    for k, v in dict_to_comapare.items():
-        for kk in dict_to_comapare[k].values():
-            _raums.append(kk)
-    _raums = list(set(itertools.chain.from_iterable(_raums)))
+    # unique values in the values() of either dict
+    def unique_values(adict):
+        return sorted(set(itertools.chain.from_iterable(itertools.chain.from_iterable(v.values() for v in adict.values()))))
+
+    _raums = unique_values(dict_to_comapare)
+    _baseraums = unique_values(basedict)
+    if len(_raums) != len(_baseraums):
+        print('Problem: the dicts have different numbers of raums: %r, %r' % (_raums, _baseraums))
+        raise Exception('WTF')
 
     # the 'independent' values used for comparison
     _iv = [chr(x) for x in range(97, min(123, 97+len(_raums)))]
@@ -62,7 +65,7 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
 
     # converting the result dict once
     _basedict = copy.deepcopy(basedict)
-    _basedict = convert(dtc=_basedict, _rs=_raums, p=_repldict[0])
+    _basedict = convert(dtc=_basedict, _rs=_baseraums, p=dict(zip(_baseraums, _iv)))
 
     # converting and checking for all pairs
     _res = []
-- 
2.43.0


From c0d0ed7a3dd1d56322ce33c66f4399c7ba937756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 30/40] fix: rooms in several other rooms or in rooms inside
 rooms

---
 SR_Vessel/SR_hauptteile.py   | 9 ++++++---
 geometry/SR_polygon_group.py | 6 ++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 589034d..79f583d 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -281,15 +281,18 @@ class Behalter(PolygonGroup):
                 #     vv.plot(show=True, title='aussere', annotate=True)
 
                 # innere Wandung
-                if self.contained_cycles[c]:
+                _contained = self.contained_cycles
+                # what is in a contained cycle is not next to this raum
+                _contained_directly = [x for x in _contained[c] if not any(x in _contained[y] for y in _contained[c])]
+                if _contained_directly:
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = list(self.contained_cycles[c])
+                    _cycles_to_check = list(_contained_directly)
                     # first, check the cycles that are overlapping (if any)
                     # k: tuple of cycles that have common segment, eg. (0, 1); only the contained ones are relevant here
                     _overlaps = {k: v for k, v in self.graph.overlaps_in_cycles.items()
-                                 if all(x in self.contained_cycles[c] for x in k)}
+                                 if all(x in _contained_directly for x in k)}
 
                     # grouping the cycles: connected cycles have a common innere Wandung
                     _groups = []
diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index d38383f..eb2c8a0 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -711,9 +711,7 @@ class BehalterGraph(PolygonGroup):
 
                 # the polygons that are not included in _rret; this is the outer shell or the inner shell
                 _left_out = [x for x in polygons if x not in _rret and not any([x.loose_equal(y) for y in _rret])]
-                if len(_left_out) != 1:
-                    raise Exception('WTF')
-                _left_out = _left_out[0]  # there is only one
+                # there may be more of them, e.g. multiple inner polygons in different raums
 
                 # _rret is a list of polygon-combinations.
                 # for non-double-walled behalters _ret is a list, where the elements may not be overlapping
@@ -734,7 +732,7 @@ class BehalterGraph(PolygonGroup):
                     # oc[1].plot(show=True, title='%r' % [x.area for x in oc])
                     # print([x in _left_out for x in oc])
                     # if any([x in _left_out for x in oc]):  # that contain one from the polygons left out previously
-                    if _left_out == oc[0]:  # that contain one from the polygons left out previously
+                    if oc[0] in _left_out:  # that contain one from the polygons left out previously
                         if all((oc[0].is_internal_point(p=x) for x in oc[1].point_set)) and \
                                         oc[0] not in _to_add and oc[0] not in _rret:
                             # oc[0].plot(show=True, title='thisis, oc[0], %.2f' % oc[0].area)
-- 
2.43.0


From 05e808379b298fcf50f5a404109224348fb760ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:13 +0000
Subject: [PATCH 31/40] fix: touching collinear segments had nothing in common,
 seen from the shorter one

---
 geometry/SR_line.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index ab0f2bd..42d74d8 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -189,7 +189,7 @@ class LineSegment(object):
         # the coordinates are rounded, so the distance of p from the line is not exactly zero. This must not depend on
         # the length of the line: the crossproduct is the distance multiplied by the length
         # print(abs(self.cross_product(LineSegment(self.i, p))))
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS * max(1., 2 * self.norm):
+        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS * max(1., 3 * self.norm):
 
             return True
         else:
@@ -249,7 +249,7 @@ class LineSegment(object):
 
         # the coordinates are rounded, the crossproduct of parallel lines is not exactly zero: the shorter one
         # may deviate from the direction of the longer one as much as the rounding
-        if abs(self.crossproduct(other)) <= 2 * EPS * max(self.norm, other.norm):
+        if abs(self.crossproduct(other)) <= 3 * EPS * max(self.norm, other.norm):
             return True
         else:
             return False
@@ -453,7 +453,9 @@ class LineSegment(object):
 
     def is_collinear(self, other):
         """ tells if two lines are is_collinear """
-        return all([self.is_point_on_line(x) for x in other.ij])
+        # the coordinates are rounded: only the longer one tells reliably if the points of the other one are on its line
+        a, b = (other, self) if self.norm < other.norm else (self, other)
+        return all([a.is_point_on_line(x) for x in b.ij])
 
     def intersection_on_endpoint(self, other):
         """ This tells if there is an intersection_point and if the intersection_point point is one of the endpoints of 
-- 
2.43.0


From 971d103b57a73b28bcca47355c04a517ea00c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 32/40] fix: Delaunay2d left out points when they were not
 added from the inside out

---
 geometry/SR_polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 845a59e..c015bb3 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1298,10 +1298,9 @@ class Delaunay2d:
             # all the points fall on a line
             return
 
-        # add additional points
-        _pts = set(range(3, len(self.points)))
+        # add additional points, the farther ones later: a point inside of the triangulation would not be added
         for i in range(3, len(self.points)):
-            self.addPoint(_pts.pop())
+            self.addPoint(i)
 
     def getTriangles(self):
         """
-- 
2.43.0


From 0402738ce193e7ed3eb9ce27172d73e8aca23d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 33/40] fix: a clockwise arc was not an arc

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index c015bb3..b24a559 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1758,7 +1758,8 @@ def arc(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
     for st in range(n+1):
         _deg = (st * degstep) % 360
         nodes.append([r * math.cos(math.radians(_deg)), r * math.sin(math.radians(_deg))])
-    pl = polygon_from_nodes(nodes=nodes, cw=cw)
+    # cw: from the other end. polygon_from_nodes would keep the first node, and that is the end of a cw arc
+    pl = polygon_from_nodes(nodes=nodes[::-1] if cw else nodes)
     pl.rotate_about_origin(phi=alpha_start)
     if isinstance(P, Point):
         pl.move(x0=P.x, y0=P.y)
-- 
2.43.0


From 36e916d2ea5405ed20404f2f35a9996e34ddd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 34/40] fix: walk_segments overlooked a branch at the far end
 of the first segment

---
 geometry/SR_polygon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index b24a559..3e67b2d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1886,9 +1886,13 @@ def walk_segments(segments=(), startingpoint=None):
         # check if we have a branchless closed loop?
         segs = copy.deepcopy(_visited)
         segs.add(_nextsegment)
+        _left = [x for x in _not_visited if x not in segs]  # before ordering, that may reverse segments
         _poly = PolygonLine(segs)
         if _poly.order() and _poly.isclosed and not _has_branch:
-            return _poly
+            # the far end of the first segment is reached only now, it may have a branch too
+            if not any(y in _poly.point_set for x in _left for y in x.ij):
+                return _poly
+            _has_branch = True
 
     return False
 
-- 
2.43.0


From 84c31ce153edc15c8ac17114c4427144637e7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 35/40] fix: rounding errors put the end of a segment outside
 of the segment

---
 geometry/SR_line.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 42d74d8..5cfcc05 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -170,8 +170,10 @@ class LineSegment(object):
         _i = self.i
         _j = self.j
 
-        if min(_i.x, _j.x) - EPS < p.x <= max(_i.x, _j.x) + EPS\
-                and min(_i.y, _j.y) - EPS <= p.y <= max(_i.y, _j.y) + EPS:
+        # coordinates that are moved or rotated are rounded more than once, e.g. those of an arc
+        _e = 3 * EPS
+        if min(_i.x, _j.x) - _e <= p.x <= max(_i.x, _j.x) + _e\
+                and min(_i.y, _j.y) - _e <= p.y <= max(_i.y, _j.y) + _e:
             return True
         else:
             return False
-- 
2.43.0


From 2061b888ea5cf030f5b130b22f32002123f13b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 36/40] fix: asking a PolygonGroup for its graph tied the
 points of its polygons together

---
 geometry/SR_polygon_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index eb2c8a0..7a7d003 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -244,7 +244,8 @@ class PolygonGroup(object):
         This PolygonLine is not necessarily valid, but can be used as a Graph of the PolygonGroup
         """
         # _sum = sum([x.segments for x in self.polygons], [])
-        _sum = itertools.chain.from_iterable([x.segments for x in self.polygons])
+        # purging makes segments share their Points, so use copies: the polygons must not be tied together
+        _sum = itertools.chain.from_iterable([copy.deepcopy(x.segments) for x in self.polygons])
         pl = PolygonLine(_sum)
         pl.purge()
         return pl
-- 
2.43.0


From 27dd101491b08334b835f71468245f76d55f358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 37/40] fix: a PolygonGroup with ten or more segments in a node
 was valid

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 7a7d003..38c07c0 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -185,7 +185,7 @@ class PolygonGroup(object):
         elif nd[3] % 2 == 1:  # has odd number of branches
             print('has odd number of branches')
             _ret = False
-        elif sum([1 for x in range(4, 10) if nd[x] > 0]):  # has node with more than 3 edges connected
+        elif any([len(x) > 3 for x in _al.values()]):  # has node with more than 3 edges connected
             print('has node with more than 3 edges connected')
             _ret = False
         else:
-- 
2.43.0


From ca42a40922fcfc5816f0150bba148ede12a461b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 38/40] fix: TypeError when asking a PolygonGroup for its edge
 list

---
 geometry/SR_polygon_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 38c07c0..29105b7 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -270,8 +270,7 @@ class PolygonGroup(object):
     def as_edgelist(self):
         """ Prepares a list of segments, where each node has a separate value (int), to be used in MCB """
         _conn = self.points_numbered
-        # graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
-        graph = sorted([(s.i, s.j) for s in self.all_segments])
+        graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
         return graph
 
     def as_adjacency_list(self, as_numbered=False):
-- 
2.43.0


From 4636d27fe93f3a10c471a1f6376df3fca72aa2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 39/40] fix: ordered_copy of a PolygonLine gave True instead of
 the copy

---
 geometry/SR_polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 3e67b2d..8b6337d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -189,9 +189,9 @@ class PolygonLine(object):
                 self.purged = True
 
     def ordered_copy(self):
-        import copy
-        _ = copy.deepcopy(self)
-        return _.order()
+        """ returns a copy of the polyline that is ordered, or False if it can not be ordered """
+        _ret = copy.deepcopy(self)
+        return _ret if _ret.order() else False
 
     def order(self):
         """
-- 
2.43.0


From 54b95bd31c6b937dab6776a7519ea57f010632a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 40/40] fix: the marker points of a flat cone were too close to
 its wall

---
 SR_Vessel/SR_hauptteile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 79f583d..4b1f367 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -663,6 +663,9 @@ class Mantel(Hauptteil):
             _lp, _up = sorted(s.ij, key=lambda x: x.y)
             # "unit" for _lp, _up
             _e = [abs(min((_up.y - _lp.y) / 10., min((_p.x - self.pos_h) / 50000., .0020))) for _p in (_lp, _up)]
+            # on a flat cone the horizontal offset gives a much smaller distance from the wall
+            if _up.y > _lp.y:
+                _e = [_x * s.norm / (_up.y - _lp.y) for _x in _e]
             # we create four points, two at each end of the segments
             for ratio in [0.01, 0.99]:
                 _tp = point_on_line_at_ratio(line=s, ratio=ratio)
-- 
2.43.0

