From baf511d5a53334e3555457368ecfe5aca52147a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/44] fix: spheres with a small discriminant lose one of
 their two ray intersections

---
 pvtrace/geometry/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..d281023 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -48,7 +48,7 @@ class Sphere(Geometry):
             return []
 
         # Discriminant is zero = one solution, positive == two solutions.
-        if np.isclose(discriminant, 0.0):
+        if discriminant == 0.0:
             t = np.array([-b / (2 * a)])
         else:
             t = np.array(
-- 
2.43.0


From 1cb2e1442ad5360c9b579c43f910954410d957bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 02/44] fix: cylinder surface test misses surface points that
 round outside

---
 pvtrace/geometry/cylinder.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..8069413 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -1,6 +1,6 @@
 from pvtrace.geometry.geometry import Geometry
 from pvtrace.common.errors import GeometryError
-from pvtrace.geometry.utils import angle_between, norm, close_to_zero, ray_z_cylinder
+from pvtrace.geometry.utils import angle_between, norm, EPS_ZERO, ray_z_cylinder
 import numpy as np
 import logging
 
@@ -27,16 +27,13 @@ class Cylinder(Geometry):
         self._material = new_value
 
     def is_on_surface(self, point):
-        # Just use any direction for a fake ray, we only need the distance
-        _, dist = ray_z_cylinder(self.length, self.radius, point, norm((1, 1, 1)))
-        if len(dist) == 0:
-            return False
-        dist = dist[0]  # Only need closest intersection
-        if close_to_zero(dist):
-            # print("dist from point {} {} is_on_surface True".format(dist, point))
-            return True
-        # print("dist from point {} {} is_on_surface False".format(dist, point))
-        return False
+        r = np.sqrt(np.sum(np.array(point[:2]) ** 2))
+        z = np.absolute(point[2])
+        dr = r - self.radius
+        dz = z - 0.5 * self.length
+        on_side = np.absolute(dr) < EPS_ZERO and dz < EPS_ZERO
+        on_cap = np.absolute(dz) < EPS_ZERO and dr < EPS_ZERO
+        return bool(on_side or on_cap)
 
     def contains(self, point):
         z = point[2]
-- 
2.43.0


From 05927fd1b0015745cd806922692f71aae9b1f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 03/44] fix: box surface test accepts points in a face plane
 far outside the face

---
 pvtrace/geometry/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/geometry/utils.py b/pvtrace/geometry/utils.py
index 31683c8..d9533d0 100644
--- a/pvtrace/geometry/utils.py
+++ b/pvtrace/geometry/utils.py
@@ -57,7 +57,10 @@ def on_aabb_surface(size, point, centre=(0.0, 0.0, 0.0), atol=EPS_ZERO):
     zmax_dist = distance_between(point, zmax_point)
 
     dists = (xmin_dist, xmax_dist, ymin_dist, ymax_dist, zmin_dist, zmax_dist)
-    tests = [np.abs(dist) < (atol / 2) for dist in dists]
+    # A point in the plane of a face is only on the box if it is within the other extents
+    p = np.array(point)
+    within = bool(np.all(p > origin - atol / 2) and np.all(p < extent + atol / 2))
+    tests = [within and np.abs(dist) < (atol / 2) for dist in dists]
     surfaces = np.where(np.array(tests) == True)[0].tolist()
     return np.any(tests), surfaces
 
-- 
2.43.0


From da4d2ddc1574ace55cb1459e42bee6b89e58deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 04/44] fix: look_at does not face the node along non-unit
 vectors or from a turned pose

---
 pvtrace/scene/node.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..7188ad7 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -6,7 +6,6 @@ from pvtrace.common.errors import AppError
 from pvtrace.geometry.intersection import Intersection
 from pvtrace.geometry.transformable import Transformable
 from pvtrace.geometry.utils import distance_between
-from pvtrace.geometry.transformations import rotation_from_matrix
 import logging
 
 logger = logging.getLogger(__name__)
@@ -50,23 +49,17 @@ class Node(NodeMixin, Transformable):
         ----------
         [1] https://math.stackexchange.com/q/476311
         """
-        a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
+        a = np.array(self.pose[0:3, 2])  # direction the face is currently pointing
+        b = np.array(vector) / np.linalg.norm(vector)  # direction we want to face
         c = np.dot(a, b)
-        if np.isclose(c, -1.0):
-            # Anti-parallel rotation can be done without computation
-            self.rotate(np.pi, [0, 1, 0])
-            return
-
         v = np.cross(a, b)
-        C = 1 / (1 + c)
-        v1, v2, v3 = v[0], v[1], v[2]
-        vx = np.array([[0, -v3, v2], [v3, 0, -v1], [-v2, v1, 0]])
-        r = np.identity(3) + vx + vx @ vx * C
-        R = np.identity(4)
-        R[:3, :3] = r
-        angle, direc, point = rotation_from_matrix(R)
-        self.rotate(angle, direc)
+        s = np.linalg.norm(v)
+        if s == 0.0:
+            # Parallel or anti-parallel, turn around the node's y axis if needed
+            if c < 0.0:
+                self.rotate(np.pi, self.pose[0:3, 1])
+            return
+        self.rotate(np.arctan2(s, c), v)
 
     # Convert between coordinate systems
 
-- 
2.43.0


From 94a52ac5ea80c734963e541a4c8802340e484e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 05/44] fix: nodes created at an integer location cannot be
 translated

---
 pvtrace/geometry/transformable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..030d8a2 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -46,7 +46,7 @@ class Transformable(object):
         """
         super(Transformable, self).__init__()
         self._location = (
-            np.zeros(3, dtype=float) if location is None else np.array(location)
+            np.zeros(3, dtype=float) if location is None else np.array(location, dtype=float)
         )
         self._pose = translation_matrix(self._location)
 
@@ -74,7 +74,7 @@ class Transformable(object):
 
     @location.setter
     def location(self, new_value):
-        self._location = np.array(new_value)
+        self._location = np.array(new_value, dtype=float)
         self._pose[0:3, 3] = np.array(new_value)
         return self
 
-- 
2.43.0


From f9427c8d4da10732a7448637ef146e6297ce8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 06/44] fix: ray leaving towards a separate neighbour is given
 the neighbour's medium

---
 pvtrace/algorithm/photon_tracer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..11f6778 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -103,7 +103,13 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
-        adjacent = intersections[1].hit
+        following = intersections[1]
+        if close_to_zero(following.distance - hit.distance):
+            # The neighbour touching at this point
+            adjacent = following.hit
+        else:
+            # Leaving into whatever encloses the container
+            adjacent = find_container([x for x in intersections if x.hit != hit_node])
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
-- 
2.43.0


From 2575f5ed3d8eac6f90a3e94a0c805a16c2c2c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 07/44] fix: components with a whole-number coefficient cannot
 be traced

---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..371d605 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -107,8 +107,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, (int, float)):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
-- 
2.43.0


From 8bde90dd66e9bb83dbdb9b2ed9cbca2c58be90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 08/44] fix: distributions accept tables containing non-finite
 values

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..7eb4c29 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,7 +35,7 @@ class Distribution(object):
         else:
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
+            if not np.isfinite(y).all():
                 raise ValueError("All values of y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
-- 
2.43.0


From 972164810e88a939b88a55185214de85ce91e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 09/44] fix: sampling a spectrum ignores the spacing of its
 points

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 7eb4c29..c4b73fd 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5)
+                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                 cdf = cdf / np.max(cdf)
                 cdf = np.hstack([0.0, cdf])
                 self._cdf = cdf
-- 
2.43.0


From ef8a21397b7ce4f0f9403172f207a52a50474c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 10/44] fix: Henyey-Greenstein scattering with g=0 divides by
 zero

---
 pvtrace/material/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..9b04caa 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -114,13 +114,13 @@ def isotropic() -> numpy.ndarray:
 def henyey_greenstein(g=0.0) -> numpy.ndarray:
     """Henyey-Greenstein phase function."""
     # https://www.astro.umd.edu/~jph/HG_note.pdf
-    p = np.random.uniform(0, 1)
-    s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     # Inverse is not defined at g=0 but in the limit
     # tends to the isotropic case.
     if close_to_zero(g):
         return isotropic()
+    p = np.random.uniform(0, 1)
+    s = 2 * p - 1
+    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 4340f4e9cb8d3087da984ce11619dd543c40318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 11/44] fix: compiled-engine light emission accepts cone half
 angles that cone() refuses

---
 pvtrace/engine/emit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..cc5b7c6 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -65,8 +65,11 @@ def _sample_directions(delegate, n):
     ):
         return np.tile((0.0, 0.0, 1.0), (n, 1))
     if isinstance(delegate, Cone):
+        theta_max = delegate.theta_max
+        if np.isclose(theta_max, 0.0) or theta_max > np.pi / 2:
+            raise ValueError("Expected 0 < theta_max <= pi/2")
         theta = np.arcsin(
-            np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
+            np.sqrt(np.random.uniform(0, 1, n)) * np.sin(theta_max)
         )
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-- 
2.43.0


From 1fd74fc73889e1fed5df2d8e6b159727feadf47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 12/44] fix: Ray.propagate over zero distance raises
 ZeroDivisionError

---
 pvtrace/light/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index 7860ea3..c3dbe73 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -70,7 +70,7 @@ class Ray:
             position=new_position,
             travelled=self.travelled + distance,
             duration=self.duration
-            + 1 / (speed_of_light_cm_per_s / refractive_index / distance),
+            + distance * refractive_index / speed_of_light_cm_per_s,
         )
         return new_ray
 
-- 
2.43.0


From 9ef05e8f31e669771a18b6d3220ba00d41737b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 13/44] fix: recorder histograms count values just below their
 range (Python tally)

---
 pvtrace/engine/tally.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..63e4b42 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,7 +79,8 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
-    index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
+    # Round down, not towards zero, to not count values just below the range
+    index = int(np.floor((value - hist.start) / (hist.stop - hist.start) * hist.bins))
     return index if 0 <= index < hist.bins else -1
 
 
-- 
2.43.0


From ccb6d229678a227369384f8c27a0f602dea852d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 14/44] fix: time lost, reacted and killed commands fail with
 IndexError

---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From 2e9476886bd1b1684c90fb413f9fbb173ad4ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 15/44] fix: rays of two tasks run by one pool process share a
 database id

---
 pvtrace/scene/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..5169379 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -286,7 +286,8 @@ class Scene(object):
                 "Seed must be None to ensure different quasi-random sequences in each process"
             )
 
-        pool = multiprocessing.Pool(processes=workers)
+        # One task per process: queued results are told apart by process id
+        pool = multiprocessing.Pool(processes=workers, maxtasksperchild=1)
 
         # Results are send to queue
         if queue:
-- 
2.43.0


From 35e70550193c9e7ecdc192ee6b0fc1719f0a275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 16/44] fix: compiled engine gives a ray leaving towards a
 separate neighbour the neighbour's medium

---
 pvtrace/engine/_kernel.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..9757338 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -710,6 +710,14 @@ cdef int trace_one(
                 container = hit
             if container == hit:
                 adjacent = hit_node[second]
+                if hit_t[second] - t0 > EPS:
+                    # No neighbour touches here: leaving into whatever
+                    # encloses the container
+                    best = INFINITY
+                    for node in range(S.n_nodes):
+                        if node != hit and node_hits[node] == 1 and node_min_t[node] < best:
+                            best = node_min_t[node]
+                            adjacent = node
             else:
                 adjacent = hit
 
-- 
2.43.0


From 698b585b1f29cbc6d77c55b2f91ddcc38a041d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 17/44] fix: compiled engine log could fill up without a
 terminal KILL event

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 9757338..44dec39 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -656,8 +656,9 @@ cdef int trace_one(
         count += 1
 
         # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
-        if base >= 0 and nevents >= elog.max_events - 1:
+        # silently dropping events (leave room for the KILL record; one
+        # step logs up to two events, absorption and re-emission).
+        if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             break
-- 
2.43.0


From 29ae56af411c8949102af4d17d06587a05d353f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 18/44] fix: compiled engine histograms count values just below
 their range

---
 pvtrace/engine/_kernel.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 44dec39..f69c290 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -20,6 +20,7 @@ from libc.math cimport (
     asin,
     cos,
     fabs,
+    floor,
     log,
     sin,
     sqrt,
@@ -542,7 +543,8 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
-            ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
+            # Round down, not towards zero, to not count values just below the range
+            ia = <int>floor((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
             if ia < 0 or ia >= S.h_na[h]:
                 continue
             if S.h_prop_b[h] < 0:
@@ -550,7 +552,7 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
-                ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
+                ib = <int>floor((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
                 if ib < 0 or ib >= S.h_nb[h]:
                     continue
                 bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
-- 
2.43.0


From d917c21773370e3dfa1a533cae828bd388644afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 19/44] fix: compiled engine silently ignores overridden
 behaviour of subclasses

---
 pvtrace/engine/compiler.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..4e26108 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,7 +15,11 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
-from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
+from pvtrace.material.surface import (
+    FresnelSurfaceDelegate,
+    NullSurfaceDelegate,
+    Surface,
+)
 from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
@@ -206,14 +210,15 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
-        if isinstance(geometry, Box):
+        # Exact types: the kernel cannot honour overridden methods of subclasses
+        if type(geometry) is Box:
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
             self.geom_params[i, :3] = size
-        elif isinstance(geometry, Sphere):
+        elif type(geometry) is Sphere:
             self.geom_type[i] = GEOM_SPHERE
             self.geom_params[i, 0] = float(geometry.radius)
-        elif isinstance(geometry, Cylinder):
+        elif type(geometry) is Cylinder:
             self.geom_type[i] = GEOM_CYLINDER
             self.geom_params[i, 0] = float(geometry.length)
             self.geom_params[i, 1] = float(geometry.radius)
@@ -235,6 +240,11 @@ class CompiledScene:
     # -- surfaces ------------------------------------------------------
 
     def _surface_tag(self, node, material):
+        if type(material.surface) is not Surface:
+            raise UnsupportedSceneError(
+                f"Node {node.name!r} uses a custom surface "
+                f"{type(material.surface).__name__}; only Surface is supported."
+            )
         delegate = material.surface.delegate
         if type(delegate) is FresnelSurfaceDelegate:
             return SURF_FRESNEL
@@ -249,14 +259,14 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
-        # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
-        if isinstance(component, Reactor):
+        # Exact types: the kernel cannot honour overridden methods of subclasses
+        if type(component) is Reactor:
             ctype = COMP_REACTOR
-        elif isinstance(component, Absorber):
+        elif type(component) is Absorber:
             ctype = COMP_ABSORBER
-        elif isinstance(component, Luminophore):
+        elif type(component) is Luminophore:
             ctype = COMP_LUMINOPHORE
-        elif isinstance(component, Scatterer):
+        elif type(component) is Scatterer:
             ctype = COMP_SCATTERER
         else:
             raise UnsupportedSceneError(
@@ -301,9 +311,9 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
-        if isinstance(phase, HenyeyGreenstein):
+        if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
-        if isinstance(phase, Cone):
+        if type(phase) is Cone:
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
-- 
2.43.0


From dd94b1b57ea27bbe852bfc43904f494513aa92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 20/44] fix: streamed bundles restart the cycle of lights

---
 pvtrace/engine/api.py  | 10 +++++++---
 pvtrace/engine/emit.py |  7 ++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..5e4445a 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -203,6 +203,7 @@ def simulate(
     max_events=128,
     emit_method="kT",
     record_every=1,
+    first_ray=0,
 ):
     """Trace `num_rays` through `scene` with the compiled engine.
 
@@ -210,7 +211,8 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Raises `UnsupportedSceneError` if the scene cannot be
+    none when 0). `first_ray` is the index of the first ray when this is
+    one bundle of a stream. Raises `UnsupportedSceneError` if the scene cannot be
     compiled — callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
@@ -227,7 +229,7 @@ def simulate(
 
     from pvtrace.engine.emit import emit_bundle
 
-    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
+    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays, first_ray)
 
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
@@ -259,6 +261,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     traced = 0
     while traced < num_rays:
         n = min(bundle, num_rays - traced)
-        result = simulate(scene, n, seed=int(seed) + traced, **kwargs)
+        result = simulate(
+            scene, n, seed=int(seed) + traced, first_ray=traced, **kwargs
+        )
         traced += n
         yield result, traced
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index cc5b7c6..004b898 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -92,13 +92,14 @@ def _sample_directions(delegate, n):
     return None
 
 
-def emit_bundle(scene, num_rays):
+def emit_bundle(scene, num_rays, first_ray=0):
     """Emit `num_rays` from the scene's lights as world-frame arrays.
 
     Returns (positions, directions, wavelengths, sources). Lights with
     built-in delegates are sampled with numpy; others fall back to the
     per-ray Python generator. Rays cycle between lights exactly like
-    `scene.emit`.
+    `scene.emit`; `first_ray` is the index of the bundle's first ray in a
+    stream of bundles, so that the cycle continues from bundle to bundle.
     """
     lights = scene.light_nodes
     positions = np.zeros((num_rays, 3))
@@ -107,7 +108,7 @@ def emit_bundle(scene, num_rays):
     sources = np.empty(num_rays, dtype=object)
 
     for index, node in enumerate(lights):
-        rows = np.arange(index, num_rays, len(lights))
+        rows = np.arange((index - first_ray) % len(lights), num_rays, len(lights))
         n = rows.size
         if n == 0:
             continue
-- 
2.43.0


From b65e6a62c8e088b3872c1725067860bfd78ab5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 21/44] fix: vectorised emission ignores overridden lights and
 rules of subclasses

---
 pvtrace/engine/emit.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 004b898..79a22ea 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -20,13 +20,13 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
+    if delegate is light_module.default_wavelength or (
+        type(delegate) is light_module.DefaultWavelength
     ):
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +34,23 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
+    if delegate is light_module.default_position or (
+        type(delegate) is light_module.DefaultPosition
     ):
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +60,11 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
+    if delegate is light_module.default_direction or (
+        type(delegate) is light_module.DefaultDirection
     ):
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta_max = delegate.theta_max
         if np.isclose(theta_max, 0.0) or theta_max > np.pi / 2:
             raise ValueError("Expected 0 < theta_max <= pi/2")
@@ -81,7 +81,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
@@ -113,12 +113,14 @@ def emit_bundle(scene, num_rays, first_ray=0):
         if n == 0:
             continue
         light = node.light
-        wav = _sample_wavelengths(light.wavelength, n)
-        pos = _sample_positions(light.position, n)
-        direction = _sample_directions(light.direction, n)
+        wav = pos = direction = None
+        if type(light) is light_module.Light:
+            wav = _sample_wavelengths(light.wavelength, n)
+            pos = _sample_positions(light.position, n)
+            direction = _sample_directions(light.direction, n)
 
         if wav is None or pos is None or direction is None:
-            # Unknown delegate: per-ray Python fallback for this light
+            # Custom light or delegate: per-ray Python fallback for this light
             for row, ray in zip(rows, node.emit(n)):
                 world = ray.representation(node, scene.root)
                 positions[row] = world.position
-- 
2.43.0


From b843b9e6be48bd91460a8c7dd3c79a310b5d1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 22/44] fix: vectorised emission invents rays for a scene
 without lights

---
 pvtrace/engine/emit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 79a22ea..50bc690 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -102,6 +102,8 @@ def emit_bundle(scene, num_rays, first_ray=0):
     stream of bundles, so that the cycle continues from bundle to bundle.
     """
     lights = scene.light_nodes
+    if num_rays > 0 and len(lights) == 0:
+        raise ValueError("Cannot emit rays: the scene has no lights.")
     positions = np.zeros((num_rays, 3))
     directions = np.zeros((num_rays, 3))
     wavelengths = np.zeros(num_rays)
-- 
2.43.0


From 2a6dfacb2ee4295b96028d717c98d382eb1b69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 23/44] fix: scene files with only a coefficient or only a
 spectrum for a component are rejected

---
 pvtrace/cli/parse.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..f07c87b 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -256,12 +256,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -287,9 +287,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -298,7 +300,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -306,7 +308,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -338,9 +340,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
@@ -349,7 +353,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if coefficient is not None and absorption_spectrum is not None:
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -363,7 +367,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
@@ -372,7 +376,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From 5ef4e8b4399d494d145f3b171c2f4ac620fdac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 24/44] fix: scene files with fixed light positions, directions
 and wavelengths are rejected

---
 pvtrace/cli/parse.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index f07c87b..3dab629 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -13,6 +13,7 @@ import os
 import trimesh
 import numpy as np
 import pvtrace
+from functools import partial
 from typing import Callable, Tuple, List, Dict, Optional
 from pvtrace import (
     Scene,
@@ -138,6 +139,10 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return Mesh(trimesh=mesh, material=material)
 
     def parse_position_mask(spec):
+        if isinstance(spec, list):
+            # A fixed point
+            return partial(tuple, spec)
+
         if "rect" in spec:
             return RectangularMask(*spec["rect"])
 
@@ -174,7 +179,21 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
 
         raise ValueError("Missing attribute")
 
+    def parse_light_direction(spec) -> Callable:
+        if isinstance(spec, list):
+            # A fixed direction
+            length = np.linalg.norm(spec)
+            if length == 0.0:
+                raise ValueError("Light direction has no length")
+            return partial(tuple, [float(v / length) for v in spec])
+
+        return parse_direction_mask(spec)
+
     def parse_wavelength_mask(spec) -> Callable:
+        if not isinstance(spec, dict):
+            # A fixed wavelength
+            return ConstantWavelengthMask(float(spec))
+
         if "nanometers" in spec:
             nm = float(spec["nanometers"])
             return ConstantWavelengthMask(nm)
@@ -190,7 +209,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
 
         # Prepare default wavelength. This can be override by mask section.
         wavelength_nm = wavelength = spec.get("wavelength", None)
-        if wavelength_nm:
+        if wavelength_nm is not None:
             wavelength = ConstantWavelengthMask(wavelength_nm)
 
         position = None
@@ -198,14 +217,14 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
 
         mask = spec.get("mask", None)
         if mask:
-            if mask.get("wavelength", None):
+            if mask.get("wavelength", None) is not None:
                 wavelength = parse_wavelength_mask(mask["wavelength"])
 
             if mask.get("position", None):
                 position = parse_position_mask(mask["position"])
 
             if mask.get("direction", None):
-                direction = parse_direction_mask(mask["direction"])
+                direction = parse_light_direction(mask["direction"])
 
         return Light(
             position=position, direction=direction, wavelength=wavelength, name=name
-- 
2.43.0


From ccfafa8f13101d14a2a772b0edfa4fb2b5b6a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 25/44] fix: automatic face recorders of rotated boxes miss
 every ray

---
 pvtrace/cli/parse.py         |  7 ++++++-
 pvtrace/studio/server.py     | 15 ++++++++++++++-
 pvtrace/studio/static/app.js |  6 +++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 3dab629..c9945cc 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -483,6 +483,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
     for node_name, node_spec in spec.get("nodes", {}).items():
         if node_spec.get("record"):
             for name, recorder in auto_recorders(node_name, node_spec).items():
+                if "facet" in recorder:
+                    # Faces follow the node, facets are in the world frame
+                    recorder["facet"] = nodes[node_name].vector_to_node(
+                        recorder["facet"], nodes["world"]
+                    )
                 recorders_spec.setdefault(name, recorder)
     parse_recorders(recorders_spec, nodes)
 
@@ -496,7 +501,7 @@ def auto_recorders(node_name: str, node_spec: dict) -> dict:
     a volume loss recorder; spheres and cylinders get whole-surface
     escaping and loss recorders. The expansion produces ordinary entries
     for the recorders section, so explicit recorders with the same names
-    take precedence.
+    take precedence. The facets of the boxes are in the node's own frame.
     """
     wavelength = [300.0, 1000.0, 100]
     angle = [0.0, 1.5708, 18]
diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..388eb8d 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -128,6 +128,11 @@ class Studio:
                     "node": node.name,
                     "event": recorder.event,
                     "facet": list(recorder.facet) if recorder.facet else None,
+                    # The facet in the node's own frame
+                    "face": [
+                        round(float(v), 6)
+                        for v in self.scene.root.vector_to_node(recorder.facet, node)
+                    ] if recorder.facet else None,
                     "histograms": histograms,
                     "auto": recorder.name in auto_names
                             and recorder.name not in explicit,
@@ -393,6 +398,10 @@ def _patch(studio, payload):
             ("east", [1, 0, 0]), ("west", [-1, 0, 0]),
             ("north", [0, 1, 0]), ("south", [0, -1, 0]),
         ]
+        from anytree import PreOrderIter
+
+        root = studio.scene.root
+        scene_node = {n.name: n for n in PreOrderIter(root)}[node]
         recorders = data.setdefault("recorders", {})
         for label, facet in faces:
             name = f"{node}-{label}"
@@ -405,7 +414,11 @@ def _patch(studio, payload):
             recorders[name] = {
                 "node": node,
                 "event": "escaping",
-                "facet": _flow(facet),
+                # Faces follow the node, facets are in the world frame
+                "facet": _flow([
+                    round(float(v), 9) + 0.0
+                    for v in scene_node.vector_to_node(facet, root)
+                ]),
                 "histograms": {
                     "position": _flow([
                         axes[u_axis], axes[v_axis],
diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 2d7d81a..dfbfa0e 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -158,10 +158,10 @@ function buildRecorderOverlay(recorder, nodePayload) {
   // becomes a live heatmap texture during a run. The quad is built from
   // explicit node-local vertices so the axis mapping matches the
   // heatmap properties exactly.
-  if (!recorder.facet || nodePayload.type !== "box") return null;
-  const axis = recorder.facet.findIndex((v) => Math.abs(v) > 0.5);
+  if (!recorder.face || nodePayload.type !== "box") return null;
+  const axis = recorder.face.findIndex((v) => Math.abs(v) > 0.999);
   if (axis < 0) return null;
-  const sign = Math.sign(recorder.facet[axis]);
+  const sign = Math.sign(recorder.face[axis]);
   const size = nodePayload.params;
 
   const heatIndex = recorder.histograms.findIndex((h) => h.kind === "heatmap");
-- 
2.43.0


From 084597c6814a14108781886529614d6785736290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 26/44] fix: scene files with numbers which are not finite are
 accepted

---
 pvtrace/cli/parse.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c9945cc..198e0a1 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -70,10 +70,25 @@ def load_spec(filename):
         return spec
 
 
+def check_finite(value):
+    """Raises ValueError if there is a number in the spec which is not finite
+    (YAML has .nan and .inf, and the schema cannot exclude them).
+    """
+    if isinstance(value, dict):
+        for item in value.values():
+            check_finite(item)
+    elif isinstance(value, list):
+        for item in value:
+            check_finite(item)
+    elif isinstance(value, float) and not numpy.isfinite(value):
+        raise ValueError(f"{value} is not a finite number")
+
+
 def parse(filename: str) -> Scene:
     schema = load_schema()
     spec = load_spec(filename)
     jsonschema.validate(spec, schema=schema)
+    check_finite(spec)
     schema_version = spec["version"]
     if schema_version == "1.0":
         return parse_v_1_0(spec, os.path.dirname(filename))
@@ -477,6 +492,8 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
 
         direction = coordsys.get("direction", None)
         if direction:
+            if not any(direction):
+                raise ValueError(f"Direction of {k!r} has no length")
             node.look_at(direction)
 
     recorders_spec = dict(spec.get("recorders", {}) or {})
-- 
2.43.0


From 7a5644ce0af90ed6c2d455b3a58bf245f8d8e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 27/44] fix: studio replaces its scene before the edit has
 succeeded

---
 pvtrace/studio/server.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 388eb8d..dea376f 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -7,6 +7,7 @@ results (recorder tallies and sampled ray paths) over a websocket.
 """
 import asyncio
 import io
+import json
 import os
 import tempfile
 import time
@@ -15,6 +16,7 @@ from pathlib import Path
 import numpy as np
 import yaml
 from fastapi import FastAPI, WebSocket, WebSocketDisconnect
+from fastapi.encoders import jsonable_encoder
 from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
@@ -68,16 +70,20 @@ class Studio:
 
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
+        # Everything which can fail comes before the scene is replaced
+        payload = self.scene_payload(compiled, scene, spec)
+        json.dumps(jsonable_encoder(payload), allow_nan=False)
+
         self.document = text
         self.scene = scene
         self.spec = spec
-        return self.scene_payload(compiled)
+        return payload
 
-    def scene_payload(self, compiled):
+    def scene_payload(self, compiled, scene, spec):
         """Geometry description for the three.js viewport."""
         from anytree import PreOrderIter
 
-        node_specs = self.spec.get("nodes", {}) if self.spec else {}
+        node_specs = spec.get("nodes", {})
         nodes = []
         for i, name in enumerate(compiled.node_names):
             nodes.append(
@@ -93,21 +99,21 @@ class Studio:
                 }
             )
         lights = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             if node.light is not None:
-                matrix = np.asarray(node.transformation_to(self.scene.root))
+                matrix = np.asarray(node.transformation_to(scene.root))
                 lights.append({"name": node.name,
                                "matrix": matrix.T.ravel().tolist(),
                                "spec": node_specs.get(node.name, {})})
         recorders = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             auto_names = set()
             node_spec = node_specs.get(node.name, {})
             if node_spec.get("record"):
                 from pvtrace.cli.parse import auto_recorders
 
                 auto_names = set(auto_recorders(node.name, node_spec))
-            explicit = set((self.spec.get("recorders") or {})) if self.spec else set()
+            explicit = set((spec.get("recorders") or {}))
             for recorder in getattr(node, "recorders", []):
                 histograms = []
                 for hist in recorder.histograms:
@@ -131,14 +137,14 @@ class Studio:
                     # The facet in the node's own frame
                     "face": [
                         round(float(v), 6)
-                        for v in self.scene.root.vector_to_node(recorder.facet, node)
+                        for v in scene.root.vector_to_node(recorder.facet, node)
                     ] if recorder.facet else None,
                     "histograms": histograms,
                     "auto": recorder.name in auto_names
                             and recorder.name not in explicit,
                 })
         return {"nodes": nodes, "lights": lights, "recorders": recorders,
-                "spec": self.spec}
+                "spec": spec}
 
 
 def create_app(document_path=None):
-- 
2.43.0


From 9e34a246fdef5435f9e211bdde6ca287e867f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 28/44] fix: studio resolves files named in the document from
 its working directory

---
 pvtrace/studio/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index dea376f..f0540d8 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -46,8 +46,10 @@ class NoCacheStaticFiles(StaticFiles):
 class Studio:
     """Holds the current document and its parsed scene."""
 
-    def __init__(self, document=""):
+    def __init__(self, document="", folder=None):
         self.document = document
+        # Files named in the document are relative to this folder
+        self.folder = folder
         self.scene = None
         self.spec = None
 
@@ -59,7 +61,7 @@ class Studio:
 
         # parse() validates against the JSON schema and reads from disk
         with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
+            "w", suffix=".yml", delete=False, dir=self.folder or os.getcwd()
         ) as fp:
             fp.write(text)
             path = fp.name
@@ -150,9 +152,11 @@ class Studio:
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
+    folder = None
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        folder = Path(document_path).resolve().parent
+    studio = Studio(text, folder)
 
     @app.get("/")
     async def index():
-- 
2.43.0


From 1a9ef293a9262be1a049460a71270e1b84ae04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 29/44] fix: moving a node in studio also moves its YAML
 aliases

---
 pvtrace/studio/server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index f0540d8..25aea95 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -369,9 +369,11 @@ def _patch(studio, payload):
         if node.parent is None:
             raise ValueError("Cannot move the root node.")
         local = studio.scene.root.point_to_node(tuple(world), node.parent)
-        data["nodes"][name]["location"] = _flow(
-            [round(float(v), 6) for v in local]
-        )
+        specs = data["nodes"]
+        if any(specs[k] is specs[name] for k in specs if k != name):
+            # A YAML alias, the other nodes must stay where they are
+            specs[name] = dict(specs[name])
+        specs[name]["location"] = _flow([round(float(v), 6) for v in local])
 
     elif operation == "add-node":
         kind = payload["kind"]
-- 
2.43.0


From 99821d5381f9b6a0db113e6c7257e9d58a1bb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:02 +0000
Subject: [PATCH 30/44] fix: lengths of vectors in scene files are not checked

---
 pvtrace/cli/parse.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 198e0a1..6a340f8 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -84,6 +84,13 @@ def check_finite(value):
         raise ValueError(f"{value} is not a finite number")
 
 
+def check_length(values: list, length: int) -> list:
+    """Returns the vector, raises ValueError if it has not the right length."""
+    if len(values) != length:
+        raise ValueError(f"{values} should have {length} numbers")
+    return values
+
+
 def parse(filename: str) -> Scene:
     schema = load_schema()
     spec = load_spec(filename)
@@ -128,7 +135,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return material
 
     def parse_box(spec, component_map):
-        size = spec["size"]
+        size = check_length(spec["size"], 3)
         material = parse_material(spec["material"], component_map)
         return Box(size=size, material=material)
 
@@ -156,13 +163,13 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
     def parse_position_mask(spec):
         if isinstance(spec, list):
             # A fixed point
-            return partial(tuple, spec)
+            return partial(tuple, check_length(spec, 3))
 
         if "rect" in spec:
-            return RectangularMask(*spec["rect"])
+            return RectangularMask(*check_length(spec["rect"], 2))
 
         if "cube" in spec:
-            return CubeMask(*spec["cube"])
+            return CubeMask(*check_length(spec["cube"], 3))
 
         if "circle" in spec:
             return CircularMask(spec["circle"])
@@ -197,7 +204,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
     def parse_light_direction(spec) -> Callable:
         if isinstance(spec, list):
             # A fixed direction
-            length = np.linalg.norm(spec)
+            length = np.linalg.norm(check_length(spec, 3))
             if length == 0.0:
                 raise ValueError("Light direction has no length")
             return partial(tuple, [float(v / length) for v in spec])
@@ -235,10 +242,10 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if mask.get("wavelength", None) is not None:
                 wavelength = parse_wavelength_mask(mask["wavelength"])
 
-            if mask.get("position", None):
+            if mask.get("position", None) is not None:
                 position = parse_position_mask(mask["position"])
 
-            if mask.get("direction", None):
+            if mask.get("direction", None) is not None:
                 direction = parse_light_direction(mask["direction"])
 
         return Light(
@@ -487,11 +494,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             node.parent = nodes[coordsys["parent"]]
 
         location = coordsys.get("location", None)
-        if location:
-            node.location = location
+        if location is not None:
+            node.location = check_length(location, 3)
 
         direction = coordsys.get("direction", None)
-        if direction:
+        if direction is not None:
+            check_length(direction, 3)
             if not any(direction):
                 raise ValueError(f"Direction of {k!r} has no length")
             node.look_at(direction)
-- 
2.43.0


From 5e1c4f417f81a99a819123f9a6c6e7f23503237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:02 +0000
Subject: [PATCH 31/44] fix: scaled spectra of whole numbers are cut to whole
 numbers

---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 6a340f8..9c1d4e0 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -280,7 +280,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             index_col=0,
         )
         # like numpy.column_stack((x, y))
-        spectrum = df.iloc[:, 0:2].values
+        spectrum = numpy.array(df.iloc[:, 0:2].values, dtype=float)
         return spectrum
 
     def parse_absorber(spec, name):
-- 
2.43.0


From 54e451a6711a01147de5e3f61e315c2df5e348d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:31 +0000
Subject: [PATCH 32/44] fix: baubles of old histories are never removed from
 the renderer

---
 pvtrace/scene/renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..9ac44df 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -309,14 +309,14 @@ class MeshcatRenderer(object):
             if baubles:
                 event = start_part[1]
                 if event in {Event.TRANSMIT}:
-                    baubid = self.get_next_identifer()
-                    vis[f"exit/{baubid}"].set_object(
+                    baubid = f"exit/{self.get_next_identifer()}"
+                    vis[baubid].set_object(
                         g.Sphere(bauble_radius),
                         g.MeshBasicMaterial(
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(start))
 
                     ids.append(baubid)
 
-- 
2.43.0


From 04a242ed9ffc755ccb4d7a391d27b7d4b93aae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:31 +0000
Subject: [PATCH 33/44] fix: renderer draws lost and killed rays past the place
 where they end

---
 pvtrace/scene/renderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9ac44df..d4e88b3 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -298,7 +298,8 @@ class MeshcatRenderer(object):
             start = start_ray.position
             end = end_ray.position
             if world_segment == "short":
-                if end_ray == history[-1][0]:
+                # only the segment to the world node is shortened
+                if end_part[1] == Event.EXIT:
                     end = (
                         np.array(start_ray.position)
                         + np.array(start_ray.direction) * short_length
-- 
2.43.0


From 9256859e9da593e519ea861e31bf67a4d040b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 34/44] fix: renderer shows one history less than its maximum

---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index d4e88b3..c3f0898 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -321,11 +321,11 @@ class MeshcatRenderer(object):
 
                     ids.append(baubid)
 
-        self.ray_histories.append(ids)
         if len(self.ray_histories) == self.max_histories:
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
+        self.ray_histories.append(ids)
 
         return ids
 
-- 
2.43.0


From 0462ca2823b6f097c20748d3409f0b5dab844287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 35/44] fix: a concentrator with its own wavelength range
 cannot be simulated

---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..4b0ffc7 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -95,7 +95,8 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
+        self.wavelength_range = wavelength_range
 
         self.size = size  # centimetres
         self.n0 = n0
-- 
2.43.0


From a2adeba9df39dce4235d915b7328d10ebc6a07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 36/44] fix: scatterers cannot be added to a concentrator

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4b0ffc7..4648613 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
-- 
2.43.0


From fcceba1886256d335561e8a34bebf46b08138c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 37/44] fix: concentrator results use a method pandas has
 removed

---
 pvtrace/device/lsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4648613..d7c2afc 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -380,22 +380,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
+        df = pd.DataFrame(rows)
         self._df = df
         return df
 
-- 
2.43.0


From 528bc15d848be779a945b646caae3b077af35189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 38/44] fix: simulating a concentrator again fails and keeps
 old counts

---
 pvtrace/device/lsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index d7c2afc..63e3e92 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -342,7 +342,8 @@ class LSC(object):
         scene = self._scene
 
         # Simulate can be called multiple time to append rays to the store
-        if self._store is None:
+        store = self._store
+        if store is None:
             store = {"entrance_rays": [], "exit_rays": []}
 
         vis = self._renderer
@@ -376,6 +377,7 @@ class LSC(object):
         df = self.expand_coords(df, "position")
         df = self.label_facets(df, *self.size)
         self._df = df
+        self._counts = None
 
     def _make_dataframe(self):
 
-- 
2.43.0


From 600c653fb37804144f6a9c56c3458a0354ed5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 39/44] fix: rays lost in a concentrator are not counted

---
 pvtrace/device/lsc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 63e3e92..7595b97 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -352,7 +352,7 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] in (Event.NONRADIATIVE, Event.KILL):
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
             elif events[-1] == Event.EXIT:
@@ -596,7 +596,7 @@ class LSC(object):
         for facet in all_facets:
             incident += counts["Solar In"][facet]
 
-        lost = self.spectrum(source="all", events={"absorb"}, kind="last").shape[0]
+        lost = self.spectrum(source="all", events={"nonradiative"}, kind="last").shape[0]
 
         optical_efficiency = lum_collected / incident
         waveguide_efficiency = lum_collected / (lum_collected + lum_escaped)
@@ -681,7 +681,7 @@ def test1():
     lsc.simulate(throw, emit_method="redshift")
     edge = lsc.spectrum(facets={"left", "right", "near", "far"}, source="all")
     escape = lsc.spectrum(facets={"top", "bottom"}, source="all")
-    lost = lsc.spectrum(source="all", events={"absorb"})
+    lost = lsc.spectrum(source="all", events={"nonradiative"})
 
     import matplotlib.pyplot as plt
 
-- 
2.43.0


From 0cffea1ea25956214b6b5beea3ea5209f07f4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 40/44] fix: counts of a concentrator swap the near and far
 facets of its solar cells

---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 7595b97..b4271c5 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -451,8 +451,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 5089530381ee25a87d6fdd4e98c41101384a9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 41/44] fix: specular air gap mirror of a concentrator lets
 rays through

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index b4271c5..5768522 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From 9f5a6f55bbe95664e219b14b9a58d623b1a24f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 42/44] fix: rays of a concentrator are counted at facets they
 are not on

---
 pvtrace/device/lsc.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 5768522..a159367 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -449,12 +449,19 @@ class LSC(object):
         xmin, xmax = -0.5 * length, 0.5 * length
         ymin, ymax = -0.5 * width, 0.5 * width
         zmin, zmax = -0.5 * height, 0.5 * height
-        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
-        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
-        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
+        x, y, z = df["position_x"], df["position_y"], df["position_z"]
+        # a facet is only the part of its plane which belongs to the box
+        on_box = (
+            (abs(x) <= xmax * (1 + 1e-5) + EPS_ZERO)
+            & (abs(y) <= ymax * (1 + 1e-5) + EPS_ZERO)
+            & (abs(z) <= zmax * (1 + 1e-5) + EPS_ZERO)
+        )
+        df.loc[on_box & np.isclose(x, xmin, atol=EPS_ZERO), "facet"] = "left"
+        df.loc[on_box & np.isclose(x, xmax, atol=EPS_ZERO), "facet"] = "right"
+        df.loc[on_box & np.isclose(y, ymin, atol=EPS_ZERO), "facet"] = "near"
+        df.loc[on_box & np.isclose(y, ymax, atol=EPS_ZERO), "facet"] = "far"
+        df.loc[on_box & np.isclose(z, zmin, atol=EPS_ZERO), "facet"] = "bottom"
+        df.loc[on_box & np.isclose(z, zmax, atol=EPS_ZERO), "facet"] = "top"
         return df
 
     def _make_counts(self, df):
-- 
2.43.0


From d56d98c448af0a2363619f0448480ab656a92f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 43/44] fix: killed rays of a concentrator are counted as
 leaving it

---
 pvtrace/device/lsc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index a159367..efc483e 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -469,6 +469,9 @@ class LSC(object):
         if self._counts is not None:
             return self._counts
 
+        # Rays are counted where they meet a facet, not where they were generated
+        # or killed
+        at_facet = {"reflect", "transmit"}
         components = self._scene.component_nodes
         lights = self._scene.light_nodes
         all_components = {component.name for component in components}
@@ -478,28 +481,28 @@ class LSC(object):
         solar_out = dict()
         for facet in {"left", "right", "near", "far", "top", "bottom"}:
             solar_out[facet] = self.spectrum(
-                facets={facet}, source=all_lights, kind="last"
+                facets={facet}, source=all_lights, kind="last", events=at_facet
             ).shape[0]
 
         # Count solar photons entering
         solar_in = dict()
         for facet in {"left", "right", "near", "far", "top", "bottom"}:
             solar_in[facet] = self.spectrum(
-                facets={facet}, source=all_lights, kind="first"
+                facets={facet}, source=all_lights, kind="first", events=at_facet
             ).shape[0]
 
         # Count luminescent photons exiting
         lum_out = dict()
         for facet in {"left", "right", "near", "far", "top", "bottom"}:
             lum_out[facet] = self.spectrum(
-                facets={facet}, source=all_components, kind="last"
+                facets={facet}, source=all_components, kind="last", events=at_facet
             ).shape[0]
 
         # Count luminescent photons entering
         lum_in = dict()
         for facet in {"left", "right", "near", "far", "top", "bottom"}:
             lum_in[facet] = self.spectrum(
-                facets={facet}, source=all_components, kind="first"
+                facets={facet}, source=all_components, kind="first", events=at_facet
             ).shape[0]
 
         self._counts = counts = pd.DataFrame(
-- 
2.43.0


From ddacca801666dccda13dc695ede3fec16b467866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 44/44] fix: files uploaded beside a linked document cannot be
 used by name

---
 pvtrace/studio/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 25aea95..085ee8b 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -155,7 +155,7 @@ def create_app(document_path=None):
     folder = None
     if document_path:
         text = Path(document_path).read_text()
-        folder = Path(document_path).resolve().parent
+        folder = Path(document_path).absolute().parent
     studio = Studio(text, folder)
 
     @app.get("/")
-- 
2.43.0

