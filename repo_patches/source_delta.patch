From d03ebafe25d383f8ccb6dd8a311b378aa19f0800 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 01/32] fix: check finiteness on a plain array so NumPy 1 does
 not recurse to the stack limit

With NumPy 1.x, np.isfinite on a spatial object calls __array_wrap__ with an
instance of the class, which constructs another spatial object, which calls
np.isfinite again, until the recursion limit is hit and the RecursionError is
swallowed. Every ufunc took milliseconds, and with a raised recursion limit
the interpreter crashed.
---
 src/skspatial/objects/_base_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..4359320 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -23,7 +23,9 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         if np.size(array) == 0:
             raise ValueError("The array must not be empty.")
 
-        if not np.isfinite(array).all():
+        # A regular array is checked, because a ufunc on a spatial object constructs another
+        # spatial object (in `__array_wrap__`), which would be checked in turn.
+        if not np.isfinite(np.asarray(array)).all():
             raise ValueError("The values must all be finite.")
 
         # We cast the input array to be our class type.
-- 
2.43.0


From 4e5e3076be1525a01752e99316444df2397aab78 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 02/32] fix: intersect line segments that meet at an endpoint

---
 src/skspatial/objects/line_segment.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..c152dc7 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -146,10 +146,18 @@ class LineSegment(_BaseSpatial):
 
         point_intersection = line_a.intersect_line(line_b, **kwargs)
 
-        point_on_segment_a = self.contains_point(point_intersection)
-        point_on_segment_b = other.contains_point(point_intersection)
-
-        if not (point_on_segment_a and point_on_segment_b):
+        def _is_on_segment(segment: LineSegment) -> bool:
+            # Rounding error can leave the intersection point slightly off an endpoint of the segment.
+            # The direction from such a point to the endpoint is arbitrary.
+            tolerance = 1e-9 * segment.point_a.distance_point(segment.point_b)
+
+            return (
+                segment.point_a.distance_point(point_intersection) <= tolerance
+                or segment.point_b.distance_point(point_intersection) <= tolerance
+                or segment.contains_point(point_intersection)
+            )
+
+        if not (_is_on_segment(self) and _is_on_segment(other)):
             raise ValueError("The line segments must intersect.")
 
         return point_intersection
-- 
2.43.0


From 77d2be3428879aacccf30526adb07cf559080edc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 03/32] fix: best fit cylinder spans the points when they are
 unbalanced along the axis

---
 src/skspatial/objects/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 0362fe6..b709807 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -633,7 +633,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         axis = Line(point=center, direction=unit_vector)
         points_1d = axis.transform_points(points)
         point_a = axis.project_point(points[np.argmin(points_1d)])
-        length = point_a.distance_point(center) * 2
+        length = np.ptp(points_1d)
         vector_ab = unit_vector * length
 
         return cls(point_a, vector_ab, radius)
-- 
2.43.0


From e4e7b2a3142f640b54be0411b1ba6b9e90b9c133 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 04/32] fix: initial direction of cylinder best fit when y is
 zero and x is negative

---
 src/skspatial/objects/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index b709807..4448d21 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -608,7 +608,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
             if math.isclose(x, 0.0, abs_tol=1e-9) and math.isclose(y, 0.0, abs_tol=1e-9):
                 phi = 0.0
             else:
-                phi = np.sign(y) * np.arccos(x / np.sqrt(x**2 + y**2))
+                phi = np.arctan2(y, x)
             return _SphericalCoordinates(theta, phi)
 
         def _spherical_to_cartesian(spherical_coordinates: _SphericalCoordinates) -> Vector:
-- 
2.43.0


From e9805f0767d8fd585784bde5420d1158c90f7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 05/32] fix: clamp the cosine in Triangle.angle so thin
 triangles do not raise a math domain error

---
 src/skspatial/objects/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index da21687..43f4b4b 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -415,7 +415,8 @@ class Triangle(_BaseSpatial):
         else:
             raise ValueError("The vertex must be 'A', 'B', or 'C'.")
 
-        return math.acos(arg)
+        # Rounding error can move the cosine of an angle slightly outside of [-1, 1].
+        return math.acos(min(max(arg, -1), 1))
 
     def centroid(self) -> Point:
         """
-- 
2.43.0


From ad9e7472fd15631ae65af06fee4ff7da6c01cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 06/32] fix: intersect tangent circles when rounding makes the
 half chord imaginary

---
 src/skspatial/objects/circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index b821adb..57a9baa 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -281,7 +281,8 @@ class Circle(_BaseSphere):
 
         a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
 
-        h = math.sqrt(self.radius**2 - a**2)
+        # Rounding error can make the difference slightly negative if the circles are tangent.
+        h = math.sqrt(max(self.radius**2 - a**2, 0))
 
         point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
 
-- 
2.43.0


From 0b139133c838f93c725ca394c855aac0959b91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 07/32] fix: affine rank of points that are far from the origin

---
 src/skspatial/objects/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index f0b24ac..9745a94 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -231,7 +231,8 @@ class Points(_BaseArray2D):
 
         """
         # Remove duplicate points so they do not affect the centroid.
-        points_centered = self.unique().mean_center()
+        # The points are centered twice because the centroid is rounded if the points are far from the origin.
+        points_centered = self.unique().mean_center().mean_center()
 
         return matrix_rank(points_centered, **kwargs)
 
-- 
2.43.0


From a845e6a807b20d5644e117e685a734a1d41d9142 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 08/32] fix: orthocenter of 3D triangles when rounding makes
 the altitudes not quite coplanar

---
 src/skspatial/objects/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index 43f4b4b..44b7b1e 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -526,7 +526,8 @@ class Triangle(_BaseSpatial):
         line_alt_a = self.altitude('A')
         line_alt_b = self.altitude('B')
 
-        return line_alt_a.intersect_line(line_alt_b, **kwargs)
+        # The altitudes are coplanar by definition, so rounding error must not fail the coplanarity check.
+        return line_alt_a.intersect_line(line_alt_b, **{'check_coplanar': False, **kwargs})
 
     def classify(self, **kwargs: float) -> str:
         """
-- 
2.43.0


From c01239ab8235055be2adba6a1b12a2d9948864e5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 09/32] fix: give LineSegment a dimension so that it can be
 plotted with its plotter

---
 src/skspatial/objects/line_segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index c152dc7..02cb1da 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -28,6 +28,8 @@ class LineSegment(_BaseSpatial):
     ----------
     point_a, point_b : Point
         The two endpoints of the line segment.
+    dimension : int
+        Dimension of the line segment.
 
     Raises
     ------
@@ -57,6 +59,8 @@ class LineSegment(_BaseSpatial):
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
+        self.dimension = self.point_a.dimension
+
     def __repr__(self) -> str:
         repr_point_a = np.array_repr(self.point_a)
         repr_point_b = np.array_repr(self.point_b)
-- 
2.43.0


From daff68fea3caae0a4f90b21b68d0bcf362fa6833 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 10/32] fix: round returns a new array instead of changing the
 array in place

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 4359320..b2618d6 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -124,7 +124,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return self.__array_wrap__(np.around(self.to_array(), decimals=decimals))
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From 7786f7bd2cfbb0ed5ea7ed54685cc19bf0c49eff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 11/32] fix: circle and sphere reject a radius that is not a
 number

---
 src/skspatial/objects/_base_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index bb297d0..cb6117e 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -15,7 +15,7 @@ class _BaseSphere(_BaseSpatial):
     """Private parent class for Circle and Sphere."""
 
     def __init__(self, point: array_like, radius: float):
-        if radius <= 0:
+        if not radius > 0:
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-- 
2.43.0


From 4e0fe5a8a1354af0d522e76a9201db6e75c65e5b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 12/32] fix: classify a triangle with two pairs of close sides
 as isosceles

---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index 44b7b1e..34ed2aa 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -579,7 +579,7 @@ class Triangle(_BaseSpatial):
         if n_pairs_close == 3:
             return 'equilateral'
 
-        if n_pairs_close == 1:
+        if n_pairs_close >= 1:
             return 'isosceles'
 
         return 'scalene'
-- 
2.43.0


From de6fc576a97c416195a16e212dc0a839f8522c27 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 13/32] fix: round quadratic coefficients when the number of
 digits is zero

---
 src/skspatial/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index 34e0333..f31aa4e 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -114,7 +114,7 @@ def _solve_quadratic(a: float, b: float, c: float, n_digits: Optional[int] = Non
     ValueError: The discriminant must not be negative.
 
     """
-    if n_digits:
+    if n_digits is not None:
         a = round(a, n_digits)
         b = round(b, n_digits)
         c = round(c, n_digits)
-- 
2.43.0


From e1e35c0011adc6541c4babd41021a7127b04f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 14/32] fix: plane distance is exactly zero for points on the
 plane with integer coordinates

---
 src/skspatial/objects/plane.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 812c3b0..378f606 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -419,7 +419,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         """
         vector_to_point = Vector.from_points(self.point, point)
 
-        return self.normal.scalar_projection(vector_to_point)
+        # Dividing last keeps the distance exactly zero if the point is on the plane and the coordinates are integers.
+        return np.float64(self.normal.dot(vector_to_point) / self.normal.norm())
 
     def distance_points_signed(self, points: array_like) -> np.ndarray:
         """
@@ -451,7 +452,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         """
         vectors = np.subtract(points, self.point)
 
-        return np.array(np.dot(vectors, self.normal.unit()))
+        return np.array(np.dot(vectors, self.normal)) / self.normal.norm()
 
     def distance_point(self, point: array_like) -> np.float64:
         """
-- 
2.43.0


From e52bc78fcc59017d72488570e10d6d4da9b043da Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 15/32] fix: dimension of transposed, reshaped and unpickled
 array objects follows their shape

---
 src/skspatial/objects/_base_array.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index b2618d6..10dc858 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -1,6 +1,6 @@
 """Private base classes for arrays."""
 
-from typing import Type, TypeVar
+from typing import Optional, Type, TypeVar
 
 import numpy as np
 
@@ -138,8 +138,9 @@ class _BaseArray1D(_BaseArray):
 
         return super().__new__(cls, array_like)
 
-    def __array_finalize__(self, _):
-        self.dimension = self.size
+    @property
+    def dimension(self) -> int:
+        return self.size
 
     def set_dimension(self: Array1D, dim: int) -> Array1D:
         """
@@ -197,11 +198,9 @@ class _BaseArray2D(_BaseArray):
 
         return super().__new__(cls, array)
 
-    def __array_finalize__(self, _):
-        try:
-            self.dimension = self.shape[1]
-        except IndexError:
-            self.dimension = None
+    @property
+    def dimension(self) -> Optional[int]:
+        return self.shape[1] if self.ndim > 1 else None
 
     def set_dimension(self: Array2D, dim: int) -> Array2D:
         """
-- 
2.43.0


From 00a701a817066a43a1f3a9c509a3ef2c0fc13554 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 16/32] fix: circle from points that are far from the origin

---
 src/skspatial/objects/circle.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 57a9baa..0a280e5 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -136,9 +136,12 @@ class Circle(_BaseSphere):
         if Points([point_a, point_b, point_c]).are_collinear(**kwargs):
             raise ValueError("The points must not be collinear.")
 
-        x_a, y_a = point_a
-        x_b, y_b = point_b
-        x_c, y_c = point_c
+        # The points are shifted near the origin so that their squared coordinates do not lose precision.
+        shift = 0 - np.median([point_a, point_b, point_c], axis=0)
+
+        x_a, y_a = point_a + shift
+        x_b, y_b = point_b + shift
+        x_c, y_c = point_c + shift
 
         matrix = np.array(
             [
@@ -159,7 +162,7 @@ class Circle(_BaseSphere):
 
         radius = math.sqrt(x**2 + y**2 + M_03 / M_00)
 
-        return cls([x, y], radius)
+        return cls([x, y] - shift, radius)
 
     @np_float
     def circumference(self) -> float:
-- 
2.43.0


From 863bc82df4ab5ad2c2ecb1e130d1d79e34cc9063 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 17/32] fix: circle and sphere of best fit for points that are
 far from the origin

---
 src/skspatial/objects/circle.py | 9 ++++++---
 src/skspatial/objects/sphere.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 0a280e5..2f5990d 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -458,14 +458,17 @@ class Circle(_BaseSphere):
             raise ValueError("The points must not be collinear.")
 
         n = points.shape[0]
-        A = np.hstack((2 * points, np.ones((n, 1))))
-        b = (points**2).sum(axis=1)
+        # The points are centered so that their squared coordinates do not lose precision.
+        points_centered, centroid = points.mean_center(return_centroid=True)
+
+        A = np.hstack((2 * points_centered, np.ones((n, 1))))
+        b = (points_centered**2).sum(axis=1)
         c = np.linalg.lstsq(A, b, rcond=None)[0]
 
         center = c[:2]
         radius = np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)
 
-        return cls(center, radius)
+        return cls(center + centroid, radius)
 
     def plot_2d(self, ax_2d, **kwargs) -> None:
         """
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index e346a8e..5cac2cf 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -233,15 +233,18 @@ class Sphere(_BaseSphere, _ToPointsMixin):
             raise ValueError("The points must not be in a plane.")
 
         n = points.shape[0]
-        A = np.hstack((2 * points, np.ones((n, 1))))
-        b = (points**2).sum(axis=1)
+        # The points are centered so that their squared coordinates do not lose precision.
+        points_centered, centroid = points.mean_center(return_centroid=True)
+
+        A = np.hstack((2 * points_centered, np.ones((n, 1))))
+        b = (points_centered**2).sum(axis=1)
 
         c, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
 
         center = c[:3]
         radius = float(np.sqrt(np.dot(center, center) + c[3]))
 
-        return cls(center, radius)
+        return cls(center + centroid, radius)
 
     def to_mesh(self, n_angles: int = 30) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From 49abc37447ca2b285b3b234d2d6089d56bac9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 18/32] fix: vector projected onto a plane does not lose
 precision to the point of the plane

---
 src/skspatial/objects/plane.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 378f606..26f572e 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -326,10 +326,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         Vector([ 2., -2.,  2.])
 
         """
-        point_in_space = self.point + vector
-        point_on_plane = self.project_point(point_in_space)
-
-        return Vector.from_points(self.point, point_on_plane)
+        return cast(Vector, Vector(vector) - self.normal.project_vector(vector))
 
     def project_line(self, line: Line, **kwargs: float) -> Line:
         """
-- 
2.43.0


From 00720e270159856ba5c07b5124f6fc164710972e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 19/32] fix: intersection of planes is accurate if the normals
 differ in length

---
 src/skspatial/objects/plane.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 26f572e..d2c1280 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -678,7 +678,11 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         if self.normal.is_parallel(other.normal, **kwargs):
             raise ValueError("The planes must not be parallel.")
 
-        array_normals_stacked = np.vstack((self.normal, other.normal))
+        # Unit normals keep the matrix well scaled if the normals differ in length.
+        normal_a = self.normal.unit()
+        normal_b = other.normal.unit()
+
+        array_normals_stacked = np.vstack((normal_a, normal_b))
 
         # Construct a matrix for a linear system.
         array_00 = 2 * np.eye(3)
@@ -687,8 +691,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array_11 = np.zeros((2, 2))
         matrix = np.block([[array_00, array_01], [array_10, array_11]])
 
-        dot_a = np.dot(self.point, self.normal)
-        dot_b = np.dot(other.point, other.normal)
+        dot_a = np.dot(self.point, normal_a)
+        dot_b = np.dot(other.point, normal_b)
         array_y = np.array([0, 0, 0, dot_a, dot_b])
 
         # Solve the linear system.
-- 
2.43.0


From 761196a428e5782a145d9cb055d48cd78d07fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 20/32] fix: intersection of a circle and line far from the
 origin or of large scale

---
 src/skspatial/objects/circle.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 2f5990d..50123e9 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -365,23 +365,16 @@ class Circle(_BaseSphere):
         ValueError: The line does not intersect the circle.
 
         """
-        # Two points on the line.
-        point_1 = line.point
-        point_2 = point_1 + line.direction.unit()
+        # Translate the point on the line to mimic the circle being centered on the origin.
+        x_1, y_1 = line.point - self.point
 
-        # Translate the points on the line to mimic the circle being centered on the origin.
-        point_translated_1 = point_1 - self.point
-        point_translated_2 = point_2 - self.point
-
-        x_1, y_1 = point_translated_1
-        x_2, y_2 = point_translated_2
-
-        d_x = x_2 - x_1
-        d_y = y_2 - y_1
+        # The second point on the line is one unit along the direction.
+        # It is not computed, because the direction would be rounded to the precision of the point.
+        d_x, d_y = line.direction.unit()
 
         # Pre-compute variables common to x and y equations.
         d_r_squared = d_x**2 + d_y**2
-        determinant = x_1 * y_2 - x_2 * y_1
+        determinant = x_1 * d_y - d_x * y_1
         discriminant = self.radius**2 * d_r_squared - determinant**2
 
         if discriminant < 0:
-- 
2.43.0


From ec6ee0cd3e145c1e142e06eb2f21c8b9d015064c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 21/32] fix: intersection of a sphere with tangent lines and
 with lines given by a distant point

---
 src/skspatial/objects/sphere.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index 5cac2cf..e6a5d7a 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -171,7 +171,10 @@ class Sphere(_BaseSphere, _ToPointsMixin):
 
         dot = vector_unit.dot(vector_to_line)
 
-        discriminant = dot**2 - (vector_to_line.norm() ** 2 - self.radius**2)
+        # The vector from the sphere center to its projection on the line.
+        # Subtracting vectors instead of squared lengths avoids cancellation if the point on the line is far away.
+        vector_perpendicular = vector_to_line - dot * vector_unit
+        discriminant = self.radius**2 - vector_perpendicular.dot(vector_perpendicular)
 
         if discriminant < 0:
             raise ValueError("The line does not intersect the sphere.")
-- 
2.43.0


From 011a1d405e4ee64afc9fef11485a7a59d58e0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 22/32] fix: reject lines parallel to the axis of an infinite
 cylinder

---
 src/skspatial/objects/cylinder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 4448d21..6a56597 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -721,6 +721,10 @@ def _intersect_line_with_infinite_cylinder(
     b = 2 * (v_l - v_l.dot(v_c) * v_c).dot(delta_p - delta_p.dot(v_c) * v_c)
     c = (delta_p - delta_p.dot(v_c) * v_c).norm() ** 2 - r**2
 
+    # If the line is parallel to the axis, only rounding error keeps the first coefficient from being zero.
+    if math.sqrt(a) < 1e-12:
+        raise ValueError("The line does not intersect the cylinder.")
+
     try:
         X = _solve_quadratic(a, b, c, n_digits=n_digits)
     except ValueError as error:
-- 
2.43.0


From 58389dbe7607c67692e76352e26167ec084e5cef Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 23/32] fix: best fit of small cylinders

---
 src/skspatial/objects/cylinder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 6a56597..14e6b4a 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -528,8 +528,11 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
 
         def _best_fit(points_centered: Points, centroid: Point) -> Tuple[Vector, Point, float, float]:
             """Return the cylinder of best fit for a set of 3D points."""
+            # The minimization has absolute tolerances, so it must not depend on the size of the cylinder.
+            points_normalized = points_centered.normalize_distance()
+
             best_fit = minimize(
-                lambda x: _compute_g(_spherical_to_cartesian(_SphericalCoordinates(x[0], x[1])), points_centered),
+                lambda x: _compute_g(_spherical_to_cartesian(_SphericalCoordinates(x[0], x[1])), points_normalized),
                 x0=_compute_initial_direction(points_centered),
                 method="Powell",
             )
-- 
2.43.0


From 6b7b5339446d6969378de531ab11f0ce23b17fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 24/32] fix: signed area of a polygon that is far from the
 origin

---
 src/skspatial/measurement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/measurement.py b/src/skspatial/measurement.py
index d746a0e..47911b2 100644
--- a/src/skspatial/measurement.py
+++ b/src/skspatial/measurement.py
@@ -153,8 +153,9 @@ def area_signed(points: array_like) -> float:
     if n_points < 3:
         raise ValueError("There must be at least 3 points.")
 
-    X = np.array(points[:, 0])
-    Y = np.array(points[:, 1])
+    # The area is computed relative to the first point
+    # so that precision is not lost if the polygon is far from the origin.
+    X, Y = np.array(points - points[0]).T
 
     indices = np.arange(n_points)
     indices_offset = indices - 1
-- 
2.43.0


From bd98f0220609df99c3897b10d212b9d2600d7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 25/32] fix: mesh of a vertical plane is centered on the point
 of the plane

---
 src/skspatial/objects/plane.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index d2c1280..309a05f 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -834,7 +834,15 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         """
         a, b, c, d = self.cartesian()
-        x_center, y_center = self.point[:2]
+        x, y, z = self.point.set_dimension(3)
+
+        # The limits apply to the x and y axes unless the plane is vertical.
+        if c != 0:
+            x_center, y_center = x, y
+        elif b != 0:
+            x_center, y_center = x, z
+        else:
+            x_center, y_center = y, z
 
         values_x = x_center + lims_x
         values_y = y_center + lims_y
-- 
2.43.0


From e9ebd9ae93757fef419ef30457d86f3be4b24cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 26/32] fix: transformed coordinates of Points are a regular
 array

---
 src/skspatial/transformation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index 4b53d7e..1fce239 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -1,6 +1,6 @@
 """Spatial transformations."""
 
-from typing import Sequence, cast
+from typing import Sequence
 
 import numpy as np
 
@@ -53,4 +53,5 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
     vectors_to_points = np.subtract(points, point_origin)
     array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))
 
-    return cast(np.ndarray, array_transformed)
+    # The matrix product of spatial objects is a spatial object.
+    return np.asarray(array_transformed)
-- 
2.43.0


From 4cb4bd86a7b23704b6afee79941ba32267172f2a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 27/32] fix: circle and sphere of best fit for very small or
 large points

---
 src/skspatial/objects/circle.py | 10 ++++++----
 src/skspatial/objects/sphere.py | 12 +++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 50123e9..5b6d418 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -451,17 +451,19 @@ class Circle(_BaseSphere):
             raise ValueError("The points must not be collinear.")
 
         n = points.shape[0]
-        # The points are centered so that their squared coordinates do not lose precision.
+        # The points are centered and scaled so that the least squares problem is well-conditioned.
         points_centered, centroid = points.mean_center(return_centroid=True)
+        scale = np.abs(points_centered).max()
+        points_scaled = points_centered / scale
 
-        A = np.hstack((2 * points_centered, np.ones((n, 1))))
-        b = (points_centered**2).sum(axis=1)
+        A = np.hstack((2 * points_scaled, np.ones((n, 1))))
+        b = (points_scaled**2).sum(axis=1)
         c = np.linalg.lstsq(A, b, rcond=None)[0]
 
         center = c[:2]
         radius = np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)
 
-        return cls(center + centroid, radius)
+        return cls(scale * center + centroid, scale * radius)
 
     def plot_2d(self, ax_2d, **kwargs) -> None:
         """
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index e6a5d7a..a613962 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -236,18 +236,20 @@ class Sphere(_BaseSphere, _ToPointsMixin):
             raise ValueError("The points must not be in a plane.")
 
         n = points.shape[0]
-        # The points are centered so that their squared coordinates do not lose precision.
+        # The points are centered and scaled so that the least squares problem is well-conditioned.
         points_centered, centroid = points.mean_center(return_centroid=True)
+        scale = np.abs(points_centered).max()
+        points_scaled = points_centered / scale
 
-        A = np.hstack((2 * points_centered, np.ones((n, 1))))
-        b = (points_centered**2).sum(axis=1)
+        A = np.hstack((2 * points_scaled, np.ones((n, 1))))
+        b = (points_scaled**2).sum(axis=1)
 
         c, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
 
         center = c[:3]
-        radius = float(np.sqrt(np.dot(center, center) + c[3]))
+        radius = float(scale * np.sqrt(np.dot(center, center) + c[3]))
 
-        return cls(center + centroid, radius)
+        return cls(scale * center + centroid, radius)
 
     def to_mesh(self, n_angles: int = 30) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From b438f97050ff48c302e84f626cfdf867d64027c3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 28/32] fix: refuse a vector between points of different
 dimensions

NumPy broadcast a 1D point, so that Line.from_points([1, 2, 3], [0]) and
others returned an object instead of raising a ValueError.
---
 src/skspatial/objects/vector.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 1588542..86256ed 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -82,6 +82,11 @@ class Vector(_BaseArray1D):
         Vector
             Vector from point A to point B.
 
+        Raises
+        ------
+        ValueError
+            If the points have different dimensions.
+
         Examples
         --------
         >>> from skspatial.objects import Vector
@@ -96,6 +101,9 @@ class Vector(_BaseArray1D):
         Vector([ 4,  6, -1])
 
         """
+        if np.shape(point_a) != np.shape(point_b):
+            raise ValueError("The points must have the same dimension.")
+
         array_vector_ab = cast(np.ndarray, np.subtract(point_b, point_a))
 
         return cls(array_vector_ab)
-- 
2.43.0


From 4d15ff531b1e71d80b305c9ae61fce4405db4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 29/32] fix: refuse a line segment with endpoints of different
 dimensions

NumPy broadcast a 1D endpoint: LineSegment([0], [1, 2, 3]) was accepted.
---
 src/skspatial/objects/line_segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 02cb1da..64db7ee 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -35,6 +35,7 @@ class LineSegment(_BaseSpatial):
     ------
     ValueError
         If the two endpoints are equal.
+        If the two endpoints have different dimensions.
 
     Examples
     --------
@@ -56,6 +57,9 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The endpoints must have the same dimension.")
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
-- 
2.43.0


From d5a7ee1260c856651b2d3563a12b375c2ff216b2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 30/32] fix: Plane.from_points called on a subclass returned a
 plain Plane

---
 src/skspatial/objects/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 309a05f..e5953ae 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -186,7 +186,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         vector_ab = Vector.from_points(point_a, point_b)
         vector_ac = Vector.from_points(point_a, point_c)
 
-        return Plane.from_vectors(point_a, vector_ab, vector_ac)
+        return cls.from_vectors(point_a, vector_ab, vector_ac)
 
     def cartesian(self) -> Tuple[np.int64, np.int64, np.int64, np.int64]:
         """
-- 
2.43.0


From 5e51b3cee4718ed69d47c21f677800acb87c322f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:49:44 +0000
Subject: [PATCH 31/32] fix: projecting onto the zero vector gave a vector of
 NaN; it raises ValueError, like scalar_projection

---
 src/skspatial/objects/vector.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 86256ed..ac2c4c7 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -688,6 +688,11 @@ class Vector(_BaseArray1D):
         Vector
             Vector projection.
 
+        Raises
+        ------
+        ValueError
+            If the vector is the zero vector.
+
         Examples
         --------
         >>> from skspatial.objects import Vector
@@ -705,6 +710,9 @@ class Vector(_BaseArray1D):
         Vector([0., 5.])
 
         """
+        if self.dot(self) == 0:
+            raise ValueError("The vector must not be the zero vector.")
+
         return self.dot(other) / self.dot(self) * self
 
     def different_direction(self, **kwargs: float) -> Vector:
-- 
2.43.0


From 61cd52c8ca760c85bcd5d1466cde5a2bfcb8f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:53:10 +0000
Subject: [PATCH 32/32] fix: raise ValueError when normalizing the distances of
 points that are all at the origin

---
 src/skspatial/objects/points.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index 9745a94..b97f3be 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -164,6 +164,11 @@ class Points(_BaseArray2D):
         Points
             Normalized points.
 
+        Raises
+        ------
+        ValueError
+            If all the points are at the origin.
+
         Examples
         --------
         >>> from skspatial.objects import Points
@@ -185,6 +190,9 @@ class Points(_BaseArray2D):
         """
         distances_to_points = np.linalg.norm(self, axis=1)
 
+        if not distances_to_points.any():
+            raise ValueError("The points must not all be at the origin.")
+
         return self / distances_to_points.max()
 
     def affine_rank(self, **kwargs) -> np.int64:
-- 
2.43.0

