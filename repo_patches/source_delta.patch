From e4ae5f09a4fc238cc645eb329ac5e03ace175661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/41] fix: joining the points of an Edge keeps its
 transformation diary

join_points() called set_verts(), which resets the diary, while the diary was
being replayed by parameterize(). A second parameterize() then dropped every
recorded transformation.
---
 puncturedfem/mesh/edge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 0484545..a3cad81 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -425,8 +425,10 @@ class Edge:
             # anchor at point a
             self.translate(a, write_diary=False)
 
-            # set vertices
-            self.set_verts(a, b)
+            # set vertices, without discarding the recorded transformations
+            self.anchor = a
+            self.endpnt = b
+            self.is_loop = self.anchor == self.endpnt
 
     def rotate(self, theta: float, write_diary: bool = True) -> None:
         """
-- 
2.43.0


From f34903a1f000f976f718d4932a5c5c198b4c6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 02/41] fix: dilating an Edge by a negative factor turns its
 tangent and normal

A dilation by alpha < 0 is a half turn followed by a dilation by |alpha|: the
tangent and normal change sign and the signed curvature does not.
---
 puncturedfem/mesh/edge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index a3cad81..71a0c70 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -557,7 +557,9 @@ class Edge:
         if self.is_parameterized:
             self.x *= alpha
             self.dx_norm *= np.abs(alpha)
-            self.curvature *= 1 / alpha
+            self.unit_tangent *= np.sign(alpha)
+            self.unit_normal *= np.sign(alpha)
+            self.curvature *= 1 / np.abs(alpha)
 
     def apply_orthogonal_transformation(
         self, A: np.ndarray, write_diary: bool = True
-- 
2.43.0


From e5a8c9b88be26cd78b4ed1b350dcfb9ae48f9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/41] fix: integrate over an Edge with ignore_endpoint=True
 uses every value

The endpoint has already been left out of the given values; one more was
dropped, which is wrong for any integrand (or quadrature) that does not vanish
there.
---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 71a0c70..307a259 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -789,7 +789,7 @@ class Edge:
             # left Riemann sum
             if len(vals_dx_norm) != self.num_pts - 1:
                 raise SizeMismatchError("vals must be same length as Edge")
-            res = np.sum(h * vals_dx_norm[:-1])
+            res = np.sum(h * vals_dx_norm)
         else:
             # trapezoidal rule
             if len(vals_dx_norm) != self.num_pts:
-- 
2.43.0


From b432772ba777c94afc951f1ac6ad4107a199daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/41] fix: dot with tangent and normal of an Edge including
 the endpoint

With ignore_endpoint=False the slice [:-0] is empty and the call raised a
broadcasting error.
---
 puncturedfem/mesh/edge.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 307a259..0d7a8a0 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -697,9 +697,9 @@ class Edge:
             k = 0
         if len(comp1) != self.num_pts - k or len(comp2) != self.num_pts - k:
             raise SizeMismatchError("vals must be same length as boundary")
+        m = self.num_pts - k
         return (
-            comp1 * self.unit_tangent[0, :-k]
-            + comp2 * self.unit_tangent[1, :-k]
+            comp1 * self.unit_tangent[0, :m] + comp2 * self.unit_tangent[1, :m]
         )
 
     def dot_with_normal(
@@ -731,9 +731,8 @@ class Edge:
             k = 0
         if len(comp1) != self.num_pts - k or len(comp2) != self.num_pts - k:
             raise SizeMismatchError("vals must be same length as boundary")
-        return (
-            comp1 * self.unit_normal[0, :-k] + comp2 * self.unit_normal[1, :-k]
-        )
+        m = self.num_pts - k
+        return comp1 * self.unit_normal[0, :m] + comp2 * self.unit_normal[1, :m]
 
     # INTEGRATION ############################################################
 
-- 
2.43.0


From 0a4be03ba996c4f2a9858c809e0b9eb81cca7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/41] fix: Edge.set_curve_type checks the given curve type,
 not the previous one

---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 0d7a8a0..5256cce 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -209,7 +209,7 @@ class Edge:
         if not isinstance(curve_type, str):
             raise ValueError("curve type must be a str")
         dirname = path.dirname(__file__)
-        filename = path.join(dirname, "edgelib/" + self.curve_type + ".py")
+        filename = path.join(dirname, "edgelib/" + curve_type + ".py")
         if not path.exists(filename):
             raise FileExistsError(filename + "does not exist")
         self.curve_type = curve_type
-- 
2.43.0


From 7dcc27a39d3d8f296edf77eec91e2cec9f470acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/41] fix: split_edge does not reorder the caller's list of
 parameters

---
 puncturedfem/mesh/split_edge.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/split_edge.py b/puncturedfem/mesh/split_edge.py
index d85422f..16407eb 100644
--- a/puncturedfem/mesh/split_edge.py
+++ b/puncturedfem/mesh/split_edge.py
@@ -75,9 +75,8 @@ def split_edge(
 
 
 def _split_edge_multiple(e: Edge, t_split: list[float]) -> list[Edge]:
-    t_split.sort()
     edges = []
-    for t in t_split:
+    for t in sorted(t_split):
         e1, e2 = _split_edge_single(e, t)
         edges.append(e1)
         e = e2
-- 
2.43.0


From 77448ac6278e16cd6d1560c57ad279c67a42cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 07/41] fix: splitting a reflected Edge keeps the reflection

The parts only recorded join_points(), so the parts of a reflected Edge lay on
the mirror image of the curve.
---
 puncturedfem/mesh/split_edge.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/puncturedfem/mesh/split_edge.py b/puncturedfem/mesh/split_edge.py
index 16407eb..76d23bd 100644
--- a/puncturedfem/mesh/split_edge.py
+++ b/puncturedfem/mesh/split_edge.py
@@ -120,4 +120,20 @@ def _split_edge_single(e: Edge, t_split: float = np.pi) -> tuple[Edge, Edge]:
         **e.curve_opts
     )
 
+    # joining the new vertices determines a translation, rotation, and dilation
+    # but cannot restore a reflection
+    if _diary_reverses_orientation(e):
+        for child in (e1, e2):
+            child.diary.insert(0, ("reflect_across_x_axis", ()))
+
     return e1, e2
+
+
+def _diary_reverses_orientation(e: Edge) -> bool:
+    is_reversed = False
+    for method_name, args in e.diary:
+        if method_name.startswith("reflect_across"):
+            is_reversed = not is_reversed
+        elif method_name == "apply_orthogonal_transformation":
+            is_reversed ^= bool(np.linalg.det(args[0]) < 0)
+    return is_reversed
-- 
2.43.0


From a91e123f0f52444cbe7f5e32fea2d467738764a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 08/41] fix: generate interior points on a grid with rows !=
 cols

The grid has shape (cols, rows); looping over (rows, cols) raised IndexError.
---
 puncturedfem/mesh/cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 4c340b3..499de55 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -510,8 +510,8 @@ class MeshCell:
         min_dist_to_bdy = max([self.atol, self.rtol * h])
 
         # ignore points too close to the boundary
-        for i in range(rows):
-            for j in range(cols):
+        for i in range(cols):
+            for j in range(rows):
                 if is_inside[i, j]:
                     d = self.get_distance_to_boundary(
                         self.int_x1[i, j], self.int_x2[i, j]
-- 
2.43.0


From c91ab5f5c3031972afda338fed700def733cf47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 09/41] fix: find the outer boundary of a cell whichever
 contour is listed last

A contour was only compared to the ones listed after it, so an outer boundary
listed after two or more holes was never recognized.
---
 puncturedfem/mesh/cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 499de55..dc94e88 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -349,7 +349,9 @@ class MeshCell:
         # find component that contains all other components
         outer_boundary_idx = 0
         for i in range(self.num_holes + 1):
-            for j in range(i + 1, self.num_holes + 1):
+            for j in range(self.num_holes + 1):
+                if i == j:
+                    continue
                 # check if contour j is contained in contour i
                 x1, x2 = self.components[j].get_sampled_points()
                 is_inside = self.components[i].is_in_interior_contour(x1, x2)
-- 
2.43.0


From 777d25f7a0b3b928a2b575a738f04e68a4cc2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/41] fix: closest vertex of a sampled point on an inner
 contour of a cell

The indices of inner contours were relative to the contour, so that they
referred to points on the outer boundary.
---
 puncturedfem/mesh/cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index dc94e88..b25f577 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -369,7 +369,9 @@ class MeshCell:
         for i in range(self.num_holes + 1):
             j = self.component_start_idx[i]
             jp1 = self.component_start_idx[i + 1]
-            self.closest_vert_idx[j:jp1] = self.components[i].closest_vert_idx
+            self.closest_vert_idx[j:jp1] = (
+                j + self.components[i].closest_vert_idx
+            )
 
     # INTERIOR POINTS ########################################################
     def get_bounding_box(self) -> tuple[float, float, float, float]:
-- 
2.43.0


From d32a21df2560137765be768c00d7d0ad962c55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 11/41] fix: negating a Monomial returns a new Monomial

-m returned None and changed the sign of m itself.
---
 puncturedfem/locfun/poly/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/monomial.py b/puncturedfem/locfun/poly/monomial.py
index 7aa20aa..cfcb022 100644
--- a/puncturedfem/locfun/poly/monomial.py
+++ b/puncturedfem/locfun/poly/monomial.py
@@ -348,6 +348,6 @@ class Monomial:
             + " by another Monomial"
         )
 
-    def __neg__(self) -> None:
+    def __neg__(self) -> Monomial:
         """Define negation operation: -self."""
-        self.coef *= -1
+        return Monomial(alpha=self.alpha.copy(), coef=-self.coef)
-- 
2.43.0


From b6b80baa0acc914eafefe3b2df217aee96750953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 12/41] fix: barycentric coordinates of a clockwise triangle

The altitude had the wrong sign unless z0, z1, z2 were listed
counterclockwise, and the coordinates did not satisfy ell_i(z_j) = delta_ij.
---
 puncturedfem/locfun/poly/barycentric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/puncturedfem/locfun/poly/barycentric.py b/puncturedfem/locfun/poly/barycentric.py
index 92d2a15..cf036cc 100644
--- a/puncturedfem/locfun/poly/barycentric.py
+++ b/puncturedfem/locfun/poly/barycentric.py
@@ -85,6 +85,12 @@ def barycentric_coordinates(
     s = sum(dist) / 2
     h = 2 * sqrt(s * (s - dist[0]) * (s - dist[1]) * (s - dist[2]))
 
+    # account for the orientation of the triangle
+    if (z[1, 0] - z[0, 0]) * (z[2, 1] - z[0, 1]) < (z[1, 1] - z[0, 1]) * (
+        z[2, 0] - z[0, 0]
+    ):
+        h *= -1
+
     # initialize Polynomial objects
     x = Polynomial([(1.0, 1, 0)])
     y = Polynomial([(1.0, 0, 1)])
-- 
2.43.0


From cfa55d2893888f73eb1cb7ea0eec967fb8541ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 13/41] fix: DirichletTrace accepts a list of one FloatLike per
 edge

Scalars in the list were rejected although documented, and the length of the
list was never compared to the number of edges.
---
 puncturedfem/locfun/trace.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index fbd1860..6c38da1 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -299,8 +299,13 @@ class DirichletTrace:
     ) -> list[FloatLike]:
         if isinstance(values, list):
             for item in values:
-                if not isinstance(item, np.ndarray):
-                    raise ValueError("item in list is not a numpy.ndarray")
+                if not isinstance(item, (int, float, np.ndarray)):
+                    raise ValueError("item in list is not FloatLike")
+            if len(values) != self.num_edges:
+                raise ValueError(
+                    "'values' must be a scalar or a list of values of length "
+                    "equal to the number of edges"
+                )
             return values
         if isinstance(values, (int, float)):
             return [values for _ in range(self.num_edges)]
@@ -312,17 +317,10 @@ class DirichletTrace:
             return [
                 values[start:end] for start, end in self.edge_sampled_indices
             ]
-        if not isinstance(values, list):
-            raise ValueError(
-                "'values' must be of type int, float, or np.ndarray or a list "
-                "of values"
-            )
-        if len(values) != self.num_edges:
-            raise ValueError(
-                "'values' must be a scalar or a list of values of length "
-                "equal to the number of edges"
-            )
-        raise ValueError("values must be FloatLike or list[FloatLike]")
+        raise ValueError(
+            "'values' must be of type int, float, or np.ndarray or a list "
+            "of values"
+        )
 
     def set_weighted_normal_derivative_on_edge(
         self, edge_index: int, wnd: FloatLike
-- 
2.43.0


From bc22c9700078e9945a8286c3235c84aa6f752a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 14/41] fix: DirichletTrace.set_funcs_from_polys

The method relied on Polynomial.eval, which does not exist.
---
 puncturedfem/locfun/trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 6c38da1..94c8746 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -506,12 +506,13 @@ class DirichletTrace:
             The polynomials used to define the trace.
         """
         if isinstance(polys, Polynomial):
-            self.set_funcs(polys.eval)  # type: ignore
+            self.set_funcs(polys)  # type: ignore
+            return
         if not isinstance(polys, list):
             raise ValueError("'polys' must be of type list[Polynomial]")
         if not all(isinstance(poly, Polynomial) for poly in polys):
             raise ValueError("All elements must be of type Polynomial")
-        self.set_funcs([poly.eval for poly in polys])  # type: ignore
+        self.set_funcs(polys)  # type: ignore
 
     def edges_are_parametrized(self) -> bool:
         """
-- 
2.43.0


From 69620e0d04167db6a3dfee0e20b643b3611ae89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 15/41] fix: Quad(qtype="martensen") selects the Martensen
 quadrature

The builtin type was compared with the string, so that a trapezoid rule was
built under the Martensen label.
---
 puncturedfem/mesh/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/quad.py b/puncturedfem/mesh/quad.py
index fea471f..8c75139 100644
--- a/puncturedfem/mesh/quad.py
+++ b/puncturedfem/mesh/quad.py
@@ -116,7 +116,7 @@ class Quad:
         if self.type == "kress":
             self.kress(p)
             return
-        if self.type == "mart" or type == "martensen":
+        if self.type in ("mart", "martensen"):
             self.martensen()
             return
         self.trap()
-- 
2.43.0


From f2eb248cd87cf55492d56e02dad75b3d4c92d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 16/41] fix: adding a Polynomial to itself in place

p += p appended to the list it was iterating over and never returned.
---
 puncturedfem/locfun/poly/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 54a9e20..73a4cf5 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -548,8 +548,8 @@ class Polynomial:
             Object to add to self. Must be either a Polynomial or a scalar.
         """
         if isinstance(other, Polynomial):
-            for m in other.monos:
-                self.add_monomial(m)
+            for m in list(other.monos):
+                self.add_monomial(m.copy())
             self.consolidate()
         elif isinstance(other, (int, float)):
             constant = Monomial()
-- 
2.43.0


From 83452b777980cd655dbd1f324e04655b4d5fc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 17/41] fix: Solver.get_solution() solves the system when
 needed

soln was never initialized, so that calling get_solution() before solve()
raised AttributeError instead of solving.
---
 puncturedfem/solver/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index b4c6f8e..98a6d20 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -149,7 +149,7 @@ class Solver:
         np.ndarray
             Solution vector
         """
-        if self.soln is None:
+        if getattr(self, "soln", None) is None:
             self.solve()
         return self.soln
 
-- 
2.43.0


From ae21cdbdabf6fc3796d5216dc30aa734aad2a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 18/41] fix: the dimension of an EdgeSpace does not depend on
 the size of the edge

The rescaling by the square root of the arc length was a no-op (it rebound the
loop variable), so the tolerance used to select a basis was absolute and edge
functions of short edges were discarded. Normalize the Gram matrix instead.
---
 puncturedfem/locfun/edge_space.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index 3f87b20..0343f05 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -199,10 +199,6 @@ class EdgeSpace:
         # transform coordinates to bounding box
         self._transform_coordinates_to_bounding_box()
 
-        # rescale edge functions
-        for fun in self.edge_fun_traces:
-            fun /= np.sqrt(edge_arc_length)
-
         # different cases for closed loops and edges with distinct endpoints
         if not self.e.is_loop:
             # compute barycentric coordinates
@@ -259,7 +255,9 @@ class EdgeSpace:
             self.edge_fun_traces[j] = f.compose(qx, qy)
 
     def _reduce_to_basis(self) -> None:
-        M = self._get_gram_matrix()
+        # normalize by arc length so that the tolerances do not depend on the
+        # size of the edge
+        M = self._get_gram_matrix() / self.arc_length
 
         # replace M with a low-rank approximation
         M = self._get_low_rank_approx(M, tol=1e-6)
-- 
2.43.0


From 2065bff287c152f06ba90039e9c4c1c2fb4af1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 19/41] fix: do not shift the linear functions of an EdgeSpace
 twice

The physical centroid was subtracted from reference coordinates that the
bounding box transformation centers anyway, so that loops away from the origin
lost edge functions.
---
 puncturedfem/locfun/edge_space.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index 0343f05..d83d504 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -182,20 +182,6 @@ class EdgeSpace:
         edge_arc_length = self.e.integrate_over_edge(ones)
         self.arc_length = edge_arc_length
 
-        # find centroid of edge
-        x1, x2 = self.e.get_sampled_points(ignore_endpoint=False)
-        x1_avg = self.e.integrate_over_edge(x1) / edge_arc_length
-        x2_avg = self.e.integrate_over_edge(x2) / edge_arc_length
-
-        y1 = Polynomial([(1.0, 1, 0), (-x1_avg, 0, 0)])
-        y2 = Polynomial([(1.0, 0, 1), (-x2_avg, 0, 0)])
-
-        # center and rescale linear functions
-        for j in range(3):
-            self.edge_fun_traces[linear_fun_idx[j]] = self.edge_fun_traces[
-                linear_fun_idx[j]
-            ].compose(y1, y2)
-
         # transform coordinates to bounding box
         self._transform_coordinates_to_bounding_box()
 
-- 
2.43.0


From a21be158248c2523c46eff5dbfcafb02b1b8f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 20/41] fix: form the EdgeSpace Gram matrix from values

Expanding products of polynomials about the origin loses the precision needed
to select a basis when the edge is small compared to its distance to the
origin: functions were lost or dependent ones were kept.
---
 puncturedfem/locfun/edge_space.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index d83d504..291ee27 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -261,13 +261,12 @@ class EdgeSpace:
         m = len(self.edge_fun_traces)
         M = np.zeros((m, m))
         x1, x2 = self.e.get_sampled_points(ignore_endpoint=False)
+        # multiply values rather than polynomials: expanding the product about
+        # the origin is unstable unless the edge is close to it
+        vals = [np.asarray(f(x=x1, y=x2)) for f in self.edge_fun_traces]
         for i in range(m):
             for j in range(i, m):
-                integrand = self.edge_fun_traces[i] * self.edge_fun_traces[j]
-                vals = integrand(x=x1, y=x2)
-                if not isinstance(vals, np.ndarray):
-                    raise ValueError("vals must be a numpy array")
-                M[i, j] = self.e.integrate_over_edge(vals)
+                M[i, j] = self.e.integrate_over_edge(vals[i] * vals[j])
                 M[j, i] = M[i, j]
         return M
 
-- 
2.43.0


From 57171c24375fd304324b5f3f17450af4c07a5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 21/41] fix: save a figure to a bare filename (current
 directory)

---
 puncturedfem/plot/plot_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/plot_util.py b/puncturedfem/plot/plot_util.py
index 980cb6d..18c2167 100644
--- a/puncturedfem/plot/plot_util.py
+++ b/puncturedfem/plot/plot_util.py
@@ -34,8 +34,9 @@ def save_figure(
     bbox_inches : str, optional
         The bounding box in inches. The default is "tight".
     """
-    if not os.path.exists(os.path.dirname(filename)):
-        os.makedirs(os.path.dirname(filename))
+    dirname = os.path.dirname(filename)
+    if dirname and not os.path.exists(dirname):
+        os.makedirs(dirname)
     plt.savefig(filename, dpi=dpi, bbox_inches=bbox_inches)
 
 
-- 
2.43.0


From e26c5b2b46015bae33791485b17d4cbec49d1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 22/41] fix: a point is on the boundary only if both
 coordinates match the same sample

---
 puncturedfem/mesh/cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index b25f577..9d86c09 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -887,7 +887,7 @@ def _point_is_on_boundary_simple(
     path_y: np.ndarray,
 ) -> bool:
     # return true if the point is on the boundary
-    return point_x in path_x and point_y in path_y
+    return bool(np.any((path_x == point_x) & (path_y == point_y)))
 
 
 def _edge_is_on_boundary(
-- 
2.43.0


From f50e80b38b2b750ec85411706b0b5e130a7a093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/41] fix: LocalFunctionPlot without boundary values
 (use_interp=False)

---
 puncturedfem/plot/locfun_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 86f8137..ae99047 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -246,7 +246,11 @@ class LocalFunctionPlot:
         if self.use_interp and boundary_values is not None:
             vals = np.concatenate((interior_values, boundary_values))
         else:
-            vals = interior_values
+            # the triangulation includes the boundary points: they have no
+            # value, and the triangles they belong to are masked
+            vals = np.concatenate(
+                (interior_values, np.full(self.v.mesh_cell.num_pts, np.nan))
+            )
 
         # apply log10
         if use_log10:
-- 
2.43.0


From dd5923f3daa9f4b2449db1c12164e59788043b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 24/41] fix: TracePlot lists a DirichletTrace once

---
 puncturedfem/plot/trace_plot.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index fe467e5..b677395 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -167,7 +167,6 @@ class TracePlot:
         self.traces = []
         for f in traces:
             if isinstance(f, DirichletTrace):
-                self.traces.append(f.values)
                 f = f.values
             if not isinstance(f, np.ndarray):
                 raise TypeError(
-- 
2.43.0


From 26c4c91ea663d5c4ab4f9469fda91c8f2240d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 25/41] fix: TracePlot tick positions match their labels

---
 puncturedfem/plot/trace_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index b677395..b437ccc 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -343,7 +343,7 @@ class TracePlot:
         self.x_ticks = np.zeros(num_ticks)
         self.x_ticks[:-1] = np.linspace(
             0,
-            2 * np.pi * rotations_per_tick * (num_ticks - 1),
+            2 * np.pi * rotations_per_tick * (num_ticks - 2),
             num_ticks - 1,
         )
         self.x_ticks[-1] = interval_length
-- 
2.43.0


From 2f0254ec94ebf5e6863670a5803df47cd4ab28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 26/41] fix: loops of a cell may have the same anchor
 (concentric circles)

---
 puncturedfem/mesh/cell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 9d86c09..503f730 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -196,6 +196,9 @@ class MeshCell:
                 else:
                     raise EmbeddingError("Edge orientation must be +1 or -1")
                 distance[i, j] = np.sqrt((a.x - b.x) ** 2 + (a.y - b.y) ** 2)
+                # a loop is a contour of its own: its anchor need not lie on it
+                if i != j and (edges[i].is_loop or edges[j].is_loop):
+                    distance[i, j] = np.inf
 
         # mark edges as incident if distance between endpoints is zero
         TOL = 1e-6
-- 
2.43.0


From bd2b830eb676e3124fffa9e68ca005eb1050f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 27/41] fix: a DirichletTrace keeps its own list of functions

---
 puncturedfem/locfun/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 94c8746..a91acdf 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -462,7 +462,7 @@ class DirichletTrace:
                 raise ValueError(
                     "The number of functions must match the number of edges"
                 )
-            self.funcs = funcs
+            self.funcs = list(funcs)
             if compute_vals and self.edges_are_parametrized():
                 self.find_values()
             return
-- 
2.43.0


From c0212f244d28ec0829c978f71b8a1fa3981149a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 28/41] fix: vertex keys of an EdgeSpace on a reversed edge
 follow the sampled points

---
 puncturedfem/locfun/edge_space.py | 7 ++++++-
 puncturedfem/mesh/edge.py         | 9 +++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index 291ee27..e4ffeca 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -123,7 +123,12 @@ class EdgeSpace:
         self.vert_fun_global_keys = []
         if self.e.is_loop:
             return
-        for k in [self.e.anchor.idx, self.e.endpnt.idx]:
+        # the traces are ordered by the sampled points, which run from the
+        # endpoint to the anchor if the orientation has been reversed
+        vert_idx = [self.e.anchor.idx, self.e.endpnt.idx]
+        if self.e.is_reversed:
+            vert_idx.reverse()
+        for k in vert_idx:
             self.vert_fun_global_keys.append(GlobalKey("vert", vert_idx=k))
 
     def generate_edge_fun_global_keys(self) -> None:
diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 5256cce..818d288 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -66,6 +66,8 @@ class Edge:
         True if the Edge is a loop.
     is_parameterized : bool
         True if the Edge is parameterized.
+    is_reversed : bool
+        True if the sampled points run from the endpoint to the anchor.
     num_pts : int
         The number of points sampled on the Edge.
     x : np.ndarray
@@ -92,6 +94,7 @@ class Edge:
     is_on_mesh_boundary: bool
     is_loop: bool
     is_parameterized: bool
+    is_reversed: bool
     num_pts: int
     x: np.ndarray
     unit_tangent: np.ndarray
@@ -144,6 +147,7 @@ class Edge:
         self.set_verts(anchor, endpnt)
         self.set_cells(pos_cell_idx, neg_cell_idx)
         self.is_parameterized = False
+        self.is_reversed = False
         self.num_pts = -1
 
     def __str__(self) -> str:
@@ -320,6 +324,7 @@ class Edge:
 
         # toggle parameterization flag
         self.is_parameterized = True
+        self.is_reversed = False
 
         # apply transformations
         self.run_transform_diary()
@@ -336,6 +341,7 @@ class Edge:
         self.dx_norm = np.zeros((0,))
         self.curvature = np.zeros((0,))
         self.is_parameterized = False
+        self.is_reversed = False
 
     def get_sampled_points(
         self, ignore_endpoint: bool = True
@@ -512,6 +518,9 @@ class Edge:
             self.dx_norm = np.flip(self.dx_norm)
             self.curvature = -np.flip(self.curvature)
 
+            # the first sampled point now corresponds to the endpoint
+            self.is_reversed = not self.is_reversed
+
     def translate(self, a: Vert, write_diary: bool = True) -> None:
         """
         Translate by a vector a.
-- 
2.43.0


From abe6c1d21816bfb7768dc8eae712e35fd78b8a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 29/41] fix: the box of an EdgeSpace on an edge nearly parallel
 to an axis is not blown up

---
 puncturedfem/locfun/edge_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index e4ffeca..2766807 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -233,6 +233,10 @@ class EdgeSpace:
         sx = (xmax - xmin) / 2
         sy = (ymax - ymin) / 2
 
+        # an edge nearly parallel to an axis has a thin bounding box: blowing it
+        # up to a square would amplify roundoff, so bound the aspect ratio
+        sx, sy = max(sx, 0.01 * sy), max(sy, 0.01 * sx)
+
         # translation factors
         tx = (xmax + xmin) / 2
         ty = (ymax + ymin) / 2
-- 
2.43.0


From 1b0827609dc05d700e5765d254ef19783043607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 30/41] fix: building a local function space twice does not
 list its functions twice

---
 puncturedfem/solver/globfunsp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/solver/globfunsp.py b/puncturedfem/solver/globfunsp.py
index 735d007..11cbd0c 100644
--- a/puncturedfem/solver/globfunsp.py
+++ b/puncturedfem/solver/globfunsp.py
@@ -194,6 +194,7 @@ class GlobalFunctionSpace:
             compute_interior_values=compute_interior_values,
             compute_interior_gradient=compute_interior_gradient,
         )
+        self.cell_dofs[abs_cell_idx] = []
         for v in local_fun_sp.get_basis():
             glob_idx = self.get_global_idx(v.key, abs_cell_idx)
             v.key.set_glob_idx(glob_idx)
-- 
2.43.0


From a7861b42eedec64838080e4cb6c417cb2a9da84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 31/41] fix: each MeshCell of a PlanarMesh has its own copies
 of the edges

---
 puncturedfem/mesh/planar_mesh.py  |  9 ++++++++-
 puncturedfem/plot/globfun_plot.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/mesh/planar_mesh.py b/puncturedfem/mesh/planar_mesh.py
index 35e0e63..dedd1a3 100644
--- a/puncturedfem/mesh/planar_mesh.py
+++ b/puncturedfem/mesh/planar_mesh.py
@@ -7,6 +7,8 @@ PlanarMesh
     Planar mesh geometry and topology.
 """
 
+from copy import copy
+
 from .cell import MeshCell
 from .edge import Edge
 
@@ -181,13 +183,18 @@ class PlanarMesh:
         -------
         MeshCell
             MeshCell with index cell_idx.
+
+        Notes
+        -----
+        The MeshCell has its own copies of the edges: the two cells sharing an
+        Edge sample it in opposite directions.
         """
         if cell_idx not in self.cell_idx_list:
             raise IndexError("cell_idx is not in cell_idx_list")
         edges = []
         for e in self.edges:
             if cell_idx in (e.pos_cell_idx, e.neg_cell_idx):
-                edges.append(e)
+                edges.append(copy(e))
         return MeshCell(idx=cell_idx, edges=edges)
 
     def get_abs_cell_idx(self, cell_idx: int) -> int:
diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 7c90331..925ae16 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -178,10 +178,15 @@ class GlobalFunctionPlot:
         if not (show_plot or save_fig):
             return
 
+        # sampled edges of the mesh
+        edges = {
+            e.idx: e
+            for local_fun in self.global_function
+            for e in local_fun.mesh_cell.get_edges()
+        }
+
         # determine axes and figure size
-        min_x, max_x, min_y, max_y = get_axis_limits(
-            self.solver.glob_fun_sp.mesh.edges
-        )
+        min_x, max_x, min_y, max_y = get_axis_limits(list(edges.values()))
         w, h = get_figure_size(min_x, max_x, min_y, max_y)
 
         # get figure object
@@ -222,7 +227,7 @@ class GlobalFunctionPlot:
             )
 
         # plot mesh edges
-        for e in self.solver.glob_fun_sp.mesh.edges:
+        for e in edges.values():
             plt.plot(e.x[0, :], e.x[1, :], "k")
 
         if fill and show_colorbar:
-- 
2.43.0


From ff2c7ed60b15b6a4c258e577da904234f9a42724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 32/41] fix: linear combinations on a mesh cell include small
 coefficients

---
 puncturedfem/solver/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index 98a6d20..e751be9 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -391,7 +391,7 @@ class Solver:
         local_coef = self.get_coef_on_mesh_cell(cell_idx, global_coef)
         w = LocalPoissonFunction(nyst=loc_fun_sp.nyst, evaluate_gradient=True)
         for i, v in enumerate(loc_fun_sp.get_basis()):
-            if abs(local_coef[i]) < 1e-4:  # only needs to look good
+            if local_coef[i] == 0.0:
                 continue
             w += v * local_coef[i]
         return w
-- 
2.43.0


From fd31cd6d234a476af472d01b66998ac68e13871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 33/41] fix: pegboard has size[0] cells in the x direction and
 size[1] in the y direction, as documented

---
 puncturedfem/mesh/meshlib/pegboard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/puncturedfem/mesh/meshlib/pegboard.py b/puncturedfem/mesh/meshlib/pegboard.py
index 87516b0..e86c815 100644
--- a/puncturedfem/mesh/meshlib/pegboard.py
+++ b/puncturedfem/mesh/meshlib/pegboard.py
@@ -42,8 +42,8 @@ def pegboard(
 def _get_verts(size: tuple[int, int], radius: float) -> list[Vert]:
     verts: list[Vert] = []
 
-    m = size[0] + 1
-    n = size[1] + 1
+    m = size[1] + 1
+    n = size[0] + 1
 
     # rescale so that the longest edge is 1
     h = 1 / max(m - 1, n - 1)
@@ -71,8 +71,8 @@ def _get_edges(
 ) -> list[Edge]:
     edges: list[Edge] = []
 
-    m = size[0] + 1
-    n = size[1] + 1
+    m = size[1] + 1
+    n = size[0] + 1
 
     h = 1 / max(m - 1, n - 1)
 
-- 
2.43.0


From eea106efcd9483a7b3a4d6da8098a4b9093a0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 34/41] fix: barycentric coordinates of three points on a line
 raise DegenerateTriangleError

---
 puncturedfem/locfun/poly/barycentric.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/puncturedfem/locfun/poly/barycentric.py b/puncturedfem/locfun/poly/barycentric.py
index cf036cc..eda19c8 100644
--- a/puncturedfem/locfun/poly/barycentric.py
+++ b/puncturedfem/locfun/poly/barycentric.py
@@ -81,15 +81,11 @@ def barycentric_coordinates(
         if dist[j] < 1e-12:
             raise DegenerateTriangleError("Degenerate triangle detected")
 
-    # compute re-normalized altitudes
-    s = sum(dist) / 2
-    h = 2 * sqrt(s * (s - dist[0]) * (s - dist[1]) * (s - dist[2]))
-
-    # account for the orientation of the triangle
-    if (z[1, 0] - z[0, 0]) * (z[2, 1] - z[0, 1]) < (z[1, 1] - z[0, 1]) * (
-        z[2, 0] - z[0, 0]
-    ):
-        h *= -1
+    # twice the signed area (negative if the vertices run clockwise)
+    h = (z[1, 0] - z[0, 0]) * (z[2, 1] - z[0, 1])
+    h -= (z[1, 1] - z[0, 1]) * (z[2, 0] - z[0, 0])
+    if abs(h) < 1e-12 * max(dist) ** 2:
+        raise DegenerateTriangleError("Degenerate triangle detected")
 
     # initialize Polynomial objects
     x = Polynomial([(1.0, 1, 0)])
-- 
2.43.0


From 12dba88a3e63a283cf2133843f8be9e3b5f1e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 35/41] fix: global plots show the axis when show_axis is set

---
 puncturedfem/plot/globfun_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 925ae16..91735b9 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -221,7 +221,7 @@ class GlobalFunctionPlot:
                 fig_handle=fig,
                 show_colorbar=False,
                 show_triangulation=False,
-                show_axis=False,
+                show_axis=show_axis,
                 show_boundary=False,
                 clim=(global_min, global_max),
             )
-- 
2.43.0


From 2f20e6cb9d01a50dc4b481f7c52e3214363a718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:49 +0000
Subject: [PATCH 36/41] fix: polynomials keep small coefficients

Monomials below 1e-12 were dropped, so the gradients of the bubble
functions of a large cell lost their terms and the stiffness matrix came
out indefinite or singular. Only terms that cancel up to roundoff, judged
relative to the terms being summed, are removed now.
---
 puncturedfem/locfun/poly/poly.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 73a4cf5..8a21237 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -95,7 +95,7 @@ class Polynomial:
         m : Monomial
             Monomial to add to the Polynomial.
         """
-        if not m.is_zero():
+        if m.coef != 0.0:
             self.monos.append(m)
 
     def add_monomials(self, monos: Optional[list[Monomial]] = None) -> None:
@@ -116,17 +116,29 @@ class Polynomial:
     def remove_zeros(self) -> None:
         """Remove terms with zero coefficients."""
         for i in range(len(self.monos), 0, -1):
-            if self.monos[i - 1].is_zero():
+            if self.monos[i - 1].coef == 0.0:
                 del self.monos[i - 1]
 
     def consolidate(self) -> None:
-        """Consolidate the coefficients of repeated indices."""
+        """
+        Consolidate the coefficients of repeated indices.
+
+        Notes
+        -----
+        Terms that cancel up to roundoff are removed. The cancellation is judged
+        relative to the terms being summed, since small coefficients are
+        meaningful (e.g. on a large domain).
+        """
         N = len(self.monos)
         for i in range(N):
+            scale = abs(self.monos[i].coef)
             for j in range(i + 1, N):
                 if self.monos[i].alpha == self.monos[j].alpha:
+                    scale = max(scale, abs(self.monos[j].coef))
                     self.monos[i] += self.monos[j]
                     self.monos[j] *= 0
+            if self.monos[i].is_zero(tol=1e-12 * scale):
+                self.monos[i] *= 0
         self.remove_zeros()
         self.sort()
 
@@ -482,12 +494,14 @@ class Polynomial:
         """
         if not isinstance(other, Polynomial):
             raise TypeError("Cannot compare Polynomial to non-Polynomial")
-        if len(self.monos) != len(other.monos):
-            return False
         self.sort()
         other.sort()
-        for i, m in enumerate(self.monos):
-            if m != other.monos[i]:
+        self_monos = [m for m in self.monos if not m.is_zero()]
+        other_monos = [m for m in other.monos if not m.is_zero()]
+        if len(self_monos) != len(other_monos):
+            return False
+        for i, m in enumerate(self_monos):
+            if m != other_monos[i]:
                 return False
         return True
 
-- 
2.43.0


From 251732fb3470b27da1e3322a85ed04ba58c6ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:57 +0000
Subject: [PATCH 37/41] fix: interior values use the number of points of each
 contour

LocalPoissonFunction.compute_interior_values used one step for all boundary
points, which is wrong when the quadratures for loops and for other edges
have different numbers of points.
---
 puncturedfem/locfun/local_poisson.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/local_poisson.py b/puncturedfem/locfun/local_poisson.py
index 9470389..aecfcba 100644
--- a/puncturedfem/locfun/local_poisson.py
+++ b/puncturedfem/locfun/local_poisson.py
@@ -409,8 +409,11 @@ class LocalPoissonFunction:
 
         # Jacobian and trapezoid weights
         dx_norm = self.mesh_cell.get_dx_norm()
-        h = 2 * np.pi * self.mesh_cell.num_edges / self.mesh_cell.num_pts
-        dx_norm *= h
+        for i, c in enumerate(self.mesh_cell.components):
+            # the number of sampled points per edge may differ between contours
+            start = self.mesh_cell.component_start_idx[i]
+            end = self.mesh_cell.component_start_idx[i + 1]
+            dx_norm[start:end] *= 2 * np.pi * c.num_edges / c.num_pts
 
         # interior values and gradient of conjugable part via Cauchy's
         # integral formula
-- 
2.43.0


From a8e317de09a884f49924973d4648489f98d17ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:14 +0000
Subject: [PATCH 38/41] fix: piecewise polynomials take values on all their
 edges

---
 puncturedfem/locfun/poly/piecewise_poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/locfun/poly/piecewise_poly.py b/puncturedfem/locfun/poly/piecewise_poly.py
index 34ac2ce..7a03319 100644
--- a/puncturedfem/locfun/poly/piecewise_poly.py
+++ b/puncturedfem/locfun/poly/piecewise_poly.py
@@ -132,6 +132,7 @@ class PiecewisePolynomial:
         for i in range(m):
             e = edges[i]
             vals[idx : idx + e.num_pts] = vals_arr[i]
+            idx += e.num_pts
         return vals
 
     def eval_on_mesh_boundary(self, K: MeshCell) -> ndarray:
-- 
2.43.0


From 327e330031bb50e8328d0753ce35d398ced0e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:14 +0000
Subject: [PATCH 39/41] fix: translating points leaves the given array as it
 was

---
 puncturedfem/mesh/transform.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/puncturedfem/mesh/transform.py b/puncturedfem/mesh/transform.py
index 9f61997..31e3449 100644
--- a/puncturedfem/mesh/transform.py
+++ b/puncturedfem/mesh/transform.py
@@ -153,9 +153,7 @@ def translate(x: np.ndarray, a: Vert) -> np.ndarray:
     np.ndarray
         Array of shape (2, n) representing the transformed points.
     """
-    x[0, :] += a.x
-    x[1, :] += a.y
-    return x
+    return x + np.array([[a.x], [a.y]])
 
 
 def dilate(x: np.ndarray, alpha: float) -> np.ndarray:
-- 
2.43.0


From e938ddd9796b2b851b0f73b119423e915305a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:14 +0000
Subject: [PATCH 40/41] fix: interior values of LocalFunction are taken at the
 interior points of the cell

---
 puncturedfem/locfun/locfun.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/puncturedfem/locfun/locfun.py b/puncturedfem/locfun/locfun.py
index 22247cd..de3dc15 100644
--- a/puncturedfem/locfun/locfun.py
+++ b/puncturedfem/locfun/locfun.py
@@ -320,8 +320,8 @@ class LocalFunction:
             Whether or not to compute the gradient, by default True.
         """
         # points for evaluation
-        y1 = self.nyst.K.int_x1[self.nyst.K.is_inside]
-        y2 = self.nyst.K.int_x2[self.nyst.K.is_inside]
+        y1 = self.nyst.K.int_x1
+        y2 = self.nyst.K.int_x2
 
         # initialize temporary arrays
         N = len(y1)
@@ -379,8 +379,11 @@ class LocalFunction:
 
         # Jacobian and trapezoid weights
         dx_norm = self.nyst.K.get_dx_norm()
-        h = 2 * np.pi * self.nyst.K.num_edges / self.nyst.K.num_pts
-        dx_norm *= h
+        for i, c in enumerate(self.nyst.K.components):
+            # the number of sampled points per edge may differ between contours
+            start = self.nyst.K.component_start_idx[i]
+            end = self.nyst.K.component_start_idx[i + 1]
+            dx_norm[start:end] *= 2 * np.pi * c.num_edges / c.num_pts
 
         # interior values and gradient of conjugable part via Cauchy's
         # integral formula
@@ -389,20 +392,7 @@ class LocalFunction:
             grad1 += np.sum(dx_norm * g1, axis=1) * 0.5 / np.pi
             grad2 += np.sum(dx_norm * g2, axis=1) * 0.5 / np.pi
 
-        # size of grid of evaluation points
-        rows, cols = self.nyst.K.int_mesh_size
-
-        # initialize arrays with proper size
-        self.int_vals = np.empty((rows, cols))
-        self.int_grad1 = np.empty((rows, cols))
-        self.int_grad2 = np.empty((rows, cols))
-
-        # default to not-a-number
-        self.int_vals[:] = np.nan
-        self.int_grad1[:] = np.nan
-        self.int_grad2[:] = np.nan
-
-        # set values within cell interior
-        self.int_vals[self.nyst.K.is_inside] = vals
-        self.int_grad1[self.nyst.K.is_inside] = grad1
-        self.int_grad2[self.nyst.K.is_inside] = grad2
+        # set values at the interior points of the cell
+        self.int_vals = vals
+        self.int_grad1 = grad1
+        self.int_grad2 = grad2
-- 
2.43.0


From 35d74b416479ed64eae305ccd990cac40e155da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:57 +0000
Subject: [PATCH 41/41] fix: evaluate a Polynomial where only y is an array

---
 puncturedfem/locfun/poly/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 8a21237..1fb8a85 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -478,7 +478,7 @@ class Polynomial:
             Value(s) of the Polynomial at the point(s) (x, y). If x and y are
             arrays, returns an array of values of the same shape.
         """
-        val = np.zeros(np.shape(x))
+        val = np.zeros(np.broadcast_shapes(np.shape(x), np.shape(y)))
         for m in self.monos:
             val += m.eval(x, y)
         return val
-- 
2.43.0

