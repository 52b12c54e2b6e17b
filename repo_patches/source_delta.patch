From 517d050d30c6002b879e4c4121b055d743cf3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 001/107] fix: converting a real vector to its own basis
 reinterpreted its memory as complex

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From 64ad74292143c032a667de0e156a5de9185cbb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 002/107] fix: basis_as_n_point_basis raised NameError at
 runtime

---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From 974d0de6bf7fffb492e56b46ab9ab9031d19a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 003/107] fix: converting an overlap to the momentum basis
 always raised

---
 surface_potential_analysis/overlap/conversion.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..86cd660 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,8 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
-
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
     BasisWithLengthLike,
@@ -81,14 +79,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From 5b5217d3e6c00eb2cfe25b4fa818f9040d3a61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 004/107] fix: interpolate_state_vector_momentum used the wrong
 size and scale for the chosen axes

---
 surface_potential_analysis/state_vector/conversion.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..fcc2a03 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -211,16 +211,15 @@ def interpolate_state_vector_momentum(
     converted_basis = stacked_basis_as_fundamental_momentum_basis(state_vector["basis"])
     converted = convert_state_vector_to_basis(state_vector, converted_basis)
 
+    sizes = dict(zip(axes, shape, strict=True))
     final_basis = TupleBasis[*tuple[BasisWithLengthLike[Any, Any, Any], ...]](
         *tuple(
-            TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
-            if (
-                idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
-            )
+            TransformedPositionBasis(ax.delta_x, ax.n, sizes[iax])
+            if iax in sizes
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    old_size = np.prod([converted_basis[ax].n for ax in axes])
+    scaled = converted["data"] * np.sqrt(np.prod(shape) / old_size)
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From 74a7def3abace5982f80c7695bc820db79241683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 005/107] fix: interpolating over the last axes paired the
 lengths with the axes in reverse

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..97f6916 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From 52bc459b5946b685eb0769e687482827ef3d0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 006/107] fix: spline interpolation returned uninitialised
 memory unless the axis came last

---
 surface_potential_analysis/util/interpolation.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 97f6916..71fed24 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -239,18 +239,14 @@ def interpolate_points_along_axis_spline(
     """Use a spline interpolation to increase the Z resolution, spacing z linearly."""
     new_coords = list(np.linspace(old_coords[0], old_coords[-1], n))  # type: ignore bad type inference
 
-    new_shape = list(data.shape)
-    new_shape[axis] = n
-    points = np.empty(new_shape)
-
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
-
-    flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
+    swapped_data = data.swapaxes(axis, -1)
+    flat_data = swapped_data.reshape(-1, data.shape[axis])
+    flat_points = np.empty((flat_data.shape[0], n))
 
     for i in range(flat_data.shape[0]):
         old_energies = flat_data[i]
         tck = scipy.interpolate.splrep(old_coords, old_energies, s=0)  # type: ignore bad type inference
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
-        swapped_points[i] = new_energy  # type: ignore bad type inference
+        flat_points[i] = new_energy  # type: ignore bad type inference
 
-    return points  # type: ignore[no-any-return]
+    return flat_points.reshape(*swapped_data.shape[:-1], n).swapaxes(axis, -1)  # type: ignore[no-any-return]
-- 
2.43.0


From ad8d14935a3793cd16795141cfb4675cb467bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 007/107] fix: get_twice_average_nx raised for grids mixing odd
 and even axes

---
 surface_potential_analysis/basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index f8c16df..4bb599b 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -517,7 +517,7 @@ def get_twice_average_nx(
     is_nan = np.isnan(average_angles)
     if np.any(is_nan):
         for i, angle in enumerate(angles):
-            average_angles[i][is_nan[i]] = np.average(angle[:, is_nan[i]], axis=0)
+            average_angles[i][is_nan[i]] = np.sum(angle[:, is_nan[i]], axis=0) / 2
 
     # Interpret this back as a coordinate. Note we multiply average by 2 here
     return tuple(
-- 
2.43.0


From c2b1ac604e43d0ef92d38e725ae62380492732dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 008/107] fix: cumulative k distances summed over the path
 instead of the components

---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..e9449a3 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -446,7 +446,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From aa27f2e02fa9ed6e4e480a52b637a8de2fb200a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 009/107] fix: decrement_brillouin_zone raised unless the basis
 was three dimensional

---
 surface_potential_analysis/stacked_basis/brillouin_zone.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/brillouin_zone.py b/surface_potential_analysis/stacked_basis/brillouin_zone.py
index 5257d0c..1a235a1 100644
--- a/surface_potential_analysis/stacked_basis/brillouin_zone.py
+++ b/surface_potential_analysis/stacked_basis/brillouin_zone.py
@@ -79,10 +79,8 @@ def fold_point_in_bragg_plane(
     # If we denote the plane by the normal n and point p, where p.n n = p
     # we find p is given by bragg_point / 2.
     # The two reflections are then equivalent to a translation a - 2p.
-    return (
-        (coordinate[0] - bragg_point[0]),  # type: ignore cant infer
-        (coordinate[1] - bragg_point[1]),
-        (coordinate[2] - bragg_point[2]),
+    return tuple(  # type: ignore cant infer
+        c - b for (c, b) in zip(coordinate, bragg_point, strict=True)
     )
 
 
-- 
2.43.0


From 6f628fcbaee0ff98c1ad4f6697b5dab1a4766daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 010/107] fix: operators built by as_operator, matmul and
 functions could not be added to others

---
 surface_potential_analysis/operator/operator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..848548f 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -78,7 +78,7 @@ def as_operator(operator: DiagonalOperator[_B0, _B1]) -> Operator[_B0, _B1]:
     -------
     Operator[_B0_co, _B1_co]
     """
-    return {"basis": operator["basis"], "data": np.diag(operator["data"])}
+    return {"basis": operator["basis"], "data": np.diag(operator["data"]).reshape(-1)}
 
 
 def as_diagonal_operator(operator: Operator[_B0, _B1]) -> DiagonalOperator[_B0, _B1]:
@@ -232,7 +232,7 @@ def apply_function_to_operator(
         "k,ak,kb->ab", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)
     )
 
-    return {"basis": operator["basis"], "data": data}
+    return {"basis": operator["basis"], "data": data.reshape(-1)}
 
 
 def matmul_operator(
@@ -243,7 +243,10 @@ def matmul_operator(
         rhs["data"].reshape(rhs["basis"].shape),
         axes=(1, 0),
     )
-    return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data}
+    return {
+        "basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]),
+        "data": data.reshape(-1),
+    }
 
 
 def add_operator(a: Operator[_B0, _B1], b: Operator[_B0, _B1]) -> Operator[_B0, _B1]:
-- 
2.43.0


From dfc1b44dde249fe448f792f49c06a80f15d2fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 011/107] fix: list products used the shape from before the
 change of basis

---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..bf16f97 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From e7897b15d2dba7655586ceaa7520083d6de93411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 012/107] fix: as_flat_operator counted the states of the list
 twice

---
 surface_potential_analysis/operator/operator_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/operator_list.py b/surface_potential_analysis/operator/operator_list.py
index cedda1a..615c85f 100644
--- a/surface_potential_analysis/operator/operator_list.py
+++ b/surface_potential_analysis/operator/operator_list.py
@@ -213,7 +213,7 @@ def as_flat_operator(
 
     """
     basis = TupleBasis[_B0, Unpack[tuple[Any, ...]]](
-        operator_list["basis"][0], *operator_list["basis"][1]
+        operator_list["basis"][0], operator_list["basis"][1][0]
     )
     return {
         "basis": TupleBasis(basis, basis),
-- 
2.43.0


From f197305bd9a260ef26d34c279112d8bfe3000666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 013/107] fix: averaging eigenvalues over all axes counted the
 legs of the operator as axes

---
 surface_potential_analysis/operator/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 848548f..00a6b57 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,7 +167,7 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
@@ -200,7 +200,7 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
-- 
2.43.0


From 32974c762bdaddd910d6be18c6f68e1e3c3acb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 014/107] fix: get_displacements_matrix_x did not contain the
 displacements

---
 surface_potential_analysis/operator/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..f33be1d 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -166,10 +166,10 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    x_points = BasisUtil(basis_x).x_points[0]
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
+    data = _wrap_displacements(distances, max_distance).reshape(-1)
     return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
 
 
-- 
2.43.0


From 8291c83e1cc1c3b2e39193fd61ea14ae57d07083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 015/107] fix: averages with weights always raised

---
 surface_potential_analysis/operator/operator.py               | 4 ++--
 .../probability_vector/probability_vector.py                  | 2 +-
 surface_potential_analysis/state_vector/state_vector_list.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 00a6b57..63df089 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -173,7 +173,7 @@ def average_eigenvalues(
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
         "data": np.average(
             eigenvalues["data"].reshape(*eigenvalues["basis"][0].shape),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else axis,
             weights=weights,
         ).reshape(-1),
     }
@@ -213,7 +213,7 @@ def average_eigenvalues_list(
             eigenvalues["data"].reshape(
                 eigenvalues["basis"][0].n, *eigenvalues["basis"][1][0].shape
             ),
-            axis=tuple(1 + ax for ax in axis),
+            axis=1 + axis[0] if len(axis) == 1 else tuple(1 + ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..af0d7a0 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -240,7 +240,7 @@ def average_probabilities(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*old_basis.shape, -1),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else axis,
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..1b45888 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -286,7 +286,7 @@ def average_state_vector(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else axis,
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From e765f513bcfd6803c2038065912fa8d5fc025e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 016/107] fix: get_probability_along_axis indexed the flattened
 list

---
 .../probability_vector/probability_vector.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index af0d7a0..5b3b0ed 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,16 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
     )
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
-- 
2.43.0


From 5f76496b9e28969817060fbaeae9e2039b13b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 017/107] fix: sum_probability returned a plain tuple as the
 basis

---
 .../probability_vector/probability_vector.py                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5b3b0ed..0fbc8d4 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -146,7 +146,9 @@ def sum_probability(
     ProbabilityVector[Any]
     """
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
-    basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    basis = TupleBasis(
+        *tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    )
     return {
         "basis": basis,
         "data": (
-- 
2.43.0


From bfe4b085ff2f37c59ac9c98d5e7de57d670769ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 018/107] fix: sum_probabilities over all axes counted the legs
 of the list as axes

---
 .../probability_vector/probability_vector.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 0fbc8d4..45aac39 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -175,7 +175,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From 5dc9876e84b76ed30a40df9722a6635183960b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 019/107] fix: cuts through a list labelled the axes in sorted
 order

---
 .../probability_vector/probability_vector.py                    | 2 +-
 surface_potential_analysis/state_vector/state_vector_list.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 45aac39..94cd741 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -116,7 +116,7 @@ def get_probability_along_axis(
     ndim = probabilities["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
+        *tuple(probabilities["basis"][0][ax] for ax in axes)
     )
 
     vector = get_data_in_axes(
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index 1b45888..0b201eb 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -334,7 +334,7 @@ def get_state_along_axis(
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
+        *tuple(states["basis"][0][ax] for ax in axes)
     )
 
     vector = get_data_in_axes(
-- 
2.43.0


From 96eee863882314806c45a91c908eba2b2b24f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 020/107] fix: sho basis from a parent with integer delta_x
 raised

---
 surface_potential_analysis/stacked_basis/sho_basis.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 4c6d36a..4f68c76 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -104,14 +104,6 @@ def get_sho_potential_basis_config(
     -------
     PotentialTupleBasisLike[tuple[_L0Inv, _L1Inv]
     """
-    delta_x1 = (
-        np.array([0, 1, 0])
-        if np.allclose([1, 0, 0], parent.delta_x)
-        else np.array([1, 0, 0])
-    )
-    delta_x2 = np.cross(parent.delta_x, delta_x1)
-    delta_x2 /= np.linalg.norm(delta_x2)
-
     basis = TupleBasis(
         FundamentalPositionBasis(np.array([np.linalg.norm(parent.delta_x)]), parent.n),
     )
-- 
2.43.0


From 9de8ff02f58678645e0a6e3f2aae53696153534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 021/107] fix: undo_truncate_potential was only the inverse for
 n = 1

---
 surface_potential_analysis/potential/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..d066f27 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -228,7 +228,10 @@ def undo_truncate_potential(
     data: Potential[_SB0], *, cutoff: float = 2e-17, n: int = 1, offset: float = 2e-18
 ) -> Potential[_SB0]:
     """Reverses truncate_potential."""
-    points = cutoff * (np.exp((data["data"] + offset) / cutoff) - 1) ** (1 / n) - offset
+    points = (
+        cutoff * (np.exp(((data["data"] + offset) / cutoff) ** n) - 1) ** (1 / n)
+        - offset
+    )
     return {"data": points, "basis": data["basis"]}  # type: ignore[return-value]
 
 
-- 
2.43.0


From 7bcc68188a4343f5fabe10bddf939b449811af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 022/107] fix: potentials loaded from JSON could not be
 converted to another basis

---
 surface_potential_analysis/potential/potential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index d066f27..ed46e59 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -111,7 +111,7 @@ def load_potential_grid_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 FundamentalPositionBasis(np.array(out["delta_x2"]), points.shape[2]),
             ),
-            "data": np.array(out["points"]),
+            "data": points.reshape(-1),
         }
 
 
@@ -182,7 +182,7 @@ def load_uneven_potential_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 UnevenPotential3dZBasis(np.array(out["z_points"])),
             ),
-            "data": points,
+            "data": points.reshape(-1),
         }
 
 
-- 
2.43.0


From 12cdf8ff7a1067895675177632b215aafed04bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 023/107] fix: displacements along an axis of a stacked basis
 ignored its direction

---
 surface_potential_analysis/operator/build.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index f33be1d..5aa7b30 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -47,6 +47,15 @@ def _wrap_displacements(
     ).astype(np.float64)
 
 
+def _get_x_points_along_basis(
+    basis: FundamentalPositionBasis[Any, Any],
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    # The distance along the direction of the basis, which for an axis
+    # of a stacked basis has several components
+    direction = basis.delta_x / np.linalg.norm(basis.delta_x)
+    return np.tensordot(direction, BasisUtil(basis).x_points, axes=(0, 0))
+
+
 def get_displacements_x(
     basis: BasisWithLengthLike[Any, Any, Any], origin: float
 ) -> ValueList[FundamentalPositionBasis[Any, Any]]:
@@ -62,7 +71,7 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points - origin
+    distances = _get_x_points_along_basis(basis_x) - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,7 +175,7 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points[0]
+    x_points = _get_x_points_along_basis(basis_x)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance).reshape(-1)
-- 
2.43.0


From 8475b2d5522fdc33c56a519110ddfa868bd16a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 024/107] fix: isotropic kernels were built from the
 displacement of the wrong point

---
 surface_potential_analysis/kernel/build.py  | 3 ++-
 surface_potential_analysis/kernel/kernel.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..975f8be 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -99,7 +99,8 @@ def build_isotropic_kernel_from_function(
     ]
     """
     displacements = get_displacements_matrix_x(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    # beta(x-x') as a function of x for x'=0
+    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[:, 0])
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..b788186 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From b1a1d1c1a7bdc10a77b605995fac2ddd7b5866d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 025/107] fix: isotropic kernels with zeros were rejected as
 anisotropic

---
 surface_potential_analysis/kernel/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index b788186..9482973 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -248,7 +248,9 @@ def as_isotropic_kernel_from_diagonal(
 
     if assert_isotropic:
         np.testing.assert_allclose(
-            as_diagonal_kernel_from_isotropic(out)["data"], kernel["data"]
+            as_diagonal_kernel_from_isotropic(out)["data"].ravel(),
+            kernel["data"].ravel(),
+            atol=1e-8 * np.max(np.abs(kernel["data"])).item(),
         )
 
     return out
@@ -329,6 +331,7 @@ def as_isotropic_kernel_from_diagonal_stacked(
                 kernel["basis"][0].shape
             ),
             kernel["data"].reshape(kernel["basis"][0].shape),
+            atol=1e-8 * np.max(np.abs(kernel["data"])).item(),
         )
 
     return out
-- 
2.43.0


From b43a9a758b7bea4d62a64fc8124e1d72b9dd8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 026/107] fix: noise operators of valid kernels were rejected
 because of rounding errors

---
 surface_potential_analysis/kernel/solve/_eigenvalue.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_eigenvalue.py b/surface_potential_analysis/kernel/solve/_eigenvalue.py
index 8eb2509..a1a1598 100644
--- a/surface_potential_analysis/kernel/solve/_eigenvalue.py
+++ b/surface_potential_analysis/kernel/solve/_eigenvalue.py
@@ -60,10 +60,11 @@ def get_periodic_noise_operators_eigenvalue(
     )
     # Find the n^2 operators which are independent
     # I think this is always true
-    np.testing.assert_array_almost_equal(data, np.conj(np.transpose(data)))
+    atol = 1e-6 * np.max(np.abs(data)).item()
+    np.testing.assert_allclose(data, np.conj(np.transpose(data)), atol=atol)
 
     res = np.linalg.eigh(data)
-    np.testing.assert_array_almost_equal(
+    np.testing.assert_allclose(
         data,
         np.einsum(  # type: ignore unknown
             "ak,k,kb->ab",
@@ -71,6 +72,7 @@ def get_periodic_noise_operators_eigenvalue(
             res.eigenvalues,
             np.conj(np.transpose(res.eigenvectors)),
         ),
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
@@ -113,8 +115,9 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
     # for our finite temperature correction.
     # For isotropic noise, it is always possible to force this to be true
     # As long as we have evenly spaced k (we have to take symmetric and antisymmetric combinations)
+    atol = 1e-6 * np.max(np.abs(data)).item()
     np.testing.assert_allclose(
-        data, np.conj(np.transpose(data)), err_msg="kernel non hermitian"
+        data, np.conj(np.transpose(data)), atol=atol, err_msg="kernel non hermitian"
     )
     res = np.linalg.eigh(data)
 
@@ -127,6 +130,7 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
             np.conj(np.transpose(res.eigenvectors)),
         ),
         rtol=1e-4,
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
-- 
2.43.0


From 7de4e3dbcc5e0ed72fefa14c5790395bfe0ae708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 027/107] fix: explicit taylor expansions returned a different
 number of operators and eigenvalues

---
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 16c2e30..1f25640 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -106,7 +106,7 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
 
     # coefficients for the Taylor expansion of the trig terms
     coefficients = _get_periodic_coefficients_for_taylor_series(
-        polynomial_coefficients=polynomial_coefficients,
+        polynomial_coefficients=polynomial_coefficients, n_terms=n_terms
     )
     coefficients *= basis.n
 
-- 
2.43.0


From 8e2571a871c62478a2b2e266a5a895cb34677b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 028/107] fix: sine and cosine noise operators did not match
 their eigenvalues

---
 surface_potential_analysis/kernel/solve/_fft.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..98f0d13 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -231,8 +231,13 @@ def get_periodic_noise_operators_real_isotropic_fft(
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
+    # The number of independent frequencies, including the constant term
+    n_terms = fundamental_n // 2 + 1
     operators = get_periodic_operators_for_real_isotropic_noise(
-        kernel["basis"], fundamental_n=fundamental_n, assert_periodic=assert_periodic
+        kernel["basis"],
+        n=n_terms,
+        fundamental_n=fundamental_n,
+        assert_periodic=assert_periodic,
     )
 
     eigenvalues = _get_noise_eigenvalues_isotropic_fft(
@@ -243,12 +248,20 @@ def get_periodic_noise_operators_real_isotropic_fft(
         eigenvalues["data"][1::],
         eigenvalues["data"][1::][::-1],
         rtol=1e-8,
+        atol=1e-8 * np.max(np.abs(eigenvalues["data"])).item(),
     )
 
+    # Each pair e^(+-ikx) is replaced by cos(kx), sin(kx). The constant term (and
+    # for an even number of states, the highest frequency) does not have a pair
+    coefficients = 2 * eigenvalues["data"][:n_terms]
+    coefficients[0] /= 2
+    if fundamental_n % 2 == 0:
+        coefficients[-1] /= 2
+
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-        "eigenvalue": eigenvalues["data"],
+        "eigenvalue": np.concatenate([coefficients, coefficients[:0:-1]]),
     }
 
 
-- 
2.43.0


From e86d397c210ff2becb9d36e72adbfa4bafab50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 029/107] fix: diagonal noise kernels could not be truncated

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index 975f8be..0f559fe 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -365,4 +365,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From 6e658ab4c06960dc4d51de4a7a742612a2d5a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 030/107] fix: gaussian noise kernels mixed up the axes of a
 stacked basis

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index b6aa791..82cfdc4 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -26,7 +26,7 @@ from surface_potential_analysis.kernel.kernel import (
     AxisKernel,
     DiagonalNoiseOperatorList,
     SingleBasisDiagonalNoiseOperatorList,
-    as_diagonal_kernel_from_isotropic,
+    as_diagonal_kernel_from_isotropic_stacked,
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
@@ -159,7 +159,7 @@ def get_gaussian_noise_kernel(
     SingleBasisDiagonalNoiseKernel[ TupleBasisLike[FundamentalPositionBasis[Any, Literal[1]]] ]
         _description_
     """
-    return as_diagonal_kernel_from_isotropic(
+    return as_diagonal_kernel_from_isotropic_stacked(
         get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
     )
 
-- 
2.43.0


From 713447d394166c510cd3f68cf02c3f287b4f7bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 031/107] fix: return every eigenstate of a wavepacket

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..cfda314 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -235,7 +235,7 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
+            converted["data"].reshape(converted["basis"].shape),
             wavepacket["eigenvalue"],
             *util.stacked_nk_points,
             strict=True,
-- 
2.43.0


From 637c5e0836c91161b1b20cca83ea70c3b635570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 032/107] fix: keep the first wavepacket when collecting an
 iterator

---
 surface_potential_analysis/wavepacket/wavepacket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/wavepacket.py b/surface_potential_analysis/wavepacket/wavepacket.py
index 3d16ab6..b5e5f38 100644
--- a/surface_potential_analysis/wavepacket/wavepacket.py
+++ b/surface_potential_analysis/wavepacket/wavepacket.py
@@ -461,7 +461,8 @@ def as_wavepacket_list(
     -------
     WavepacketList[FundamentalBasis[int], _SB0, _SB1]
     """
-    wavepacket_0 = next(iter(wavepackets))
+    wavepackets = list(wavepackets)
+    wavepacket_0 = wavepackets[0]
     vectors = np.array([w["data"] for w in wavepackets])
     return {
         "basis": TupleBasis(
-- 
2.43.0


From b390065e3c2747371203470833f5deae6e8eaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 033/107] fix: give evenly spaced block fractions their axis

---
 surface_potential_analysis/basis/block_fraction_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/block_fraction_basis.py b/surface_potential_analysis/basis/block_fraction_basis.py
index 7bf6e41..168e5dc 100644
--- a/surface_potential_analysis/basis/block_fraction_basis.py
+++ b/surface_potential_analysis/basis/block_fraction_basis.py
@@ -61,7 +61,7 @@ class EvenlySpacedBlockFractionBasis(
     def bloch_fractions(self) -> np.ndarray[tuple[Any, _N0_co], np.dtype[np.float64]]:
         return self.__from_fundamental__(  # type: ignore can't infer shape
             np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
-        )
+        ).reshape(1, -1)
 
 
 class FundamentalBlockFractionBasis(
-- 
2.43.0


From 31d3611326d45e4fcdc1e865ee7471c8a2710fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 034/107] fix: unfurl Bloch bases of incomplete state bases

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index cfda314..119c0e0 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -696,8 +696,8 @@ class BlochBasis(
             axis=axis,
         )
 
-        k_shape = self.wavefunctions["basis"][1].shape
-        list_shape = self.wavefunctions["basis"][0][1].shape
+        k_shape = self.wavefunctions["basis"][1].fundamental_shape
+        list_shape = self.wavefunctions["basis"][0][1].fundamental_shape
         ndim = len(k_shape)
 
         inner_shape = tuple(zip(list_shape, k_shape))
@@ -736,7 +736,7 @@ class BlochBasis(
         if self.vectors_basis.n < 100 * 90:
             np.testing.assert_allclose(
                 self.vectors_basis[1].__into_fundamental__(
-                    unshifted.reshape(vectors_in_basis.shape), axis
+                    unshifted.reshape(converted.shape), axis
                 ),
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
@@ -745,7 +745,7 @@ class BlochBasis(
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-            unshifted.reshape(vectors_in_basis.shape), axis
+            unshifted.reshape(converted.shape), axis
         )
 
     @property
-- 
2.43.0


From 5009ac77335e3541ebeba2e61a12478471f58ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 035/107] fix: decompress wavefunctions given at some
 wavevectors only

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 119c0e0..fdb1354 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -488,7 +488,7 @@ def get_bloch_states(
         )
     )
     out = np.zeros(
-        (*wavepackets["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
+        (*converted["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
     )
 
     util = BasisUtil(converted["basis"][0][1])
-- 
2.43.0


From 94b6d9485bcf05016eeaf1ae290edfcddd261b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 036/107] fix: size the identity localization operator by its
 bands

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..a4487f0 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 4b1c43d047be0e7767e18456424bfeae360a274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 037/107] fix: give the Hamiltonian of the Wannier states, not
 its conjugate

---
 surface_potential_analysis/wavepacket/get_eigenstate.py    | 7 +++----
 .../wavepacket/localization_operator.py                    | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index fdb1354..abe95b4 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -1000,10 +1000,9 @@ def get_full_wannier_hamiltonian(
         *hamiltonian["basis"][0].shape,
         -1,
     )
-    # is this correct...
-    # I think because H is real symmetric, this ultimately doesn't matter
-    data_stacked = np.fft.fftn(
-        np.fft.ifftn(
+    # The state translated by idx is sum_k exp(2 pi i k.idx) |k>
+    data_stacked = np.fft.ifftn(
+        np.fft.fftn(
             hamiltonian_stacked,
             axes=tuple(range(hamiltonian["basis"][0].ndim)),
             norm="ortho",
diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index a4487f0..41adb26 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -138,11 +138,11 @@ def get_localized_hamiltonian_from_eigenvalues(
     """
     converted = np.einsum(  # type: ignore lib
         "dic,cd,djc->dij",
-        operator["data"].reshape(-1, *operator["basis"][1].shape),
+        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
         hamiltonian["data"].reshape(
             hamiltonian["basis"][0].n, hamiltonian["basis"][1].shape[0]
         ),
-        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
+        operator["data"].reshape(-1, *operator["basis"][1].shape),
     )
     return {
         "basis": TupleBasis(
-- 
2.43.0


From d9b382c2187656093b032f0ac8c888e20d12add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 038/107] fix: translate Wannier states by whole unit cells

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index abe95b4..a87d86a 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -909,7 +909,10 @@ def get_wannier_states(
     # for each translation of the wannier functions
     for idx in range(operator["basis"][0].n):
         offset = util.get_stacked_index(idx)
-        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].shape, offset))
+        shift = tuple(
+            -n * o
+            for (n, o) in zip(wavefunctions["basis"][1].fundamental_shape, offset)
+        )
 
         tanslated = np.roll(
             converted_stacked, shift, axis=tuple(1 + x for x in range(util.ndim))
-- 
2.43.0


From fc0596c8b25d9d8d460ef8ef27568eeb40fd07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 039/107] fix: order the Wannier Hamiltonian as its basis

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index a87d86a..b6af5f2 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -1017,7 +1017,7 @@ def get_full_wannier_hamiltonian(
     )
     # Re order to match the correct basis
     data = np.einsum(  # type: ignore lib
-        "ijkl->ikjl",
+        "ijkl->kilj",
         data_stacked.reshape(
             hamiltonian["basis"][0].n,
             hamiltonian["basis"][0].n,
-- 
2.43.0


From 7443a1cc58baa40863418cbf724ddd0e53942850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 040/107] fix: keep one whole unit cell in tight binding states

---
 .../wavepacket/get_eigenstate.py                      | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index b6af5f2..cf43efd 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -307,21 +307,18 @@ def get_tight_binding_state(
         get_wavepacket_state_vector(wavepacket, idx)
     )
     util = BasisUtil(state_0["basis"])
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
     if origin is None:
         idx_0: SingleStackedIndexLike = util.get_stacked_index(
             int(np.argmax(np.abs(state_0["data"]), axis=-1))
         )
-        origin = wrap_index_around_origin(
-            wavepacket["basis"][1],
-            idx_0,
-        )
+        origin = wrap_index_around_origin(unit_cell, idx_0)
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
     relevant_idx = wrap_index_around_origin(
-        wavepacket["basis"][1],
-        unit_cell_util.fundamental_stacked_nx_points,
+        unit_cell,
+        BasisUtil(unit_cell).fundamental_stacked_nx_points,
         origin=origin,
     )
     relevant_idx_flat = util.get_flat_index(relevant_idx, mode="wrap")
-- 
2.43.0


From 0c8b9d3ca3a75c1f0d68025654e236c62ad4e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 041/107] fix: localize tightly bound wavepackets about their
 maximum

---
 .../wavepacket/localization/_tight_binding.py | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..81095b3 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -186,8 +186,8 @@ def get_wavepacket_two_points(
     -------
     tuple[SingleStackedIndexLike, SingleStackedIndexLike]
     """
-    util = BasisUtil(wavepacket["basis"][1])
-    origin = (util.shape[0] * offset[0], util.shape[1] * offset[1], 0)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin = (unit_cell.shape[0] * offset[0], unit_cell.shape[1] * offset[1], 0)
 
     converted = convert_state_vector_to_position_basis(
         get_wavepacket_state_vector(wavepacket, 0)
@@ -197,9 +197,9 @@ def get_wavepacket_two_points(
         SingleStackedIndexLike,
         converted_util.get_stacked_index(np.argmax(np.abs(converted["data"]), axis=-1)),
     )
-    idx_0 = wrap_index_around_origin(wavepacket["basis"][1], idx_0, origin=origin)
+    idx_0 = wrap_index_around_origin(unit_cell, idx_0, origin=origin)
     idx_1 = get_x01_mirrored_index(idx_0)
-    idx_1 = wrap_index_around_origin(wavepacket["basis"][1], idx_1, origin=origin)
+    idx_1 = wrap_index_around_origin(unit_cell, idx_1, origin=origin)
     return (idx_0, idx_1)
 
 
@@ -291,9 +291,10 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
 
 
 @timed
@@ -324,12 +325,17 @@ def localize_tightly_bound_wavepacket_max_point(
     )
     max_idx = cast(SingleFlatIndexLike, np.argmax(np.abs(converted["data"]), axis=-1))
     max_idx = BasisUtil(converted["basis"]).get_stacked_index(max_idx)
-    max_idx = wrap_index_around_origin(wavepacket["basis"][1], max_idx, axes=(0, 1))
+    max_idx = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        max_idx,
+        axes=(0, 1),
+    )
 
     bloch_phases = _get_bloch_wavefunction_phases(wavepacket, max_idx)
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
-- 
2.43.0


From 1e73de92df3abfecf53aaaf185e84d0044dd881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 042/107] fix: centre decaying guesses on their origin in any
 number of dimensions

---
 .../wavepacket/localization/_projection.py    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 1e65bd1..a05d4a6 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,15 +298,16 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin_stacked = wrap_index_around_origin(unit_cell, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_util = BasisUtil(wavepacket["basis"])
-    dx0 = coordinates[0] - origin_stacked[0] / unit_cell_util.fundamental_shape[0]
-    dx1 = coordinates[1] - origin_stacked[1] / unit_cell_util.fundamental_shape[1]
-    dx2 = coordinates[2] - origin_stacked[2] / unit_cell_util.fundamental_shape[2]
+    dx = tuple(
+        (c - o) / w
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell.shape, strict=True)
+    )
 
     out: StateVector[
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]]
@@ -314,7 +315,7 @@ def get_exponential_state(
         "basis": state_0["basis"],
         "data": np.zeros_like(state_0["data"]),
     }
-    out["data"] = np.exp(-(dx0**2 + dx1**2 + dx2**2))
+    out["data"] = np.exp(-np.sum(np.square(dx), axis=0))
     out["data"] /= np.linalg.norm(out["data"])  # type: ignore can be float
     return out
 
@@ -389,15 +390,15 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin_stacked = wrap_index_around_origin(unit_cell, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_shape = (wavepacket["basis"]).shape
     dx = tuple(
         (c - o) / w
-        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell.shape, strict=True)
     )
 
     out: StateVectorList[
-- 
2.43.0


From 2b43be443de069b2bf6905cb821278c5509973c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 043/107] fix: mix wavepackets by the eigenvectors of position

---
 .../wavepacket/localization/_operator.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..175a164 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -109,9 +109,12 @@ def _localize_operator(
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (
+                wavepacket["data"].reshape(wavepacket["basis"].shape)
+                * vector[:, np.newaxis]
+            ).reshape(-1),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -172,7 +175,7 @@ def localize_position_operator_many_band(
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -206,5 +209,5 @@ def localize_position_operator_many_band_individual(
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
-- 
2.43.0


From f7a8ed54c56525723068788647f8bbf97177dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 044/107] fix: give one point to each of the single point
 states

---
 surface_potential_analysis/state_vector/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index c4ec939..6265d85 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -80,8 +80,11 @@ def get_single_point_state_vectors(
         get_fundamental_unfurled_basis(basis)
     )
     data = np.zeros((n_bands, converted.n), dtype=np.complex128)
-    for i, n in enumerate(range(0, basis[1].n, n_bands)):
-        data[i, n] = 1
+    cell_shape = basis[1].fundamental_shape
+    # Evenly spaced points of the first unit cell
+    points = (np.arange(n_bands) * basis[1].fundamental_n) // n_bands
+    idx = np.ravel_multi_index(np.unravel_index(points, cell_shape), converted.shape)
+    data[np.arange(n_bands), idx] = 1
     return {
         "basis": TupleBasis(FundamentalBasis(n_bands), converted),
         "data": data.reshape(-1),
-- 
2.43.0


From c7b852cd878b2da343890fcdbb134a26d6bd7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 045/107] fix: move localized guesses by their fraction of the
 cell

---
 surface_potential_analysis/state_vector/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index 6265d85..ac328df 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -170,7 +170,7 @@ def get_most_localized_state_vectors_from_probability(
     averaged = average_probabilities(probabilities)
 
     sample_basis = unfurled["basis"][1]
-    sample_fractions = BasisUtil(unfurled["basis"][1]).stacked_nx_points
+    sample_fractions = BasisUtil(unfurled["basis"][1]).stacked_nk_points
     sample_fractions = tuple(
         f / n
         for (f, n) in zip(
-- 
2.43.0


From 99fd356ff78927062eeda272f2f42fee53be8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 046/107] fix: time bases place every time on the fundamental
 grid

---
 surface_potential_analysis/basis/time_basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..d3b2f5b 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,7 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return self.fundamental_dt * np.arange(self.fundamental_n)  # type: ignore[no-any-return]
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From 53ffd2128edff036d1931f857a290a8c20d1bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 047/107] fix: flatten the states of the schrodinger equation
 solutions

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 77e5f58..68e2d69 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -121,7 +121,10 @@ def solve_schrodinger_equation_decomposition(
     vectors = np.tensordot(
         constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
     )
-    return {"basis": TupleBasis(times, eigenstates["basis"][1]), "data": vectors}
+    return {
+        "basis": TupleBasis(times, eigenstates["basis"][1]),
+        "data": vectors.reshape(-1),
+    }
 
 
 def solve_schrodinger_equation_diagonal(
@@ -149,7 +152,7 @@ def solve_schrodinger_equation_diagonal(
     data = converted_state["data"][np.newaxis, :] * np.exp(
         -1j * (hamiltonian["data"][np.newaxis, :]) * times.times[:, np.newaxis] / hbar
     )
-    return {"basis": TupleBasis(times, hamiltonian["basis"][0]), "data": data}
+    return {"basis": TupleBasis(times, hamiltonian["basis"][0]), "data": data.reshape(-1)}
 
 
 def solve_schrodinger_equation(
-- 
2.43.0


From 33f58927e928c1f5be2067f1911f88d32d18f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 048/107] fix: solve the schrodinger equation with enough
 steps, and without rescaling

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 68e2d69..b253a30 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -183,7 +183,8 @@ def solve_schrodinger_equation(
         options={
             "progress_bar": "enhanced",
             "store_states": True,
-            "nsteps": times.step,
+            "nsteps": max(times.step, 2500),
+            "normalize_output": False,
         },
     )
     return {
-- 
2.43.0


From b3bf7bb04fe148c911976fba5dc5e04c9ec2fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 049/107] fix: start the schrodinger equation from t=0

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index b253a30..19c4e7d 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -178,7 +178,8 @@ def solve_schrodinger_equation(
     result = qutip.sesolve(  # type: ignore lib
         hamiltonian_qobj,
         initial_state_qobj,
-        times.times,
+        # The initial state is the state at t=0, which need not be the first of times
+        np.concatenate(([0.0], times.times)),
         e_ops=[],
         options={
             "progress_bar": "enhanced",
@@ -190,7 +191,7 @@ def solve_schrodinger_equation(
     return {
         "basis": TupleBasis(times, hamiltonian["basis"][0]),
         "data": np.array(
-            np.asarray([state.full().reshape(-1) for state in result.states]),  # type: ignore lib
+            np.asarray([state.full().reshape(-1) for state in result.states[1:]]),  # type: ignore lib
             dtype=np.complex128,
         ).reshape(-1),
     }
-- 
2.43.0


From ef1ccdb2f2cd14dc707aebca4ad12215d3e90948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 050/107] fix: integrate the stochastic schrodinger equation in
 steps of the fundamental dt

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..d8642d1 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -397,7 +397,7 @@ def solve_stochastic_schrodinger_equation_rust(  # type: ignore bad overload
         SimulationConfig(
             n=times.n,
             step=times.step,
-            dt=times.dt,
+            dt=times.fundamental_dt,
             n_trajectories=n_trajectories,
             n_realizations=n_realizations,
             method="Euler",
-- 
2.43.0


From 944c558fa04b188cbb70b10e7f30b955bda9d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 051/107] fix: scale qutip collapse operators by sqrt(hbar)

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index d8642d1..20bf28d 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -297,7 +297,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
     initial_state_qobj = qutip.Qobj(initial_state["data"])
 
     sc_ops = [
-        qutip.Qobj(op["data"].reshape(op["basis"].shape) / hbar).to("CSR")
+        qutip.Qobj(op["data"].reshape(op["basis"].shape) / np.sqrt(hbar)).to("CSR")
         for op in collapse_operators
     ]
     result = qutip.ssesolve(
-- 
2.43.0


From 214a781ebf4c5bf4687eac662fe4b3221f3f7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:23 +0000
Subject: [PATCH 052/107] fix: banded solver without any collapse

---
 .../dynamics/stochastic_schrodinger/solve.py                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 20bf28d..b783d3d 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -518,7 +518,8 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
 
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
-    max_norm = np.max(operators_norm)
+    max_norm = np.max(operators_norm, initial=0)
+    max_norm = max_norm if max_norm > 0 else np.float64(1)
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From c2a80727b10e9aea6b32cc810181c448cdaf5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:26 +0000
Subject: [PATCH 053/107] fix: normalize the selected localized state

---
 .../dynamics/stochastic_schrodinger/solve.py           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index b783d3d..5e23987 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -595,20 +595,20 @@ def _select_random_localized_state(
     -------
     StateVector[_B1Inv]
     """
-    states["data"].reshape(states["basis"].shape)
-
     op = calculate_inner_products(states, states)
     op["data"] /= np.linalg.norm(op["data"])
     # Vectors representing the combination of states that diagonalizes rho
     eigenstates = calculate_eigenvectors_hermitian(op)
 
-    probabilities = eigenstates["eigenvalue"]
+    # op is positive semidefinite, any negative eigenvalue is a rounding error
+    probabilities = np.clip(eigenstates["eigenvalue"], 0, None)
     probabilities /= np.sum(probabilities)
 
     idx = rng.choice(probabilities.size, p=probabilities)
     transformation = get_state_vector(eigenstates, idx)
-    transformation["data"] /= np.sqrt(2)
-    return get_weighted_state_vector(states, transformation)
+    state = get_weighted_state_vector(states, transformation)
+    state["data"] /= np.linalg.norm(state["data"])
+    return state
 
 
 @overload
-- 
2.43.0


From 4390eae462f6b54bf0de7f1301a87b1792b93cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 054/107] fix: advance localized states by a whole time step

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 5e23987..de9cc5f 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -658,7 +658,7 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
         for t in range(times.n):
             result = solve_stochastic_schrodinger_equation(
                 state,
-                EvenlySpacedTimeBasis(2, times.step, 0, times.dt),
+                EvenlySpacedTimeBasis(2, times.step, 0, 2 * times.dt),
                 hamiltonian,
                 collapse_operators,
                 n_trajectories=n_realizations,
-- 
2.43.0


From 4c82b7616611aa3c5fb5f8d6f886fe42442c3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 055/107] fix: start localized trajectories from the initial
 state

---
 .../dynamics/stochastic_schrodinger/solve.py                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index de9cc5f..0cd09e0 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -655,7 +655,8 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
 
     for trajectory in range(n_trajectories):
         state = initial_state
-        for t in range(times.n):
+        data[trajectory, 0] = state["data"]
+        for t in range(1, times.n):
             result = solve_stochastic_schrodinger_equation(
                 state,
                 EvenlySpacedTimeBasis(2, times.step, 0, 2 * times.dt),
-- 
2.43.0


From ab73dde842109b515eebc5792fbd53a389baf7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 056/107] fix: relocalize over the realizations at the final
 time

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 0cd09e0..71cb55a 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -666,7 +666,7 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
             )
             # Re-localize our state
             state = _select_random_localized_state(
-                get_state_along_axis(result, axes=(1,), idx=(1,))
+                get_state_along_axis(result, axes=(0,), idx=(1,))
             )
 
             data[trajectory, t] = state["data"]
-- 
2.43.0


From 482a0f1c10c3f2ff46af529ea46d1c72291ac424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 057/107] fix: use the basis of the states for the shape of a
 tunnelling matrix

---
 .../incoherent_propagation/tunnelling_matrix.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..372a507 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
@@ -169,12 +169,12 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands = matrix["basis"][0].fundamental_n if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(*matrix["basis"].shape, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
@@ -272,7 +272,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From c9dfd42af010e667ae0b57e5966c0bdb5a6a51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 058/107] fix: do not alter the a matrix when calculating the m
 matrix

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 372a507..1536787 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -329,10 +329,10 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
-    return {"basis": matrix["basis"], "data": array}
+    return {"basis": matrix["basis"], "data": array.reshape(-1)}
 
 
 def get_initial_pure_density_matrix_for_basis(
-- 
2.43.0


From 8dad0a973c790555785b197c9624f3abb3b5228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 059/107] fix: collapse operators of an a matrix

---
 .../dynamics/stochastic_schrodinger/solve.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 71cb55a..b0b74bb 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
@@ -128,8 +128,8 @@ def get_collapse_operators_from_a_matrix(
                     ([data[idx]], ([np.int32(idx[0])], [np.int32(idx[1])])),  # type: ignore always idx[1]
                     shape=data.shape,
                 ).toarray(),
-                dtype=np.float64,
-            ),
+                dtype=np.complex128,
+            ).reshape(-1),
         }
         for idx in zip(*np.nonzero(data), strict=True)
     ]
-- 
2.43.0


From 53ad306f478b85f476b8e91aff7a4885ff647c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:57 +0000
Subject: [PATCH 060/107] fix: collapse operators from a function

---
 .../dynamics/stochastic_schrodinger/solve.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index b0b74bb..c4a634e 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -220,8 +220,8 @@ def get_collapse_operators_from_function(
     n_bands = bands_basis.fundamental_n
     basis = get_basis_from_shape(shape, n_bands, bands_basis)
 
-    array = np.zeros((n_sites * n_bands, n_sites * n_bands))
-    for i in range(array.shape[0]):
+    n_states = n_sites * n_bands
+    for i in range(n_states):
         for n1 in range(n_bands):
             for d1 in range(9):
                 (i0, j0, n0) = np.unravel_index(i, (*shape, n_bands))
@@ -229,7 +229,7 @@ def get_collapse_operators_from_function(
                 (i1, j1) = (i0 + d1_stacked[0], j0 + d1_stacked[1])
                 j = np.ravel_multi_index((i1, j1, n1), (*shape, n_bands), mode="wrap")
 
-                data = np.zeros(shape, dtype=np.complex128)
+                data = np.zeros((n_states, n_states), dtype=np.complex128)
                 data[i, j] = a_function(
                     int(n0), n1, (0, 0), (d1_stacked[0], d1_stacked[1])
                 )
-- 
2.43.0


From a1ae4d5ecdc50273acd94a065c86f20739071fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 061/107] fix: flatten the tunnelling eigenstates

---
 .../incoherent_propagation/eigenstates.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
index bf8af0d..73b1bc3 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
@@ -54,7 +54,7 @@ def calculate_tunnelling_eigenstates(
     return {
         "basis": TupleBasis(FundamentalBasis(eigenvalues.size), matrix["basis"][0]),  # type: ignore lib
         "eigenvalue": eigenvalues - np.max(eigenvalues),  # type: ignore lib
-        "data": vectors.T,  # type: ignore lib
+        "data": vectors.T.reshape(-1),  # type: ignore lib
     }
 
 
@@ -82,7 +82,10 @@ def get_operator_state_vector_decomposition(
     # linalg.solve(a, b) = x where np.dot(a, x) == b, which is the sum
     # of the product over the last axis of x, so a[i] x[:, i] = b[:]
     # ie solved is the decomposition of b into the eigenvectors
-    return scipy.linalg.solve(eigenstates["data"].T, density_matrix["data"])  # type: ignore[no-any-return]
+    return scipy.linalg.solve(  # type: ignore[no-any-return]
+        eigenstates["data"].reshape(eigenstates["basis"].shape).T,
+        density_matrix["data"],
+    )
 
 
 def get_equilibrium_state(
@@ -110,7 +113,10 @@ def get_equilibrium_state(
     state_idx = np.argmax(eigenstates["eigenvalue"])
     # eigenstates["data"][state_idx] is not necessarily normalized,
     # and could contain negative or imaginary 'probabilities'
-    vector = coefficients[state_idx] * eigenstates["data"][state_idx]
+    vector = (
+        coefficients[state_idx]
+        * eigenstates["data"].reshape(eigenstates["basis"].shape)[state_idx]
+    )
     return {
         "basis": TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         "data": vector,
@@ -163,13 +169,15 @@ def get_tunnelling_simulation_state(
     constants = coefficients[np.newaxis, :] * np.exp(
         eigenstates["eigenvalue"][np.newaxis, :] * times[:, np.newaxis]
     )
-    vectors = np.tensordot(constants, eigenstates["data"], axes=(1, 0))
+    vectors = np.tensordot(
+        constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
+    )
     return {
         "basis": TupleBasis(
             ExplicitTimeBasis(times),
             TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         ),
-        "data": vectors,
+        "data": vectors.reshape(-1),
     }
 
 
-- 
2.43.0


From 8cacd17807a5107b4fdc0e190c2f99a241ef9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 062/107] fix: use the basis of the states for probabilities

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 1536787..d06db2f 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -373,7 +373,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From ae42177ce9a34409e53cd53d1070b6fd67b27cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 063/107] fix: equilibrium averages of the ISF

---
 .../dynamics/incoherent_propagation/isf.py    | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..2a61060 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,10 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    return {
+        "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][0][0]),
+        "data": averaged["data"],
+    }
 
 
 def calculate_equilibrium_initial_state_isf(
@@ -150,22 +153,23 @@ def calculate_equilibrium_initial_state_isf(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
 
+    n_bands = matrix["basis"][0].shape[2]
     vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
+        (n_bands, times.size, matrix["basis"][0].n), dtype=np.complex128
     )
-    for band in range(matrix["basis"].shape[2]):
+    for band in range(n_bands):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
         final_state = get_tunnelling_simulation_state(eigenstates, initial_state, times)
         final_probabilities = density_matrix_list_as_probabilities(final_state)
-        vectors[band] = final_probabilities["data"]
+        vectors[band] = final_probabilities["data"].reshape(times.size, -1)
     probability_per_band: ProbabilityVectorList[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]], _B0Inv
     ] = {
         "basis": TupleBasis(
             TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
+                FundamentalBasis(n_bands), ExplicitTimeBasis(times)
             ),
             matrix["basis"][0],
         ),
@@ -176,7 +180,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(matrix["basis"][0].shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
@@ -187,7 +191,11 @@ def calculate_equilibrium_initial_state_isf(
         weights=np.abs(occupation_probabilities["data"]),
         axis=(0,),
     )
-    return calculate_isf_approximate_locations(initial, average_probability, dk)
+    isf = calculate_isf_approximate_locations(initial, average_probability, dk)
+    return {
+        "basis": TupleBasis(isf["basis"][0][0], isf["basis"][0][0]),
+        "data": isf["data"],
+    }
 
 
 @dataclass
-- 
2.43.0


From 7a57d413b604b152a138e674c42be64900081e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 064/107] fix: give the rates in a rate decomposition

---
 .../dynamics/incoherent_propagation/isf.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 2a61060..7b7b3aa 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -223,4 +223,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From 1ac9b0deaa062f9962107f0ae628fe9a8f5b904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 065/107] fix: give the locations of bands as a fraction of the
 unit cell

---
 surface_potential_analysis/dynamics/tunnelling_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/tunnelling_basis.py b/surface_potential_analysis/dynamics/tunnelling_basis.py
index 99f6977..b16ae52 100644
--- a/surface_potential_analysis/dynamics/tunnelling_basis.py
+++ b/surface_potential_analysis/dynamics/tunnelling_basis.py
@@ -60,11 +60,12 @@ class TunnellingSimulationBandsBasis(FundamentalBasis[_L0_co]):
         """
         util = BasisUtil(wavepackets["basis"][1])
 
+        shape = np.array(util.fundamental_shape[0:2])
         locations = np.zeros((2, wavepackets["basis"][0][0].n))
         for i, w in enumerate(wavepacket_list_into_iter(wavepackets)):
             idx0, idx1 = get_wavepacket_two_points(w)
             location = np.average([idx0, idx1], axis=0)  # type: ignore lib
-            locations[:, i] = location[0:2]
+            locations[:, i] = location[0:2] / shape
         return cls(locations, tuple(util.delta_x_stacked[0:2, 0:2]))  # type: ignore[arg-type]
 
 
-- 
2.43.0


From 3d672257a7ed23f319bba58ba56e21a4cbe62975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 066/107] fix: npy_cached finds the cache it saved to a path
 without the .npy suffix

---
 surface_potential_analysis/util/decorators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 23342c8..6741c7f 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -100,7 +100,9 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                np.save(cache_path, np.asanyarray(arr), allow_pickle=save_pickle)
+                # When given a path np.save may append .npy to it
+                with cache_path.open("wb") as file:
+                    np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
 
             return arr
 
-- 
2.43.0


From 3205f948f4dcc03c0b6f501965fccdc1ad1b6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 067/107] fix: an interrupted or failed save leaves the cache
 as it was

---
 surface_potential_analysis/util/decorators.py | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 6741c7f..946b09c 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -2,9 +2,20 @@ from __future__ import annotations
 
 import datetime
 import pickle  # noqa: S403
-from collections.abc import Callable, Mapping
+from collections.abc import Callable, Iterator, Mapping
+from contextlib import contextmanager
 from functools import update_wrapper, wraps
-from typing import TYPE_CHECKING, Any, Generic, Literal, ParamSpec, TypeVar, overload
+from typing import (
+    IO,
+    TYPE_CHECKING,
+    Any,
+    Generic,
+    Literal,
+    ParamSpec,
+    TypeVar,
+    overload,
+)
+from uuid import uuid4
 
 import numpy as np
 
@@ -16,6 +27,22 @@ _R = TypeVar("_R")
 _RD = TypeVar("_RD", bound=Mapping[Any, Any])
 
 
+@contextmanager
+def _open_atomic(path: Path) -> Iterator[IO[bytes]]:
+    """
+    Open a file for writing, which replaces path only once it has been written in full.
+
+    If writing fails (or is interrupted) whatever was at path is left as it was.
+    """
+    temporary_path = path.with_name(f".{uuid4().hex}.tmp")
+    try:
+        with temporary_path.open("wb") as f:
+            yield f
+        temporary_path.replace(path)
+    finally:
+        temporary_path.unlink(missing_ok=True)
+
+
 def timed(f: Callable[_P, _R]) -> Callable[_P, _R]:
     """
     Log the time taken for f to run.
@@ -101,7 +128,7 @@ def npy_cached(
                 arr = f(*args, **kw)
                 # Saving pickeld
                 # When given a path np.save may append .npy to it
-                with cache_path.open("wb") as file:
+                with _open_atomic(cache_path) as file:
                     np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
 
             return arr
@@ -149,7 +176,7 @@ class CachedFunction(Generic[_P, _RD]):
         obj = self.call_uncached(*args, **kw)
         cache_path = self._get_cache_path(*args, **kw)
         if cache_path is not None:
-            with cache_path.open("wb") as f:
+            with _open_atomic(cache_path) as f:
                 pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
         return obj
 
-- 
2.43.0


From 7af4e771b7623d658ec5ef8a34c1ae890fe74a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 068/107] fix: npy_cached does not keep an array which did not
 fit on the disk

---
 surface_potential_analysis/util/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 946b09c..ec9a228 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -5,6 +5,7 @@ import pickle  # noqa: S403
 from collections.abc import Callable, Iterator, Mapping
 from contextlib import contextmanager
 from functools import update_wrapper, wraps
+from io import BytesIO
 from typing import (
     IO,
     TYPE_CHECKING,
@@ -128,8 +129,11 @@ def npy_cached(
                 arr = f(*args, **kw)
                 # Saving pickeld
                 # When given a path np.save may append .npy to it
+                # Given a real file, numpy does not report that the disk is full
+                buffer = BytesIO()
+                np.save(buffer, np.asanyarray(arr), allow_pickle=save_pickle)
                 with _open_atomic(cache_path) as file:
-                    np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
+                    file.write(buffer.getbuffer())
 
             return arr
 
-- 
2.43.0


From 450d9bdc1e9ba1aae832d3302924d3c93d1b5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:30 +0000
Subject: [PATCH 069/107] fix: shift states along each axis when calculating
 overlaps

---
 surface_potential_analysis/overlap/calculation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..bd49e1d 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -101,12 +101,11 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
-        if isinstance(shift, tuple)
-        else shift
-    )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
+    util = BasisUtil(states["basis"][1])
+    shift = shift if isinstance(shift, tuple) else util.get_stacked_index(shift)
+    stacked_shifted = np.roll(
+        stacked.reshape(-1, *util.shape), shift, axis=tuple(range(1, 1 + util.ndim))
+    ).reshape(stacked.shape)
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From df422e1720256e98dc522f69d5b691df4e0faee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:34 +0000
Subject: [PATCH 070/107] fix: use the number of points along each axis in the
 interpolator of fractions

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..eb3f93c 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.array(util.shape)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0


From 40a4bdd5b2de55ccf549e271012531ad2dccf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:38 +0000
Subject: [PATCH 071/107] fix: count each direction once in the angle average

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index eb3f93c..b10dd90 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -191,7 +191,7 @@ def get_angle_averaged_diagonal_overlap_function(
     -------
     np.ndarray[tuple[int], np.dtype[np.float_]]
     """
-    theta = np.linspace(0, 2 * np.pi, theta_samples)
+    theta = np.linspace(0, 2 * np.pi, theta_samples, endpoint=False)
     averages = list[np.float64]()
     for q in abs_q.ravel():
         k_points = q * np.array([np.cos(theta), np.sin(theta)])
-- 
2.43.0


From 02a65dc6156087ae59557be1f0467d6afb104d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 072/107] fix: find the default k slice from the converted data

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..60c3250 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -269,7 +269,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From b017f65169e6067bf529760f8edf06867e0a09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:06 +0000
Subject: [PATCH 073/107] fix: plot a periodic axis with a single point

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 60c3250..77b6938 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -174,7 +174,7 @@ def plot_data_1d(
     measured_data = get_measured_data(data, measure)
     # The data is periodic and evenly spaced
     # so we repeat the first point at the end
-    if periodic:
+    if periodic and coordinates.size > 1:
         # Seperation between the coordinates (assume evenly spaced and repeating)
         d_coord = coordinates[1] - coordinates[0]
         coordinates = np.append(coordinates, coordinates[-1] + d_coord)
-- 
2.43.0


From b1ff9d3af60cb46b13c7822d82374db5622b24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:10 +0000
Subject: [PATCH 074/107] fix: use positive colour limits on a log scale

---
 surface_potential_analysis/util/plot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 77b6938..68b6e39 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -68,8 +68,13 @@ def get_figure(ax: Axes | None) -> tuple[Figure, Axes]:
 
 
 def _get_default_lim(
-    measure: Measure, data: np.ndarray[Any, np.dtype[np.float64]]
+    measure: Measure,
+    data: np.ndarray[Any, np.dtype[np.float64]],
+    scale: Scale = "linear",
 ) -> tuple[float, float]:
+    if scale == "log" and np.any(data > 0):
+        # Only positive values can be shown on a log scale
+        return (float(np.min(data[data > 0])), float(np.max(data)))
     if measure == "abs":
         return (0, float(np.max(data)))
     return (float(np.min(data)), float(np.max(data)))
@@ -79,8 +84,9 @@ def _get_lim(
     lim: tuple[float | None, float | None],
     measure: Measure,
     data: np.ndarray[Any, np.dtype[np.float64]],
+    scale: Scale = "linear",
 ) -> tuple[float, float]:
-    (default_min, default_max) = _get_default_lim(measure, data)
+    (default_min, default_max) = _get_default_lim(measure, data, scale)
     l_max = default_max if lim[1] is None else lim[1]
     l_min = default_min if lim[0] is None else lim[0]
     return (l_min, l_max)
@@ -401,7 +407,7 @@ def plot_data_2d(
         if coordinates is None
         else ax.pcolormesh(*coordinates, measured_data, shading="nearest")  # type: ignore lib
     )
-    clim = _get_lim((None, None), measure, measured_data)
+    clim = _get_lim((None, None), measure, measured_data, scale)
     norm = _get_norm_with_lim(scale, clim)
     mesh.set_norm(norm)
     mesh.set_clim(*clim)
@@ -574,7 +580,7 @@ def build_animation(
     mesh0 = build_frame(0, ax)
     frames = [[build_frame(d, ax)] for d in range(n)]
 
-    clim = _get_lim(clim, measure, np.array([i[0].get_clim() for i in frames]))
+    clim = _get_lim(clim, measure, np.array([i[0].get_clim() for i in frames]), scale)
     norm = _get_norm_with_lim(scale, clim)
     for (mesh,) in frames:
         mesh.set_norm(norm)
-- 
2.43.0


From 1973716bc695e561b57ba324baea883527de75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 075/107] fix: animate through every layer of the surface

---
 surface_potential_analysis/potential/plot.py |  5 ++---
 surface_potential_analysis/util/plot.py      | 11 +++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..da3b014 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -316,10 +316,9 @@ def animate_potential_3d_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
-        potential["basis"],
-        points,
+        converted["basis"],
+        converted["data"],
         axes,
         idx,
         ax=ax,
diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 68b6e39..35235ab 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -633,10 +633,12 @@ def animate_data_through_surface_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     idx = tuple(0 for _ in range(basis.ndim - 3)) if idx is None else idx
-    clim = (0.0, clim[1]) if clim[0] is None and measure == "abs" else clim
 
-    coordinates = get_x_coordinates_in_axes(basis, axes, idx)
-    data_in_axis = get_data_in_axes(data.reshape(basis.shape), axes, idx)
+    basis_x = stacked_basis_as_fundamental_position_basis(basis)
+    converted_data = convert_vector(data.ravel(), basis, basis_x)
+
+    coordinates = get_x_coordinates_in_axes(basis_x, axes, idx)
+    data_in_axis = get_data_in_axes(converted_data.reshape(basis_x.shape), axes, idx)
     measured_data = get_measured_data(data_in_axis, measure)
 
     fig, ax, ani = build_animation(
@@ -645,9 +647,10 @@ def animate_data_through_surface_x(
             measured_data[:, :, i],
             shading="nearest",
         ),
-        data.shape[2],
+        measured_data.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-- 
2.43.0


From 08b5ba8053c884f6090870e727748b236a9e3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 076/107] fix: find the minimum path of the potential in
 position basis

---
 surface_potential_analysis/potential/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index da3b014..031a088 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -439,8 +439,10 @@ def get_minimum_path(
     np.ndarray[tuple[Literal[3], int], np.dtype[np.int_]]
         The complete path after finding the minimum at each coordinate
     """
-    axis = axis % potential["basis"].ndim
-    min_idx = np.argmin(potential["data"].reshape(potential["basis"].shape), axis=axis)
+    converted = convert_potential_to_position_basis(potential)
+    axis = axis % converted["basis"].ndim
+    points = np.real(converted["data"]).reshape(converted["basis"].shape)
+    min_idx = np.argmin(points, axis=axis)
     wrapped = np.ravel_multi_index(path, min_idx.shape, mode="wrap")
     return np.insert(path, axis, min_idx.flat[wrapped], axis=0)
 
-- 
2.43.0


From 4dd9ad969c1ec77952b6b9b08d5d339aeffc63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 077/107] fix: wrap the comparison sites into the unit cell

---
 surface_potential_analysis/potential/_comparison_points.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/_comparison_points.py b/surface_potential_analysis/potential/_comparison_points.py
index e031789..739d3cf 100644
--- a/surface_potential_analysis/potential/_comparison_points.py
+++ b/surface_potential_analysis/potential/_comparison_points.py
@@ -5,20 +5,23 @@ def get_111_comparison_points_x2(
     shape: tuple[int, int], offset: tuple[int, int] = (0, 0)
 ) -> dict[str, tuple[int, int]]:
     (nx0, nx1) = shape
-    return {
+    points = {
         "Top Site": (((2 * nx0) // 3 + offset[0], (2 * nx1) // 3 + offset[1])),
         "Bridge Site": ((nx0 // 6 + offset[0], nx1 // 6 + offset[1])),
         "FCC Site": ((offset[0], offset[1])),
         "HCP Site": ((nx0 // 3 + offset[0], nx1 // 3 + offset[1])),
     }
+    # The potential is periodic, wrap each site into the cell
+    return {k: (x0 % nx0, x1 % nx1) for k, (x0, x1) in points.items()}
 
 
 def get_100_comparison_points_x2(
     shape: tuple[int, int], offset: tuple[int, int] = (0, 0)
 ) -> dict[str, tuple[int, int]]:
     (nx0, nx1) = shape
-    return {
+    points = {
         "Hollow Site": (offset[0], offset[1]),
         "Bridge Site": (nx0 // 2 + offset[0], 0 + offset[1]),
         "Top Site": (nx0 // 2 + offset[0], nx1 // 2 + offset[1]),
     }
+    return {k: (x0 % nx0, x1 % nx1) for k, (x0, x1) in points.items()}
-- 
2.43.0


From 82105f2be7a6a9008a4860aa308fd607cb514c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 078/107] fix: use the shape of the grid when plotting an
 overlap along a path

---
 surface_potential_analysis/overlap/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/overlap/plot.py b/surface_potential_analysis/overlap/plot.py
index eabbf60..f42f98d 100644
--- a/surface_potential_analysis/overlap/plot.py
+++ b/surface_potential_analysis/overlap/plot.py
@@ -172,7 +172,7 @@ def plot_overlap_along_path_k(
     fig, ax = get_figure(ax)
     converted = convert_overlap_to_momentum_basis(overlap)
 
-    points = converted["data"].reshape(converted["basis"].shape)[*path]
+    points = converted["data"].reshape(converted["basis"][0].shape)[*path]
     data = get_measured_data(points, measure)
     distances = calculate_cumulative_k_distances_along_path(
         converted["basis"][0], path, wrap_distances=wrap_distances
@@ -209,7 +209,7 @@ def plot_overlap_along_k_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, i, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, i, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
@@ -244,7 +244,7 @@ def plot_overlap_along_k0(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, k1_ind, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, k1_ind, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
-- 
2.43.0


From b64eaa1afd9f4a0d9ddcffa61b82dd132da6019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 079/107] fix: sample the truncated noise operators

---
 surface_potential_analysis/kernel/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..be755b8 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,20 +306,21 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
     measured_potential -= measured_potential[0]
 
+    fig, ax = get_figure(ax)
     ax.set_ylabel("Energy /J")  # type: ignore library type
 
-    return plot_data_1d_x(
+    fig, ax, line = plot_data_1d_x(
         operators["basis"][1][0],
         measured_potential,
         axes,
@@ -328,6 +329,7 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
         scale=scale,
         measure=measure,
     )
+    return fig, ax, line
 
 
 def plot_noise_operators_single_sample_x(  # noqa: PLR0913
-- 
2.43.0


From bb6642c422302757f905e66756c4f96c6f4dbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 080/107] fix: plot the rates when there are fewer than fifty

---
 .../dynamics/incoherent_propagation/plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
index 5310aec..3105a5b 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
@@ -46,6 +46,6 @@ def plot_rate_decomposition_against_temperature(
     sorted_rates = np.take_along_axis(rate_constants, relevant_rates, axis=-1)[:, ::-1]
 
     coefficients = np.abs([rate.coefficients for rate in rates])
-    for i in range(50):
+    for i in range(min(50, sorted_rates.shape[1])):
         ax.plot(temperatures, sorted_rates[:, i])  # type: ignore lib
     return fig, ax
-- 
2.43.0


From 2fdfc5874f52543add341c6a1166da39a56d80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 081/107] fix: plot the averaged ISF in a pair of time bases

---
 surface_potential_analysis/dynamics/isf_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/isf_plot.py b/surface_potential_analysis/dynamics/isf_plot.py
index 61ac6a4..e705907 100644
--- a/surface_potential_analysis/dynamics/isf_plot.py
+++ b/surface_potential_analysis/dynamics/isf_plot.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, TypeVar
 
+from surface_potential_analysis.basis.stacked_basis import TupleBasis
 from surface_potential_analysis.dynamics.isf import (
     ISF4VariableFit,
     ISFFey4VariableFit,
@@ -102,7 +103,10 @@ def plot_average_isf_against_time(
     """
     averaged = average_eigenvalues(eigenvalues, (0,))
     return plot_isf_against_time(
-        {"basis": averaged["basis"][0][0], "data": averaged["data"]},
+        {
+            "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][0][0]),
+            "data": averaged["data"],
+        },
         ax=ax,
         measure=measure,
         scale=scale,
-- 
2.43.0


From 23e4c5990b195d98aa0e1629f6588659a7d0262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 082/107] fix: measure the averaged values once

---
 surface_potential_analysis/state_vector/plot_value_list.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot_value_list.py b/surface_potential_analysis/state_vector/plot_value_list.py
index a116052..95ad5f8 100644
--- a/surface_potential_analysis/state_vector/plot_value_list.py
+++ b/surface_potential_analysis/state_vector/plot_value_list.py
@@ -303,8 +303,13 @@ def plot_average_value_list_against_time(
         values["basis"].shape
     )
     average_data = np.average(measured_data, axis=0)
+    # the data is already measured
     fig, ax, line = plot_data_1d(
-        average_data, values["basis"][1].times, scale=scale, measure=measure, ax=ax
+        average_data,
+        values["basis"][1].times,
+        scale=scale,
+        measure="abs" if measure == "abs" else "real",
+        ax=ax,
     )
     std_data = np.std(measured_data, axis=0) / np.sqrt(values["basis"].shape[0])
     fill = ax.fill_between(  # type: ignore unkown
-- 
2.43.0


From a073273b573022265d4fc54466bbb4dbcb6f8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 083/107] fix: slice the k points in the plane of the axes

---
 surface_potential_analysis/stacked_basis/plot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 0443cc5..9620f18 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -150,9 +150,13 @@ def plot_fundamental_k_in_plane_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    points = util.fundamental_stacked_k_points.reshape(3, *util.fundamental_shape)[
-        slice_ignoring_axes(idx, axes)
-    ].reshape(3, -1)
+    points = (
+        np.array(util.fundamental_stacked_k_points)
+        .reshape(basis.ndim, *util.fundamental_shape)[
+            slice_ignoring_axes(idx, (0, *[1 + ax for ax in axes]))
+        ]
+        .reshape(basis.ndim, -1)
+    )
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
 
-- 
2.43.0


From 47c58e3aaab6727ff61d9b310f2e1a1471d9b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 084/107] fix: plot the x point at an index

---
 surface_potential_analysis/stacked_basis/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 9620f18..33a5d86 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -260,7 +260,7 @@ def plot_fundamental_x_at_index_projected_2d(
     util = BasisUtil(basis)
     idx = idx if isinstance(idx, tuple) else util.get_stacked_index(idx)
     points = (
-        np.array(util.fundamental_stacked_nx_points, dtype=np.float64)
+        np.array(util.fundamental_x_points_stacked)
         .reshape(util.ndim, *util.fundamental_shape)[:, *idx]
         .reshape(util.ndim, -1)
     )
-- 
2.43.0


From 70c5eef644733552d055d10f10e89adf49fee73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 085/107] fix: plot the diagonal of an operator on the given
 axes

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..57d15c8 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        scale=scale,
+        measure=measure,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From 4ce12f156c2c69301b9728a79e811a06678123ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 086/107] fix: a stacked basis with no axes has one state

---
 surface_potential_analysis/basis/stacked_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/basis/stacked_basis.py b/surface_potential_analysis/basis/stacked_basis.py
index f69a114..f729e79 100644
--- a/surface_potential_analysis/basis/stacked_basis.py
+++ b/surface_potential_analysis/basis/stacked_basis.py
@@ -52,11 +52,11 @@ class StackedBasisLike(BasisLike[_FN0_co, _N0_co], Protocol[_N0_co, _FN0_co, _ND
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=np.int_).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=np.int_).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
@@ -81,11 +81,11 @@ class StackedBasisWithVolumeLike(
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=np.int_).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=np.int_).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From e9ac4ca20460091d76d8edd37c9abd1c169c1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 087/107] fix: plotting occupations leaves the eigenvalues as
 they were

---
 .../state_vector/eigenvalue_list_plot.py                       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ef551dc 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -99,8 +99,7 @@ def plot_eigenstate_occupations(
     """
     fig, ax = get_figure(ax)
 
-    energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = eigenstates["eigenvalue"] - np.min(eigenstates["eigenvalue"])
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From 92d16b7e4e68b0c21d51676d6dfc0205241f1a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 088/107] fix: positions and momenta along an axis of a plane
 or of space

---
 surface_potential_analysis/state_vector/plot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..6fd3e83 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -989,10 +989,11 @@ def _get_average_x_periodic(
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
     periodic_x = _get_periodic_x(states, direction)
     angle = np.angle(periodic_x["data"]) % (2 * np.pi)
+    delta_x = np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
 
     return {
         "basis": periodic_x["basis"],
-        "data": (angle * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)),
+        "data": angle * delta_x / (2 * np.pi),
     }
 
 
@@ -1008,12 +1009,11 @@ def _get_restored_x(
     unravelled = np.unwrap(
         np.angle(periodic_x["data"].reshape(states["basis"][0].shape)), axis=1
     )
+    delta_x = np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
 
     return {
         "basis": periodic_x["basis"],
-        "data": (
-            unravelled * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)
-        ).ravel(),
+        "data": (unravelled * delta_x / (2 * np.pi)).ravel(),
     }
 
 
@@ -1067,7 +1067,8 @@ def _get_x_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_x, basis_x),
-            "data": util.dx_stacked[axis] * util.stacked_nx_points[axis],
+            "data": np.linalg.norm(util.dx_stacked[axis])
+            * util.stacked_nx_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1282,7 +1283,8 @@ def _get_k_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_k, basis_k),
-            "data": util.dk_stacked[axis] * util.stacked_nk_points[axis],
+            "data": np.linalg.norm(util.dk_stacked[axis])
+            * util.stacked_nk_points[axis],
         },
         TupleBasis(basis, basis),
     )
-- 
2.43.0


From a988fd350cdddfbda4d2d2d36b3faef09ac2dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 089/107] fix: spread of states leaves the states as they were

---
 .../state_vector/plot.py                       | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 6fd3e83..8fadc92 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1123,6 +1123,14 @@ def plot_averaged_occupation_1d_x(
     return fig, ax
 
 
+def _get_normalized_states(
+    states: StateVectorList[_B0Inv, _SBV0],
+) -> StateVectorList[_B0Inv, _SBV0]:
+    data = states["data"].reshape(states["basis"].shape)
+    normalized = data / np.linalg.norm(data, axis=1)[:, np.newaxis]
+    return {"basis": states["basis"], "data": normalized.ravel()}
+
+
 def _get_x_spread(
     states: StateVectorList[
         _B0Inv,
@@ -1152,11 +1160,7 @@ def _get_x_spread(
     """
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
-    data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
@@ -1184,7 +1188,7 @@ def get_coherent_coordinates(
     """
     sigma_0 = _get_x_spread(states, axis)
     x0 = _get_average_x_periodic(states, axis)
-    k0 = _get_average_k(states, axis)
+    k0 = _get_average_k(_get_normalized_states(states), axis)
     return {
         "basis": TupleBasis(
             FundamentalBasis[Literal[3]](3),
@@ -1369,7 +1373,7 @@ def plot_spread_against_k(
     fig, ax = get_figure(ax)
 
     spread_x = _get_x_spread(states, axes[0])
-    k = _get_average_k(states, axes[0])
+    k = _get_average_k(_get_normalized_states(states), axes[0])
 
     ax.plot(k["data"], spread_x["data"])  # type: ignore unknown
 
-- 
2.43.0


From f6d49bea12ed9f3b3cbebd5491088cabf1ea3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 090/107] fix: spread of a state at a single point is zero

---
 surface_potential_analysis/state_vector/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 8fadc92..5ab90ce 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1161,7 +1161,8 @@ def _get_x_spread(
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
     periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
-    norm = np.abs(periodic_x["data"])
+    # rounding can lift the average of a localized state above one
+    norm = np.minimum(np.abs(periodic_x["data"]), 1)
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
 
-- 
2.43.0


From 164eb76caaa79b4167c407cc8d711c922e8a865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 091/107] fix: average ISF of positions is not conjugated

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 5ab90ce..ef5e5a0 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1601,7 +1601,7 @@ def get_average_isf(
 
     # convolution_j = \sum_i^N-j e^(ik.x_i+j) e^(-ik.x_i)
     convolution = np.apply_along_axis(
-        lambda m: _calculate_total_offsset_multiplications_complex(np.conj(m), m),
+        lambda m: _calculate_total_offsset_multiplications_complex(m, np.conj(m)),
         axis=1,
         arr=exp_positions,
     )
-- 
2.43.0


From 104ce75fa39a9125386c2c48c0f63a17db52e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 092/107] fix: average drift along the given axis

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index ef5e5a0..3c7a5de 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1722,7 +1722,7 @@ def plot_average_drift_1d_x(
     tuple[Figure, Axes, Line2D]
     """
     restored_x = _get_restored_x(states, axes[0])
-    k_points = _get_average_k(states, axis=0)
+    k_points = _get_average_k(states, axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
     return plot_average_value_list_against_time(
-- 
2.43.0


From 3a0ec0e39533a5a694703c6b5b13f44017195bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 093/107] fix: effective mass of localized states does not grow
 with the supercell

---
 surface_potential_analysis/wavepacket/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 103be79..e9efb99 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -636,10 +636,11 @@ def get_wavepacket_localized_effective_mass(
     free_energy = _get_free_energy(wavefunctions["basis"][1], nx_points, axis)
     # By integrating explicitly we find
     # |E(\Delta x)| = (\Delta x)^{-3}(8\pi N + 4 \pi)
-    # we add an additional np.sqrt(wavepacket["basis"][0][1].n) * delta_x / (2 * np.pi)
-    # to account for the difference in fourier transform definitions
+    # we add an additional delta_x / (2 * np.pi) to account for the difference
+    # in fourier transform definitions. The matrix elements between localized
+    # states are the average over the wavevectors, so there is no factor of sqrt(n)
     delta_x = np.linalg.norm(wavefunctions["basis"][1].delta_x_stacked[axis])
-    norm = np.sqrt(wavefunctions["basis"][0][1].n) * delta_x / (2 * np.pi)
+    norm = delta_x / (2 * np.pi)
     norm *= hbar**2 / 2
     effective_mass = norm * free_energy / actual_energy
     return {"basis": wavefunctions["basis"][0][0], "data": effective_mass}
-- 
2.43.0


From e88daaded8305fa298414c416fb4e8772ec944d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 094/107] fix: band occupations depend only on differences of
 energy

---
 surface_potential_analysis/wavepacket/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index e9efb99..3fdb25a 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -1105,7 +1105,8 @@ def get_wavepacket_band_occupation(
     ValueList[_B0]
     """
     eigenvalues = wavepacket["eigenvalue"].reshape(*wavepacket["basis"][0].shape)
-    occupations = np.exp(-eigenvalues / (temperature * Boltzmann))
+    energies = eigenvalues - np.min(np.real(eigenvalues))
+    occupations = np.exp(-energies / (temperature * Boltzmann))
     occupation_for_band = np.sum(occupations, axis=1) / np.sum(occupations)
     return {"basis": wavepacket["basis"][0][0], "data": occupation_for_band.ravel()}
 
-- 
2.43.0


From c4857098938be756e77290d02e1bcb5088e4c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 095/107] fix: isf fits do not start from the initial guess and
 stop there

---
 surface_potential_analysis/dynamics/isf.py | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/surface_potential_analysis/dynamics/isf.py b/surface_potential_analysis/dynamics/isf.py
index 4e8e6f6..1a9e7e6 100644
--- a/surface_potential_analysis/dynamics/isf.py
+++ b/surface_potential_analysis/dynamics/isf.py
@@ -176,19 +176,23 @@ def fit_isf_to_double_exponential(
         c: np.ndarray[Any, Any],
         d: np.ndarray[Any, Any],
     ) -> np.ndarray[Any, Any]:
-        return a * np.exp(-(b) * t) + c * np.exp(-(d) * t) + (1 - a - c)
+        # Rates are fitted relative to the initial guess
+        # otherwise the gradients are too small for the fit to progress
+        fast, slow = b * 2e10, d * 1e10
+        return a * np.exp(-fast * t) + c * np.exp(-slow * t) + (1 - a - c)
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
         isf["basis"][0].times,
         data,
-        p0=(0.5, 2e10, 0.5, 1e10),
+        p0=(0.5, 1, 0.5, 1),
         bounds=([0, 0, 0, 0], [1, np.inf, 1, np.inf]),
+        maxfev=10000,
     )
     return ISF4VariableFit(
-        params[1],  # type: ignore lib
+        params[1] * 2e10,  # type: ignore lib
         params[0],  # type: ignore lib
-        params[3],  # type: ignore lib
+        params[3] * 1e10,  # type: ignore lib
         params[2],  # type: ignore lib
         1 - params[0] - params[2],  # type: ignore lib
     )
@@ -437,6 +441,7 @@ def fit_isf_to_fey_4_variable_model_110(
         times[valid_times],
         data[valid_times],
         p0=(1.4e9, 0.2, 0.7e9, 0.8, 0.05),
+        x_scale=(1.4e9, 0.2, 0.7e9, 0.8, 0.05),
         bounds=([0, 0, 0, 0, 0], [np.inf, np.inf, np.inf, np.inf, 0.2]),
         maxfev=10000,
     )
@@ -595,16 +600,19 @@ def fit_isf_to_fey_model_110(
         f: float,
         s: float,
     ) -> np.ndarray[Any, Any]:
-        return calculate_isf_fey_model_110(t, f, s, a_dk=a_dk)
+        # Rates are fitted relative to the initial guess
+        # otherwise the gradients are too small for the fit to progress
+        return calculate_isf_fey_model_110(t, f * 1.4e9, s * 3e8, a_dk=a_dk)
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
         isf["basis"][0].times,
         data,
-        p0=(1.4e9, 3e8),
+        p0=(1, 1),
         bounds=([0, 0], [np.inf, np.inf]),
+        maxfev=10000,
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(params[0] * 1.4e9, params[1] * 3e8, a_dk=a_dk)  # type: ignore lib
 
 
 def fit_isf_to_fey_model_112bar(
@@ -632,13 +640,16 @@ def fit_isf_to_fey_model_112bar(
         f: float,
         s: float,
     ) -> np.ndarray[Any, Any]:
-        return calculate_isf_fey_model_112bar(t, f, s, a_dk=a_dk)
+        # Rates are fitted relative to the initial guess
+        # otherwise the gradients are too small for the fit to progress
+        return calculate_isf_fey_model_112bar(t, f * 2e10, s * 1e10, a_dk=a_dk)
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
         isf["basis"][0].times,
         data,
-        p0=(2e10, 1e10),
+        p0=(1, 1),
         bounds=([0, 0], [np.inf, np.inf]),
+        maxfev=10000,
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(params[0] * 2e10, params[1] * 1e10, a_dk=a_dk)  # type: ignore lib
-- 
2.43.0


From c4ded8acfb1c181060ddb3f567e2489a45a130f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 096/107] fix: spectra of values at steps other than one start
 at the right time

---
 .../state_vector/plot_value_list.py           | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot_value_list.py b/surface_potential_analysis/state_vector/plot_value_list.py
index 95ad5f8..56cdc5f 100644
--- a/surface_potential_analysis/state_vector/plot_value_list.py
+++ b/surface_potential_analysis/state_vector/plot_value_list.py
@@ -127,11 +127,11 @@ def plot_value_list_against_frequency(
     -------
     tuple[Figure, Axes, Line2D]
     """
-    rolled = np.roll(values["data"], values["basis"].offset)
-    shifted_data = np.fft.fftshift(np.fft.fft(rolled))
-    shifted_coordinates = np.fft.fftshift(
-        np.fft.fftfreq(values["basis"].n, values["basis"].dt)
-    )
+    frequencies = np.fft.fftfreq(values["basis"].n, values["basis"].dt)
+    # The values start at times[0], which need not be a multiple of dt
+    phases = np.exp(-2j * np.pi * frequencies * values["basis"].times[0])
+    shifted_data = np.fft.fftshift(phases * np.fft.fft(values["data"]))
+    shifted_coordinates = np.fft.fftshift(frequencies)
 
     fig, ax, line = plot_data_1d(
         shifted_data,
@@ -212,16 +212,13 @@ def plot_split_value_list_against_frequency(
     """
     fig, ax = get_figure(ax)
 
-    rolled = np.roll(
-        values["data"].reshape(values["basis"].shape),
-        values["basis"][1].offset,
-        axis=(1,),
-    )
-    transformed = np.fft.fftshift(np.fft.fft(rolled, axis=1), axes=(1,))
+    stacked = values["data"].reshape(values["basis"].shape)
+    frequencies = np.fft.fftfreq(values["basis"][1].n, values["basis"][1].dt)
+    # The values start at times[0], which need not be a multiple of dt
+    phases = np.exp(-2j * np.pi * frequencies * values["basis"][1].times[0])
+    transformed = np.fft.fftshift(phases * np.fft.fft(stacked, axis=1), axes=(1,))
 
-    shifted_coordinates = np.fft.fftshift(
-        np.fft.fftfreq(values["basis"][1].n, values["basis"][1].dt)
-    )
+    shifted_coordinates = np.fft.fftshift(frequencies)
 
     cumulative = np.cumsum(transformed, axis=0)
     for band_data in cumulative:
-- 
2.43.0


From 7c2370fcc1c3ac91b0dad5635408dc62826204fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 097/107] fix: project x points along the axes of a basis with
 integer lengths

---
 surface_potential_analysis/stacked_basis/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index e9449a3..e0ea731 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -154,7 +154,10 @@ def project_x_points_along_axes(
     for i, ax in enumerate(axes):
         projected = util.delta_x_stacked[ax]
         for j in range(i):
-            projected -= projected_axes[j] * np.dot(projected_axes[j], projected)
+            # The lengths of the basis may be integers
+            projected = projected - projected_axes[j] * np.dot(
+                projected_axes[j], projected
+            )
 
         projected_axes[i] = projected / np.linalg.norm(projected)
 
-- 
2.43.0


From ef44af1ed4059bf79a402fde5aec3c30a8f6991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 098/107] fix: taylor expansions of noise stop at a coefficient
 which vanishes

---
 surface_potential_analysis/kernel/solve/_taylor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 1f25640..cadcc2f 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -58,12 +58,11 @@ def _get_cos_coefficients_for_taylor_series(
 ) -> np.ndarray[tuple[int, int], np.dtype[np.float64]]:
     n_terms = polynomial_coefficients.size if n_terms is None else n_terms
 
-    atol = 1e-8 * np.max(polynomial_coefficients).item()
-    is_nonzero = np.isclose(polynomial_coefficients, 0, atol=atol)
-    first_nonzero = np.argmax(is_nonzero)
-    if first_nonzero == 0 and is_nonzero.item(0) is False:
-        first_nonzero = is_nonzero.size
-    n_nonzero_terms = min(first_nonzero, n_terms)
+    # Only the coefficients past the last non-zero coefficient are not required
+    atol = 1e-8 * np.max(np.abs(polynomial_coefficients)).item()
+    is_zero = np.isclose(polynomial_coefficients, 0, atol=atol)
+    n_nonzero_terms = min(is_zero.size - np.argmin(is_zero[::-1]).item(), n_terms)
+    n_nonzero_terms = 0 if np.all(is_zero) else n_nonzero_terms
     polynomial_coefficients = polynomial_coefficients[:n_nonzero_terms]
 
     i = np.arange(0, n_nonzero_terms).reshape(1, -1)
-- 
2.43.0


From 284450d720de3d3fa2c516daa5e4c17d23813a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 099/107] fix: real isotropic kernels with rounding errors are
 refused

---
 surface_potential_analysis/kernel/solve/_fft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index 98f0d13..e9d9100 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -227,7 +227,9 @@ def get_periodic_noise_operators_real_isotropic_fft(
     -------
     SingleBasisDiagonalNoiseOperatorList[FundamentalBasis[int], FundamentalBasis[int]]
     """
-    np.testing.assert_allclose(np.imag(kernel["data"]), 0)
+    np.testing.assert_allclose(
+        np.imag(kernel["data"]), 0, atol=1e-8 * np.max(np.abs(kernel["data"])).item()
+    )
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
-- 
2.43.0


From 84b708cd455349e0eef46ed9605a82c3e220f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 100/107] fix: vectors of large values are refused by the basis
 of a wavepacket

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index cf43efd..a3becfb 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -638,7 +638,7 @@ class BlochBasis(
                 ExplicitStackedBasisWithLength(self.vectors).__from_fundamental__(
                     vectors, axis
                 ),
-                atol=1e-10,
+                atol=1e-10 * max(1, np.max(np.abs(vectors), initial=0)),
             )
 
         return np.apply_along_axis(
@@ -738,7 +738,7 @@ class BlochBasis(
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
                 ),
-                atol=1e-10,
+                atol=1e-10 * max(1, np.max(np.abs(vectors), initial=0)),
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-- 
2.43.0


From 7a915387fb40df7d33ba7a49b094a9635c3609c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 101/107] fix: the schrodinger equation is solved in units
 where rounding errors exceed 1e-6

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 19c4e7d..fddd3c1 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -99,18 +99,20 @@ def solve_schrodinger_equation_decomposition(
     StateVectorList[_B0Inv, _L0Inv]
     """
     eigenstates = calculate_eigenvectors_hermitian(hamiltonian)
-    np.testing.assert_array_almost_equal(
+    np.testing.assert_allclose(
         hamiltonian["data"].reshape(hamiltonian["basis"].shape),
         np.conj(hamiltonian["data"].reshape(hamiltonian["basis"].shape)).T,
+        atol=1e-6 * np.max(np.abs(hamiltonian["data"])).item(),
     )
     coefficients = get_state_vector_decomposition(initial_state, eigenstates)
-    np.testing.assert_array_almost_equal(
+    np.testing.assert_allclose(
         np.tensordot(
             coefficients["data"],
             eigenstates["data"].reshape(eigenstates["basis"].shape),
             axes=(0, 0),
         ),
         initial_state["data"],
+        atol=1e-6 * np.max(np.abs(initial_state["data"])).item(),
     )
     constants = coefficients["data"][np.newaxis, :] * np.exp(
         -1j
-- 
2.43.0


From 43982c1a5c714e7255aa46fa5a9f17927505b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 102/107] fix: noise sampled from a diagonal kernel is declared
 as the diagonal operators it is

---
 surface_potential_analysis/kernel/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/sample.py b/surface_potential_analysis/kernel/sample.py
index f1b4ea4..ecb6c24 100644
--- a/surface_potential_analysis/kernel/sample.py
+++ b/surface_potential_analysis/kernel/sample.py
@@ -170,7 +170,7 @@ def sample_noise_from_diagonal_kernel(
     *,
     n_samples: int,
     truncation: Iterable[int] | None,
-) -> OperatorList[FundamentalBasis[int], _B0, _B1]:
+) -> DiagonalOperatorList[FundamentalBasis[int], _B0, _B1]:
     """Generate noise for a diagonal kernel.
 
     Parameters
@@ -181,7 +181,7 @@ def sample_noise_from_diagonal_kernel(
 
     Returns
     -------
-    OperatorList[FundamentalBasis[int], _B0, _B1]
+    DiagonalOperatorList[FundamentalBasis[int], _B0, _B1]
         _description_
     """
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
-- 
2.43.0


From f4fd1290a9287da863297aef35dcea35e59c349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 103/107] fix: the hamiltonian of the Wannier states is
 declared as the full operator it is

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index a3becfb..1bf5751 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -78,7 +78,10 @@ from surface_potential_analysis.wavepacket.wavepacket import (
 
 if TYPE_CHECKING:
     from surface_potential_analysis.basis.basis import FundamentalPositionBasis
-    from surface_potential_analysis.operator.operator import SingleBasisDiagonalOperator
+    from surface_potential_analysis.operator.operator import (
+        SingleBasisDiagonalOperator,
+        SingleBasisOperator,
+    )
     from surface_potential_analysis.operator.operator_list import (
         OperatorList,
         SingleBasisDiagonalOperatorList,
@@ -969,7 +972,7 @@ def get_wannier_hamiltonian(
 def get_full_wannier_hamiltonian(
     wavefunctions: BlochWavefunctionListWithEigenvaluesList[_B2, _SB0, _SBV0],
     operator: LocalizationOperator[_SB0, _B1, _B2],
-) -> SingleBasisDiagonalOperator[
+) -> SingleBasisOperator[
     ExplicitStackedBasisWithLength[
         TupleBasisLike[_B1, _SB0],
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
@@ -980,7 +983,7 @@ def get_full_wannier_hamiltonian(
 
     Returns
     -------
-    SingleBasisDiagonalOperator[
+    SingleBasisOperator[
     ExplicitStackedBasisWithLength[
         TupleBasisLike[_B0, _SB0],
         TupleBasisLike[*tuple[FundamentalTransformedPositionBasis[Any, Any], ...]],
-- 
2.43.0


From 29cef634c91313bd51ea69a01245ad040ea9116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 104/107] fix: linear noise operators have one eigenvalue each

---
 surface_potential_analysis/kernel/solve/_taylor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index cadcc2f..ac1801b 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -146,10 +146,15 @@ def get_linear_noise_operators_explicit_taylor_expansion(
     """
     data = _get_linear_operators_for_noise(basis, n_terms=n_terms)
 
+    # terms past the end of the polynomial are zero
+    coefficients = np.zeros(data["basis"][0].n, dtype=np.complex128)
+    given = polynomial_coefficients[: coefficients.size]
+    coefficients[: given.size] = given
+
     return {
         "basis": data["basis"],
         "data": data["data"].astype(np.complex128),
-        "eigenvalue": polynomial_coefficients.astype(np.complex128),
+        "eigenvalue": coefficients,
     }
 
 
-- 
2.43.0


From bb3e3dbdde74cad941cf0323f4b303313a8a928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 105/107] fix: displacements are the shortest ones in lattices
 which are not orthogonal

---
 surface_potential_analysis/operator/build.py | 69 +++++++++-----------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index 5aa7b30..e1ecc50 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from itertools import product
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -16,6 +17,7 @@ from surface_potential_analysis.operator.operator_list import (
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_position_basis,
 )
+from surface_potential_analysis.stacked_basis.util import wrap_x_point_around_origin
 
 if TYPE_CHECKING:
     from surface_potential_analysis.basis.basis import (
@@ -32,7 +34,6 @@ if TYPE_CHECKING:
     )
     from surface_potential_analysis.operator.operator import (
         Operator,
-        SingleBasisOperator,
     )
     from surface_potential_analysis.state_vector.eigenstate_list import ValueList
     from surface_potential_analysis.types import FloatLike_co
@@ -77,19 +78,22 @@ def get_displacements_x(
     return {"basis": basis_x, "data": data.astype(np.complex128)}
 
 
-def _get_displacements_x_along_axis(
-    basis: StackedBasisWithVolumeLike[Any, Any, Any],
-    origin: float,
-    axis: int,
-) -> ValueList[
-    TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
-]:
-    basis_x = stacked_basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points_stacked[axis] - np.real(origin)
-    delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
-    max_distance = delta_x / 2
-    data = _wrap_displacements(distances, max_distance)
-    return {"basis": basis_x, "data": data.astype(np.complex128)}
+def _get_shortest_displacements(
+    basis: TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
+    displacements: np.ndarray[Any, np.dtype[np.float64]],
+) -> np.ndarray[Any, np.dtype[np.float64]]:
+    # The shortest of the displacements which are equivalent in the lattice
+    wrapped = wrap_x_point_around_origin(basis, displacements)
+    out, length = wrapped, np.linalg.norm(wrapped, axis=0)
+    # The lattice need not be orthogonal
+    for image in product((-1, 0, 1), repeat=basis.ndim):
+        shift = np.tensordot(image, BasisUtil(basis).delta_x_stacked, axes=(0, 0))
+        shifted = wrapped + shift.reshape(-1, *(1 for _ in length.shape))
+        shifted_length = np.linalg.norm(shifted, axis=0)
+        is_shorter = shifted_length < length * (1 - 1e-9)
+        out = np.where(is_shorter, shifted, out)
+        length = np.where(is_shorter, shifted_length, length)
+    return out
 
 
 def get_displacements_x_stacked(
@@ -101,10 +105,10 @@ def get_displacements_x_stacked(
     ...,
 ]:
     """Get the displacements from origin."""
-    return tuple(
-        _get_displacements_x_along_axis(basis, o, axis)
-        for (axis, o) in enumerate(origin)
-    )
+    basis_x = stacked_basis_as_fundamental_position_basis(basis)
+    distances = BasisUtil(basis_x).x_points_stacked - np.real(origin)[:, np.newaxis]
+    data = _get_shortest_displacements(basis_x, distances)
+    return tuple({"basis": basis_x, "data": d.astype(np.complex128)} for d in data)
 
 
 def get_displacements_matrix_nx_stacked(
@@ -182,23 +186,6 @@ def get_displacements_matrix_x(
     return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
 
 
-def _get_displacements_matrix_x_along_axis(
-    basis: StackedBasisWithVolumeLike[Any, Any, Any],
-    origin: float = 0,
-    *,
-    axis: int,
-) -> SingleBasisOperator[
-    TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
-]:
-    basis_x = stacked_basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points_stacked[axis]
-    distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
-    delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
-    max_distance = delta_x / 2
-    data = _wrap_displacements(distances, max_distance)
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
-
-
 def get_displacements_matrix_x_stacked(
     basis: StackedBasisWithVolumeLike[Any, Any, Any], origin: tuple[float, ...] | None
 ) -> SingleBasisOperatorList[
@@ -207,11 +194,15 @@ def get_displacements_matrix_x_stacked(
 ]:
     """Get the displacements from origin."""
     origin = tuple(0.0 for _ in basis.shape) if origin is None else origin
+    basis_x = stacked_basis_as_fundamental_position_basis(basis)
+    x_points = BasisUtil(basis_x).x_points_stacked
+    distances = x_points[:, :, np.newaxis] - x_points[:, np.newaxis, :]
+    data = _get_shortest_displacements(
+        basis_x, distances - np.real(origin)[:, np.newaxis, np.newaxis]
+    )
+    basis_xx = TupleBasis(basis_x, basis_x)
     return operator_list_from_iter(
-        tuple(
-            _get_displacements_matrix_x_along_axis(basis, o, axis=axis)
-            for (axis, o) in enumerate(origin)
-        )
+        tuple({"basis": basis_xx, "data": d.astype(np.complex128)} for d in data)
     )
 
 
-- 
2.43.0


From b0be9811ed8d36cd68bb798b7150cd78d40e4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 106/107] fix: noise operators of a gaussian kernel reproduce
 it in lattices which are not orthogonal

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index 82cfdc4..ca1ea16 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -30,7 +30,7 @@ from surface_potential_analysis.kernel.kernel import (
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
-    get_periodic_noise_operators_real_isotropic_stacked_fft,
+    get_periodic_noise_operators_isotropic_stacked_fft,
 )
 from surface_potential_analysis.kernel.solve._taylor import (
     get_linear_noise_operators_explicit_taylor_expansion,
@@ -300,7 +300,7 @@ def get_gaussian_noise_operators_periodic(
     """
     kernel = get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
 
-    operators = get_periodic_noise_operators_real_isotropic_stacked_fft(kernel)
+    operators = get_periodic_noise_operators_isotropic_stacked_fft(kernel)
     truncation = range(operators["basis"][0].n) if truncation is None else truncation
     return truncate_diagonal_noise_operator_list(operators, truncation=truncation)
 
-- 
2.43.0


From 0fcb037d8101d19d9811160b0ef83a3532aecd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 107/107] fix: the title of the average occupation counts the
 repeats

---
 surface_potential_analysis/dynamics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/plot.py b/surface_potential_analysis/dynamics/plot.py
index f23a24b..24aee1a 100644
--- a/surface_potential_analysis/dynamics/plot.py
+++ b/surface_potential_analysis/dynamics/plot.py
@@ -104,7 +104,7 @@ def plot_average_probability_per_band(
 
     ax.set_title(  # type: ignore lib
         "Plot of occupation of each band against time,\n"
-        f"averaged over {len(probability)} repeats"
+        f"averaged over {probability['basis'][0].shape[0]} repeats"
     )
     return fig, ax, lines
 
-- 
2.43.0

