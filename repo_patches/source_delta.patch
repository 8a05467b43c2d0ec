From da1269f28510d383c4be3cf92cb34d0ef8b2b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 01/32] fix: veronis uses np.trapz, which NumPy 2.x removed

Every call to veronis raised AttributeError / TypingError with current NumPy.
---
 neutralocean/label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..7fc1f16 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,7 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+    return 0.5 * np.sum((y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From 22bd6ae152ea2fd369edb0a21ce4c2103f9f07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 02/32] fix: graph.build_grid rejects a dict of sparse matrices

scipy.linalg.issymmetric only accepts dense arrays, but sparse matrices are the
documented input.
---
 neutralocean/grid/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..624d7ed 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -261,7 +261,7 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if (A != A.T).nnz == 0 if issparse(A) else issymmetric(A):
         return triu(A)
     else:
         return A
-- 
2.43.0


From 6687adb3a77377bb3cd3aff1a2c75e0fc271014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 03/32] fix: tripolar.build_grid rejects padded (nj+1, ni+2)
 distances

The padding must be trimmed before broadcasting to (nj, ni), not after.
---
 neutralocean/grid/tripolar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..f91368b 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -145,12 +145,12 @@ def _build_edgedata(dims, data):
 
     nj, ni = dims
     v, u = data
+    if np.shape(v) == (nj + 1, ni + 2):
+        v = np.asarray(v)[:-1, 1:-1]
+    if np.shape(u) == (nj + 1, ni + 2):
+        u = np.asarray(u)[:-1, 1:-1]
     v = np.broadcast_to(v, dims)
     u = np.broadcast_to(u, dims)
-    if v.shape == (nj + 1, ni + 2):
-        v = v[:-1, 1:-1]
-    if u.shape == (nj + 1, ni + 2):
-        u = u[:-1, 1:-1]
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From 0dea140dbd01baeff6f6baf872b01a438fa4240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 04/32] fix: xgcm.build_grid fails with current xgcm

xgcm replaced `periodic=False` and `boundary` by `padding`, its metadata
autoparsing conflicts with the explicit coords given here, and it no longer lets
one dimension sit at several positions of an axis.
---
 neutralocean/grid/xgcm.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..51b6a4e 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -224,11 +224,12 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
     coords = {"i": np.arange(n), "j": np.arange(n), tile: np.arange(nf)}
     grid = xgcm.Grid(
         xr.Dataset(None, coords),
-        periodic=False,
+        padding="fill",
         face_connections=face_connections,
+        autoparse_metadata=False,
         coords={
-            "X": {"center": "i", "left": "i", "right": "i"},
-            "Y": {"center": "j", "left": "j", "right": "j"},
+            "X": {"center": "i"},
+            "Y": {"center": "j"},
         },
     )
 
@@ -252,8 +253,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -266,8 +267,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -285,8 +286,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -304,8 +305,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
-- 
2.43.0


From 9a4f015bf6954a895dc558787d9083d80e1bed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 05/32] fix: xgcm.build_grid scrambles neighbours for
 ysh='right' or dims other than (tile, j, i)

The grid ufunc puts the dimension it acts on last; only the ysh='left' result was
transposed back.
---
 neutralocean/grid/xgcm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 51b6a4e..4174f89 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -291,11 +291,6 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
-        # Must ensure same ordering of dimensions as idx.  Currently, this
-        # one gets its dimensions reordered by the grid ufunc, probably
-        # because it reorders things to act on the last dimension...?
-        jm1 = jm1.transpose(*idx.dims)
-
     else:  # right
         # jm1 = grid.axes["Y"]._neighbor_binary_func(
         #     idx, lambda a, b: b, to="right", boundary="fill", fill_value=-1
@@ -310,4 +305,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
+    # Must ensure same ordering of dimensions as idx.  The grid ufunc reorders
+    # the dimensions, putting the one it acts on last.
+    im1, jm1 = (x.transpose(*idx.dims) for x in (im1, jm1))
+
     return im1, jm1
-- 
2.43.0


From 2acd2a52c21c91f78b43b2541eba0b29642ed04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 06/32] fix: xgcm.build_grid pairs i-direction edges with
 j-direction distances

The first N edges are the i-direction neighbours but were given dyC / dxG, and
the second N the converse.  Also broadcast the distances, so that the documented
float (and default) values work.
---
 neutralocean/grid/xgcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 4174f89..afe5d21 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,14 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = np.broadcast_to(dxC, im1.shape).reshape(-1)
+    dist[N:] = np.broadcast_to(dyC, im1.shape).reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[:N] = np.broadcast_to(dyG, im1.shape).reshape(-1)  # same place as dxC
+    distperp[N:] = np.broadcast_to(dxG, im1.shape).reshape(-1)  # same place as dyC
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From 5a6128895cc74d9a7a15ab20f6451478ad004298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 07/32] fix: pin_p overwrote the surface though ref and isoval
 were both given

The documentation says pin_cast and pin_p are not used in that case, but the
surface at pin_cast was moved to pin_p, off the requested isosurface.
---
 neutralocean/surface/isopycnal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..849b810 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -366,6 +366,10 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     if diags and not (isinstance(grid, dict) and "edges" in grid):
         raise ValueError("grid['edges'] must be provided when diags is True")
 
+    # pin_cast and pin_p are not used if both ref and isoval are given
+    if ref is not None and isoval is not None:
+        pin_cast = pin_p = None
+
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
-- 
2.43.0


From 81172c2dc1daea87d4857f89826f6ff745b57e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 08/32] fix: omega_surf and ntp_epsilon_errors_norms need the
 optional dist and distperp

Both are documented to default to 1.0, and to be given as lists, but their
absence raised KeyError and lists raised TypeError.
---
 neutralocean/ntp.py           | 9 +++++----
 neutralocean/surface/omega.py | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..4e1e10b 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -108,8 +108,9 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
-
+    dist = np.asarray(grid.get("dist", 1.0))
+    distperp = np.asarray(grid.get("distperp", 1.0))
+    area = dist * distperp  # Area [m^2] centred on edges
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
     # L1 norm of vector [a_i], weighted by vector [w_i], is sum( w_i * |a_i| ) / sum( w_i )
@@ -124,8 +125,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..8fb04fc 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,9 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = np.asarray(grid.get("distperp", 1.0)) / np.asarray(
+        grid.get("dist", 1.0)
+    )
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
-- 
2.43.0


From c473cd2cdf408ea2e64d9adda8ae057a3dbdd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 09/32] fix: omega_surf rejects edges given as a tuple of
 tuples or lists

docs/grids.rst documents that form, but it raised TypeError.
---
 neutralocean/ntp.py           | 3 ++-
 neutralocean/surface/omega.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index 4e1e10b..7420a05 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -42,7 +42,8 @@ def ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None):
     eos_s_t = make_eos_s_t(eos_s_t, grav, rho_c)
 
     s, t, p = (np.reshape(xr_to_np(x), -1) for x in (s, t, p))
-    e = _ntp_epsilon_error1(s, t, p, edges[0], edges[1], eos_s_t)
+    a, b = (np.asarray(x) for x in edges)
+    e = _ntp_epsilon_error1(s, t, p, a, b, eos_s_t)
 
     if dist is not float or dist != 1.0:
         e = e / dist
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 8fb04fc..ab82327 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -257,7 +257,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     p_ml = np.reshape(p_ml, -1)
 
     # Pre-calculate grid adjacency needed for Breadth First Search
-    edges = grid["edges"]
+    edges = tuple(np.asarray(x) for x in grid["edges"])
     indptr, indices = edges_to_csr(edges, N)
     bfsargs = (
         indptr,
-- 
2.43.0


From a29e89c1ad51f48843fcdc0e678ce2139ad3c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 10/32] fix: surfaces cannot use an eos_s_t that is not
 njit'ed, such as gswc.rho_s_t

Only the first element of the eos tuple is documented as having to be njit'ed, and
gswc offers plain Python derivatives, but they raised TypingError.
---
 neutralocean/eos/tools.py | 9 +++++++++
 neutralocean/ntp.py       | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/neutralocean/eos/tools.py b/neutralocean/eos/tools.py
index d0d5c11..ff005e2 100644
--- a/neutralocean/eos/tools.py
+++ b/neutralocean/eos/tools.py
@@ -2,6 +2,7 @@
 import functools as ft
 import numba as nb
 import importlib
+from types import FunctionType
 
 # List of modules in the same directory as this file, each of which must have
 # the following numba.njit'ed functions:  rho, rho_s_t, rho_p.
@@ -163,6 +164,14 @@ def make_bsq(fn, grav, rho_c, num_p_derivs=0):
     # Hydrostatic conversion from depth [m] to pressure [dbar]
     z_to_p = 1e-4 * grav * rho_c
 
+    if isinstance(fn, FunctionType):  # fn not njit'ed, so nor can fn_bsq be
+
+        def fn_bsq(s, t, z):
+            out = fn(s, t, z * z_to_p)
+            return out if num_p_derivs == 0 else out * z_to_p**num_p_derivs
+
+        return fn_bsq
+
     if num_p_derivs == 0:
         # Slight optimization for later: don't multiply by factor when factor == 1
         @nb.njit
diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index 7420a05..1509c61 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -2,6 +2,7 @@
 
 import numpy as np
 import numba as nb
+from types import FunctionType
 
 from neutralocean.lib import xr_to_np
 from neutralocean.eos.tools import make_eos_s_t
@@ -43,7 +44,11 @@ def ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None):
 
     s, t, p = (np.reshape(xr_to_np(x), -1) for x in (s, t, p))
     a, b = (np.asarray(x) for x in edges)
-    e = _ntp_epsilon_error1(s, t, p, a, b, eos_s_t)
+    if isinstance(eos_s_t, FunctionType):  # not njit'ed, so call on whole arrays
+        rs, rt = eos_s_t(*(0.5 * (x[a] + x[b]) for x in (s, t, p)))
+        e = rs * (s[b] - s[a]) + rt * (t[b] - t[a])
+    else:
+        e = _ntp_epsilon_error1(s, t, p, a, b, eos_s_t)
 
     if dist is not float or dist != 1.0:
         e = e / dist
-- 
2.43.0


From adee42ff941b07988b9517c1e6aa406707f1ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 11/32] fix: DataArrays without a coordinate along vert_dim
 were rejected

drop_vars raised ValueError when the vertical dimension has no coordinate variable.
---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..d98849b 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -213,7 +213,7 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim, errors="ignore"), 0)
     else:
         return None
 
-- 
2.43.0


From dc78bc703de71ff0ef569c5bfc002a13b66552fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 12/32] fix: val_at drops singleton dimensions and writes NaN
 into its input

squeeze() removed every length 1 horizontal dimension, and with a negative int k
the NaN went into a view of T.
---
 neutralocean/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index d98849b..6a48779 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -186,10 +186,10 @@ def val_at(T, k):
     """
     if isinstance(k, int) or T.ndim == 1:
         # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        Tk = np.copy(T[..., k])
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1).squeeze(-1)
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-- 
2.43.0


From 8f465106c8f02334185ba709e31cc810e703f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 13/32] fix: pin_cast as a dict or list could select the wrong
 cast

The order of the dict's keys was taken as the order of the dimensions, and a
decreasing coordinate was searched as if increasing.  A list, documented for
potential_surf, was taken as an array index and raised ValueError.
---
 neutralocean/lib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 6a48779..58d9b8e 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -357,9 +357,16 @@ def _process_pin_cast(pin_cast, S):
     # One issue is this always rounds one way, whereas a "nearest" neighbour
     # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        pin = []
+        for k in (k for k in S.dims if k in pin_cast):
+            idx = S.get_index(k)
+            i = idx.get_indexer([pin_cast[k]])[0]  # -1 when no exact match
+            pin.append(int(i if i >= 0 else idx.searchsorted(pin_cast[k])))
+        return tuple(pin)
     elif isinstance(pin_cast, int):
         return (pin_cast,)
+    elif isinstance(pin_cast, list):
+        return tuple(pin_cast)
     else:
         return pin_cast
 
-- 
2.43.0


From 64ec47f0a6dc1a961e75bda3493e3768963af2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 14/32] fix: omega_surf cannot start from an int p_init, such
 as np.full((ni, nj), 1000)

The surface was kept in the dtype of p_init: int raised ValueError (or truncated
pressures), and float32 lost precision.
---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index ab82327..6a1b65a 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -333,7 +333,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
             )
         p_init = np.reshape(p_init, -1)  # now reshape to 1D
         pin_p = p_init[pin_c]
-        p = p_init.copy()
+        p = p_init.astype(np.float64)
 
         # Interpolate S and T onto the surface
         s, t = interp_two(p, P, S, T, 0)
-- 
2.43.0


From cba3d1e5b37798128b97ea5c6230a2f66882a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 15/32] fix: bfs_conncomp1_wet_perim tests the wrong cast's
 mixed layer

A dry cast m is to be wetted only below its own mixed layer, but the new pressure
was compared with p_ml of the wet cast n it is linked from.
---
 neutralocean/bfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..3bd7590 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,9 +336,9 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
-                            # on the neighbouring cast is below the mixed layer.
+                            # on the dry cast is below the mixed layer.
                             p0 += p_
                             denom += 1
 
-- 
2.43.0


From ec2e9ad1299f46edb99f261c320a8687b49f67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 16/32] fix: diff_1d_samesize reads past the end of its input

It read x[size], and for an empty array (the valid part of a land cast) also wrote
before the start of its output.
---
 neutralocean/ppinterp/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..1d61416 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,9 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    d[d.size - 1 :] = np.nan
     return d
 
 
-- 
2.43.0


From 0bc12bd81336e09c3582d4b6fb1ea06456e9c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 17/32] fix: stabilize_ST silently did nothing when vert_dim is
 not the last dimension

(or S, T not C-contiguous float64): the rearranged copy was mutated, not the input.
---
 neutralocean/stability.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..0ac4d53 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,8 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    ST_in = xr_to_np(S), xr_to_np(T)  # arrays to mutate
+    vert_dim = _process_vert_dim(vert_dim, S)
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -233,6 +235,11 @@ def stabilize_ST(S, T, P, eos, **kw):
                     f"Perturbed cast {c} by weighted RMS amount {f(res.x, weight)}"
                 )
 
+    # Mutate the inputs, if their data had to be rearranged to process the casts
+    for X_in, X in zip(ST_in, (S, T)):
+        if not np.may_share_memory(X_in, X):
+            X_in[...] = np.moveaxis(X, -1, vert_dim)
+
 
 def calc_dLRPDdp_fd_1(S, T, P, eos):
     # Calculate d(LRPD)/dp using Finite Difference scheme in 1 cast.
-- 
2.43.0


From 35e2b0c172c0acba234c8d6d4def11df4dc4392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:26 +0000
Subject: [PATCH 18/32] fix: veronis raises below the last valid bottle of a
 NaN-padded cast

Documented to return NaN when p0 or p1 are outside the range of P.
---
 neutralocean/label.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index 7fc1f16..6c1535c 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -213,6 +213,10 @@ def _int_dlrpd_dz(p1, p0, P, Sppc, Tppc, dp, eos_s_t):
     k0 = max(1, np.searchsorted(P, p0))
     k1 = max(1, np.searchsorted(P, p1))
 
+    # p1 >= p0 is beyond the last valid P, when P is padded with NaN's
+    if np.isnan(P[k1]):
+        return np.nan
+
     # Integrate from p0 to P[k0]
     d1 = _int_x_k(p0, k0 - 1, dp, P, Sppc, Tppc, eos_s_t)
 
-- 
2.43.0


From 1b69ce2fe09c9f3bd7d7ecaeed2b8451163d40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 19/32] fix: neutral_trajectory reads outside its arrays when
 the first cast has fewer than 2 valid bottles

---
 neutralocean/traj.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..ca25f1a 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -277,10 +277,11 @@ def neutral_trajectory(
 
         if c == 0:
             # Evaluate S and T on first cast at p0
-            Sppc = ppc_fn(Pc[k:K], Sc[k:K])
-            Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-            s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
-            p[0] = p0
+            if K - k > 1:  # else, at most one valid data site. Can't interpolate that.
+                Sppc = ppc_fn(Pc[k:K], Sc[k:K])
+                Tppc = ppc_fn(Pc[k:K], Tc[k:K])
+                s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
+                p[0] = p0
         else:
             # Make a neutral connection from previous bottle to the cast (S[c,:], T[c,:], P[c,:])
             s[c], t[c], p[c] = _ntp_bottle_to_cast(
-- 
2.43.0


From baac9a40a807cb848412608d4722557c1ac1a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:18 +0000
Subject: [PATCH 20/32] Revert "fix: xgcm.build_grid scrambles neighbours for
 ysh='right' or dims other than (tile, j, i)"

The installed xgcm already restores the order of the dimensions: there was no defect.
---
 neutralocean/grid/xgcm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index afe5d21..e266035 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -291,6 +291,11 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
+        # Must ensure same ordering of dimensions as idx.  Currently, this
+        # one gets its dimensions reordered by the grid ufunc, probably
+        # because it reorders things to act on the last dimension...?
+        jm1 = jm1.transpose(*idx.dims)
+
     else:  # right
         # jm1 = grid.axes["Y"]._neighbor_binary_func(
         #     idx, lambda a, b: b, to="right", boundary="fill", fill_value=-1
@@ -305,8 +310,4 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
-    # Must ensure same ordering of dimensions as idx.  The grid ufunc reorders
-    # the dimensions, putting the one it acts on last.
-    im1, jm1 = (x.transpose(*idx.dims) for x in (im1, jm1))
-
     return im1, jm1
-- 
2.43.0


From 6e1559a12df31e106e984588c5b15acb642e31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:07 +0000
Subject: [PATCH 21/32] fix: perimeter wetting could average pressures to just
 outside the cast, leaving p finite but S, T NaN

---
 neutralocean/bfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 3bd7590..8b8cfa0 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -347,6 +347,8 @@ def bfs_conncomp1_wet_perim(
 
                     # Average pressures of all successful NTP links
                     p[m] = p0 / denom
+                    # which must not round to outside of this cast
+                    p[m] = min(max(p[m], Pm[0]), Pm[-1])
 
                     # Interpolate S and T to averaged pressure
                     s[m], t[m] = ppval_1_two(p[m], Pm, Sppc, Tppc, 0)
-- 
2.43.0


From 7205ce86bb6ae5dc17efebb1b9f2325983741938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 22/32] fix: omega_surf diagnostics left out the last iteration

All but e_MAV and e_RMS were cut one element short, so the information about
the last iteration (what it did, the measure by which it stopped, and the
number of wet casts on the surface that is returned) was dropped.
---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 6a1b65a..60212a0 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -465,7 +465,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From 08b9ec7c62c2709e94dd593eba1d95fdc4221f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 23/32] fix: omega_surf with ITER_MAX = 0 failed when
 collecting diagnostics

iter_ was undefined when no iteration was done, so diags=True (the default)
raised UnboundLocalError, where diags=False returned the initial surface.
---
 neutralocean/surface/omega.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 60212a0..7349060 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -377,6 +377,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     # Note: the surface exists wherever p is non-nan.  The nan structure of s
     # and t is made to match that of p when the vertical solve step is done.
     Δp_RMS = 0.0  # ensure this is defined; needed if TOL_P_CHANGE_RMS == 0
+    iter_ = 0  # ensure this is defined; needed if ITER_MAX == 0
     for iter_ in range(1, ITER_MAX + 1):
         timer = time()
 
-- 
2.43.0


From 4ba2c07052d79e6fe7a9de8f7544aef93b90cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 24/32] fix: neutrality errors of integer data were truncated
 to integers

---
 neutralocean/ntp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index 1509c61..a7fe25e 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -139,7 +139,7 @@ def ntp_epsilon_errors_norms(
 
 @nb.njit
 def _ntp_epsilon_error1(s, t, p, a, b, eos_s_t):
-    e = np.empty(len(a), dtype=s.dtype)
+    e = np.empty(len(a), dtype=np.float64)
     for i in range(len(a)):
         a_ = a[i]
         b_ = b[i]
-- 
2.43.0


From 248cb738cf03fc5e85ae37311c0a6f7ea4bc0b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 25/32] fix: graph_binary_fcn truncated its values to the type
 of the node data

---
 neutralocean/grid/graph.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index 624d7ed..7a39810 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -46,11 +46,9 @@ def graph_binary_fcn(edges, nodevals, binary_fcn):
 
     a, b = edges
 
-    ev = np.empty(len(a), dtype=nodevals.dtype)
     d = nodevals.reshape(-1)
-    for i in range(len(a)):
-        ev[i] = binary_fcn(d[a[i]], d[b[i]])
-    return ev
+    # dtype is that of the values of `binary_fcn`, which may not be that of `nodevals`
+    return np.array([binary_fcn(d[a[i]], d[b[i]]) for i in range(len(a))])
 
 
 def edges_to_graph(edges, N=-1, weights=None):
-- 
2.43.0


From d1a0a0278b2f001059d49b80e2f8b4a117abf1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 26/32] fix: take_fill could not fill integer data with NaN

---
 neutralocean/lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 58d9b8e..42dbdea 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -90,7 +90,8 @@ def take_fill(a, idx, fillval=np.nan):
         The i'th element of b (in linear order) is the `idx[i]`'th element of `a`,
         (in linear order), or nan if `idx[i] < 0`.  Same shape as `idx`.
     """
-    b = np.empty(idx.size, dtype=a.dtype)
+    # dtype must hold both the data and `fillval` (e.g. nan, with integer data)
+    b = np.empty(idx.size, dtype=(a.reshape(-1)[:0] + fillval).dtype)
     a_ = a.reshape(-1)
     for i in range(len(b)):
         if idx[i] >= 0:
-- 
2.43.0


From 00a4c14215ca2bce8f5b1702903d78c71c9273ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 27/32] fix: val_at failed on integer data

---
 neutralocean/lib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 42dbdea..00a76d9 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -195,8 +195,7 @@ def val_at(T, k):
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
     # Set to NaN any place where k is negative
-    Tk[k < 0] = np.nan
-    return Tk
+    return np.where(k < 0, np.nan, Tk)
 
 
 def xr_to_np(S):
-- 
2.43.0


From 44d9e7f65bac3faf06068fd05c9c9855a5887ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 28/32] fix: T or P of another shape than S was read out of
 bounds

---
 neutralocean/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 00a76d9..d5f7abb 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -293,7 +293,10 @@ def _process_casts(S, T, P, vert_dim):
     if P.ndim < S.ndim:
         # First make P a 3D array with its non-singleton dimension be `vert_dim`
         P = np.reshape(P, tuple(-1 if x == vert_dim else 1 for x in range(S.ndim)))
-        P = np.broadcast_to(P, S.shape)
+    P = np.broadcast_to(P, S.shape)
+
+    if T.shape != S.shape:
+        raise ValueError(f"S and T differ in shape: {S.shape}, {T.shape}")
 
     S, T, P = (_contiguous_casts(x, vert_dim) for x in (S, T, P))
     return S, T, P
-- 
2.43.0


From 29e0fd120e9a26cb39e7844da02dbb8561899640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 29/32] fix: ntp_bottle_to_cast read out of bounds when S, T
 and P differ in length

---
 neutralocean/traj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index ca25f1a..1fcadfa 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -102,6 +102,9 @@ def ntp_bottle_to_cast(
     eos = make_eos(eos, grav, rho_c)
     ppc_fn = make_pp(interp, kind="1", out="coeffs", nans=False)
 
+    if not (len(S) == len(T) == len(P)):
+        raise ValueError("S, T, and P must have the same length")
+
     k, K = valid_range_1_two(S, P)  # S and T have same nan-structure
 
     return _ntp_bottle_to_cast(sB, tB, pB, S, T, P, k, K, tol_p, eos, ppc_fn)
-- 
2.43.0


From e896ca08d87d93cc29565b3905d53a10454ed334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 30/32] fix: neutrality errors read out of bounds for edges or
 data of another ocean

---
 neutralocean/ntp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a7fe25e..12051d1 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -44,6 +44,10 @@ def ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None):
 
     s, t, p = (np.reshape(xr_to_np(x), -1) for x in (s, t, p))
     a, b = (np.asarray(x) for x in edges)
+    if not (len(s) == len(t) == len(p)):
+        raise ValueError("s, t, and p must have the same size")
+    if len(a) != len(b) or any(np.any(x >= len(s)) for x in (a, b)):
+        raise ValueError("edges must be pairs of nodes of the surface")
     if isinstance(eos_s_t, FunctionType):  # not njit'ed, so call on whole arrays
         rs, rt = eos_s_t(*(0.5 * (x[a] + x[b]) for x in (s, t, p)))
         e = rs * (s[b] - s[a]) + rt * (t[b] - t[a])
-- 
2.43.0


From 4d315b981d414dc740d86ebc120fb39921df56c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 31/32] fix: edges_to_csr wrote out of bounds for edges that
 leave the graph

---
 neutralocean/grid/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index 7a39810..fd2be6c 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -129,12 +129,16 @@ def edges_to_csr(edges, N=-1):
     """
     a, b = edges
     E = len(a)
+    if len(b) != E:
+        raise ValueError("Each edge must be a pair of nodes.")
     if N < 0:  # not using `N is None` for njit
         N = max(np.max(a), np.max(b)) + 1  # assumes no degree 0 nodes.
 
     # Pre-calculate degree of each node
     deg = np.zeros(N, dtype=np.int_)
     for i in range(E):
+        if not (0 <= a[i] < N and 0 <= b[i] < N):
+            raise ValueError("Each edge must join two of the N nodes.")
         deg[a[i]] += 1
         deg[b[i]] += 1
     sum_deg = np.sum(deg)
-- 
2.43.0


From f928974c8d5c10572c18256f58650947c7f2970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 32/32] fix: omega_surf read out of bounds when p_ml has
 another size than the surface

---
 neutralocean/surface/omega.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 7349060..b222df7 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -255,6 +255,11 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         # p_ml = np.broadcast_to(-np.inf, (ni, nj))  # DEV: Doesn't work with @numba.njit
     # Ensure p_ml is 1D array, in case it was given as a 2D array.
     p_ml = np.reshape(p_ml, -1)
+    if p_ml.size != N:
+        raise ValueError(
+            f'"p_ml" should contain one value for each of {N} water columns;'
+            f" found {p_ml.size}"
+        )
 
     # Pre-calculate grid adjacency needed for Breadth First Search
     edges = tuple(np.asarray(x) for x in grid["edges"])
-- 
2.43.0

