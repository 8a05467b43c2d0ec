"""C25: the column and grouping utilities address the right bottles and groups."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, noise
from neutralocean.lib import aggsum, find_first_nan, take_fill, val_at
from neutralocean.ppinterp import valid_range, valid_range_1
from neutralocean.ppinterp.lib import valid_range_1_two

RULE = (
    "A case is an array of 1-4 dimensions (sizes 1-6; float64, float32 or integers; C, Fortran or strided order) with missing values "
    "placed as bottoms, tops, holes, entire columns or at random, an axis (negative ones included), indices (negative = "
    "missing, repeated, all equal), groups (empty ones included).  Every result is recomputed element by element.  "
    "Non-trivial: the array has both missing and valid values."
)
ASSUMPTIONS = ["no infinities"]


@st.composite
def case(draw, cfg):
    nd = draw(I(1, 4))
    return dict(
        sh=[draw(I(1, 6 if nd < 3 else 4)) for _ in range(nd)],
        ns=draw(I(0, 9000)),
        kind=draw(st.sampled_from(["none", "all", "bottom", "top", "random", "mixed", "mixed"])),
        fr=draw(F(0.0, 1.0)),
        ax=draw(I(0, 7)),
        f32=draw(I(0, 3)) == 0,
        ints=draw(I(0, 2)) > 0,
        lay=draw(st.sampled_from(["C", "F", "strided"])),
        n=draw(I(0, 12)),
        m=draw(I(1, 6)),
        neg=draw(F(0.0, 0.6)),
        k=draw(I(0, 99)),
        fill=draw(st.sampled_from(["default", "num"])),
    )


def layout(x, how):
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full(tuple(2 * n for n in x.shape), 7.0, x.dtype)
        sl = tuple(slice(1, None, 2) for _ in x.shape)
        big[sl] = x
        return big[sl]
    return x


def block(x):
    """[k, K): the first contiguous run of valid values."""
    k = 0
    while k < len(x) and np.isnan(x[k]):
        k += 1
    K = k
    while K < len(x) and not np.isnan(x[K]):
        K += 1
    return (k, K) if k < len(x) else (len(x), len(x))


def check(c, ctx):
    sh, ns = tuple(c["sh"]), c["ns"]
    A = np.round(noise(ns, sh) * 40, 2)
    n = sh[-1]
    cols = A.reshape(-1, n)
    u = noise(ns + 1, (len(cols), 2))
    for i, col in enumerate(cols):
        kind = c["kind"]
        if kind == "mixed":
            kind = ["none", "all", "bottom", "top", "random", "hole"][int(u[i, 0] * 6)]
        j = int(u[i, 1] * (n + 1))
        if kind == "all":
            col[:] = np.nan
        elif kind == "bottom":
            col[j:] = np.nan
        elif kind == "top":
            col[:j] = np.nan
        elif kind == "hole":
            col[min(j, n - 1)] = np.nan
        elif kind == "random":
            col[noise(ns + 2 + i, (n,)) < c["fr"]] = np.nan
    if c["f32"]:
        A = A.astype(np.float32)
    elif c["ints"] and not np.isnan(A).any():
        A = (10 * A).astype(int)
    ctx.nontrivial(np.isnan(A).any() and np.isfinite(A).any())
    B = layout(A.copy(), c["lay"])
    keep = B.copy()
    what = f"{A.dtype} {c['lay']} array of shape {sh}"

    # first NaN along any axis
    ax = c["ax"] % (2 * len(sh)) - len(sh)
    for axis, kw in ((ax, dict(axis=ax)), (-1, {})):
        k = np.asarray(call(find_first_nan, B, **kw))
        M = np.moveaxis(A, axis, -1)
        require(k.shape == M.shape[:-1] and k.dtype.kind in "iu", lambda: f"find_first_nan({what}, axis={axis}): shape {k.shape}, {k.dtype}")
        for ix in np.ndindex(*M.shape[:-1]):
            w = next((j for j, v in enumerate(M[ix]) if np.isnan(v)), M.shape[-1])
            require(k[ix] == w, lambda: f"find_first_nan({what}, axis={axis}){ix}: {k[ix]} instead of {w} in {M[ix]}")

    # value at an index of each column
    kk = (noise(ns + 50, sh[:-1]) * n).astype(int)
    kk = np.where(noise(ns + 51, sh[:-1]) < c["neg"], -1 - kk % 3, kk) if len(sh) > 1 else np.array(int(kk))
    if len(sh) > 1:
        v = np.asarray(call(val_at, B, kk))
        require(v.shape == sh[:-1], lambda: f"val_at({what}): shape {v.shape}")
        for ix in np.ndindex(*sh[:-1]):
            w = np.nan if kk[ix] < 0 else A[ix][kk[ix]]
            require(v[ix] == w or (np.isnan(v[ix]) and np.isnan(w)), lambda: f"val_at({what}, k)[{ix}]: {v[ix]} instead of {w} (k={kk[ix]})")
        k0 = c["k"] % n
        v = np.asarray(call(val_at, B, k0))
        require(np.array_equal(v, A[..., k0], equal_nan=True), f"val_at({what}, {k0}) is not that level")
        # the documented idiom: bottom value
        ff = np.array([block(np.where(np.arange(n) >= 0, col, col)) for col in A.reshape(-1, n)])[:, 1]
        v = np.asarray(call(val_at, B, np.asarray(call(find_first_nan, B)) - 1))
        for i, ix in enumerate(np.ndindex(*sh[:-1])):
            if not np.isnan(A[ix][0]):
                require(v[ix] == A[ix][ff[i] - 1], lambda: f"bottom value of {A[ix]}: {v[ix]}")
            else:
                require(np.isnan(v[ix]), lambda: f"bottom value of {A[ix]}: {v[ix]}")
    z = layout(np.round(noise(ns + 60, (n,)) * 100, 2), c["lay"])
    z0 = z.copy()
    idx = (noise(ns + 61, (c["m"], 3)) * n).astype(int)
    idx = np.where(noise(ns + 62, idx.shape) < c["neg"], -1, idx)
    if c["ints"]:
        z = z.astype(int)
        z0 = z.copy()
    v = np.asarray(call(val_at, z, idx))
    w = np.where(idx < 0, np.nan, z0[idx])
    require(v.shape == w.shape and np.array_equal(v, w, equal_nan=True), lambda: f"val_at(1-D array {z0}, {idx}): {v}")
    require(np.array_equal(z, z0), "val_at changed its input")

    # linear indexing with missing
    idx = (noise(ns + 70, (c["n"],)) * A.size).astype(int)
    idx = np.where(noise(ns + 71, (c["n"],)) < c["neg"], -1 - idx, idx)
    fill = np.nan if c["fill"] == "default" else -3.5
    Ac = np.ascontiguousarray(A)
    v = np.asarray(call(take_fill, Ac, idx) if c["fill"] == "default" else call(take_fill, Ac, idx, fill))
    w = np.array([fill if i < 0 else A.reshape(-1)[i] for i in idx], A.dtype if A.dtype.kind == "f" else float)
    require(v.shape == w.shape and np.array_equal(v, w, equal_nan=True), lambda: f"take_fill({what}, {idx}, {fill}): {v} instead of {w}")

    # sums by group
    g = (noise(ns + 80, (c["n"],)) * c["m"]).astype(int)
    g = np.where(noise(ns + 81, (c["n"],)) < c["neg"], -1 - g, g)
    a = np.round(noise(ns + 82, (c["n"],)) * 8) / 4
    if c["m"] % 3 == 0:
        a[noise(ns + 83, a.shape) < 0.15] = np.nan  # a group with a missing value has no sum
    elif c["m"] % 3 == 1:
        a = np.round(4 * a).astype(int)
    ng = c["m"] + c["k"] % 3
    v = np.asarray(call(aggsum, a, g, ng))
    w = np.zeros(ng)
    for x, i in zip(a, g):
        if i >= 0:
            w[i] += x
    require(v.shape == w.shape and np.array_equal(v, w, equal_nan=True), lambda: f"aggsum({a}, {g}, {ng}): {v} instead of {w}")

    # valid blocks
    D = A.astype(float)
    if c["m"] % 2:  # plenty of zeros and repeated values
        D = np.round(D) % 3 - 1
    k, K = (np.asarray(x) for x in call(valid_range, layout(D, c["lay"])))
    require(k.shape == K.shape == sh[:-1], f"valid_range({what}): shape {k.shape}")
    for ix in np.ndindex(*sh[:-1]):
        w = block(D[ix])
        require((k[ix], K[ix]) == w, lambda: f"valid_range({D[ix]}): {(k[ix], K[ix])} instead of {w}")
        r = tuple(int(x) for x in call(valid_range_1, D[ix]))
        require(r == w, lambda: f"valid_range_1({D[ix]}): {r} instead of {w}")
        E = np.where(noise(ns + 90, (n,)) < 0.2, np.nan, 1.0)
        r = tuple(int(x) for x in call(valid_range_1_two, D[ix], E))
        w2 = block(D[ix] + E)
        require(r == w2, lambda: f"valid_range_1_two({D[ix]}, {E}): {r} instead of {w2}")
    require(np.array_equal(B, keep, equal_nan=True), f"the input ({what}) was changed")


SUBS = [Sub("utils", case, check, [[k] for k in range(4)], n=(800, 20000), cap=(60, 400))]


def WARM():
    for dt in (np.float64, np.float32):
        x = np.ones((2, 3), dt)
        find_first_nan(x)
        take_fill(x, np.array([0]))
    aggsum(np.ones(2), np.array([0, 1]), 2)
    valid_range_1(np.ones(3))
    valid_range_1_two(np.ones(3), np.ones(3))
