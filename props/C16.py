"""C16: rectilinear and tripolar grids join exactly the neighbouring columns, with the right distances."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import I, logF, noise
from harness.oracle import as_array
from neutralocean.grid import rectilinear, tripolar

RULE = (
    "A case is a grid size (1-9 by 1-9), the periodicities, and the four distance arrays, each omitted, a number, a full array, a "
    "broadcastable row / column / 1-D array, a non-contiguous view or (tripolar) the padded array of a mesh file; the "
    "expected edges come from a cell-by-cell enumeration.  Non-trivial: at least one edge in each direction."
)
ASSUMPTIONS = [
    "edges are compared as undirected pairs with their distances; within one direction all edges must point the same way",
    "in a periodic dimension of 1 cell, each cell is its own neighbour: whether such edges are listed is left open, but the lists stay of one length and the other edges exact",
]


@st.composite
def case_rect(draw, cfg):
    per = [draw(st.booleans()), draw(st.booleans())]
    dims = [draw(I(1, 9)) for k in range(2)]
    kinds = [draw(st.sampled_from(["num", "full", "row", "col", "1d", "view", "int", "omit"])) for _ in range(4)]
    return dict(dims=dims, per=per, kinds=kinds, sc=draw(logF(1e-3, 1e5)), ns=draw(I(0, 9000)), dl=draw(st.booleans()))


def dist_arg(kind, dims, sc, ns):
    """-> (argument, full array)"""
    ni, nj = dims
    if kind == "num":
        return sc, np.full(dims, sc)
    if kind == "omit":  # not passed: unit distances
        return None, np.full(dims, 1.0)
    if kind == "int":
        return 3, np.full(dims, 3.0)
    shape = dict(full=(ni, nj), view=(ni, nj), row=(1, nj), col=(ni, 1)).get(kind, (nj,))
    x = sc * (0.1 + noise(ns, shape))
    full = np.broadcast_to(x, dims).copy()
    if kind == "view":
        big = np.full((ni * 2, nj * 3), -1.0)
        big[::2, ::3] = x
        x = big[::2, ::3]
    return x, full


def compare(grid, exp, N, what):
    """exp: list of (u, v, dist, distperp, direction)."""
    require(isinstance(grid, dict) and {"edges", "dist", "distperp"} <= set(grid), f"{what}: not a grid dict")
    require(len(grid["edges"]) == 2, f"{what}: edges is not a pair")
    a, b = (np.asarray(x) for x in grid["edges"])
    if any(u == v for u, v, *_ in exp):
        exp = [e for e in exp if e[0] != e[1]]
        require(a.shape == b.shape and all(np.shape(grid[k]) == a.shape for k in ("dist", "distperp")), f"{what}: edges and distances of different lengths")
        a, b, sel = a[a != b], b[a != b], a != b
        grid = dict(dist=np.asarray(grid["dist"])[sel], distperp=np.asarray(grid["distperp"])[sel], edges=(a, b))
    E = len(exp)
    require(a.shape == (E,) and b.shape == (E,), lambda: f"{what}: {a.shape} edges, expected {E}")
    require(a.dtype.kind in "iu" and b.dtype.kind in "iu", f"{what}: edges are not integers")
    require(E == 0 or (min(a.min(), b.min()) >= 0 and max(a.max(), b.max()) < N), f"{what}: edge refers to a node that does not exist")
    d, q = (as_array(grid[k], (E,), what + " " + k) for k in ("dist", "distperp"))
    got = sorted((min(u, v), max(u, v), x, y) for u, v, x, y in zip(a.tolist(), b.tolist(), d.tolist(), q.tolist()))
    want = sorted((min(u, v), max(u, v), float(x), float(y)) for u, v, x, y, _ in exp)
    for g, w in zip(got, want):
        require(g == w, lambda: f"{what}: edge (node, node, dist, distperp) {g} where the grid has {w}")


def check_rect(c, ctx):
    ni, nj = c["dims"]
    per = c["per"]
    args, full = zip(*(dist_arg(k, (ni, nj), c["sc"], c["ns"] + 10 * n) for n, k in enumerate(c["kinds"])))
    keep = [np.array(x, copy=True) for x in args if x is not None]
    dims = [ni, nj] if c["dl"] else (ni, nj)
    dims = tuple(dims)
    grid = call(rectilinear.build_grid, dims, tuple(per), **{k: x for k, x in zip(("dxC", "dyC", "dyG", "dxG"), args) if x is not None})
    exp = []
    for i in range(ni):
        for j in range(nj):
            if i > 0 or per[0]:
                exp.append((i * nj + j, (i - 1) % ni * nj + j, full[0][i, j], full[2][i, j], 0))
            if j > 0 or per[1]:
                exp.append((i * nj + j, i * nj + (j - 1) % nj, full[1][i, j], full[3][i, j], 1))
    compare(grid, exp, ni * nj, "rectilinear")
    require(all(np.array_equal(x, y) for x, y in zip(keep, [x for x in args if x is not None])), "rectilinear.build_grid changed its arguments")
    a, b = (np.asarray(x) for x in grid["edges"])
    if any(p and d == 1 for p, d in zip(per, dims)):
        ctx.label("own neighbour")
        call(rectilinear.edgedata_to_maps, np.arange(1.0, len(a) + 1), dims, tuple(per))
        return
    # Map arbitrary edge data back to the grid.
    tag = np.arange(1.0, len(a) + 1)
    Fi, Fj = call(rectilinear.edgedata_to_maps, tag, dims, tuple(per))
    Fi, Fj = as_array(Fi, (ni, nj), "Fi"), as_array(Fj, (ni, nj), "Fj")
    sides = set(), set()
    used = []
    for d, Fm in enumerate((Fi, Fj)):
        for i in range(ni):
            for j in range(nj):
                v = Fm[i, j]
                has = (i > 0 or per[0]) if d == 0 else (j > 0 or per[1])
                require(has == (not np.isnan(v)), lambda: f"edgedata_to_maps: {'ij'[d]}-map at {(i, j)} is {v}, the face {'exists' if has else 'does not exist'}")
                if not has:
                    continue
                e = int(v) - 1
                used.append(e)
                here = i * nj + j
                there = (i - 1) % ni * nj + j if d == 0 else i * nj + (j - 1) % nj
                require({int(a[e]), int(b[e])} == {here, there}, lambda: f"edgedata_to_maps: {'ij'[d]}-map at {(i, j)} holds the datum of the edge {int(a[e]), int(b[e])}")
                if (ni, nj)[d] > 2:
                    sides[d].add(int(a[e]) == here)
                    require(np.asarray(grid["dist"])[e] == full[d][i, j], "edgedata_to_maps disagrees with dist")
    require(sorted(used) == list(range(len(a))), "edgedata_to_maps lost or repeated an edge")
    require(len(sides[0] | sides[1]) <= 1, "rectilinear: edges do not all point the same way")
    ctx.label("periodic" if any(per) else "bounded")
    for k in c["kinds"]:
        ctx.label(k)
    ctx.nontrivial(ni > 1 and nj > 1)


@st.composite
def case_tri(draw, cfg):
    dims = [draw(I(1, 8)), draw(I(2, 9))]
    kinds = [draw(st.sampled_from(["num", "full", "pad", "view", "int", "padview", "omit"])) for _ in range(4)]
    return dict(dims=dims, kinds=kinds, sc=draw(logF(1e-3, 1e5)), ns=draw(I(0, 9000)))


def check_tri(c, ctx):
    nj, ni = c["dims"]
    args, full = [], []
    for n, k in enumerate(c["kinds"]):
        if k in ("pad", "padview"):
            big = c["sc"] * (0.1 + noise(c["ns"] + 10 * n, (nj + 1, ni + 2)))
            full.append(big[:nj, 1 : ni + 1].copy())
            args.append(np.asfortranarray(big) if k == "padview" else big)
        else:
            x, f = dist_arg(k, (nj, ni), c["sc"], c["ns"] + 10 * n)
            args.append(x)
            full.append(f)
    e1u, e2v, e2u, e1v = full
    grid = call(tripolar.build_grid, (nj, ni), **{k: x for k, x in zip(("e1u", "e2v", "e2u", "e1v"), args) if x is not None})
    exp = []
    for j in range(nj):
        for i in range(ni):
            up = (j + 1) * ni + i if j + 1 < nj else (nj - 1) * ni + (ni - 1 - i)
            exp.append((j * ni + i, up, e2v[j, i], e1v[j, i], 0))
            exp.append((j * ni + i, j * ni + (i + 1) % ni, e1u[j, i], e2u[j, i], 1))
    compare(grid, exp, ni * nj, "tripolar")
    a, b = (np.asarray(x) for x in grid["edges"])
    tag = np.arange(len(a)) + 0.5
    V, U = call(tripolar.edgedata_to_maps, tag, (nj, ni))
    V, U = as_array(V, (nj, ni), "v"), as_array(U, (nj, ni), "u")
    require(sorted([*V.reshape(-1), *U.reshape(-1)]) == sorted(tag), "tripolar edgedata_to_maps lost or repeated an edge")
    sides = set()
    for j in range(nj):
        for i in range(ni):
            here = j * ni + i
            up = (j + 1) * ni + i if j + 1 < nj else (nj - 1) * ni + (ni - 1 - i)
            for M, other, D, nm in ((V, up, e2v, "v"), (U, j * ni + (i + 1) % ni, e1u, "u")):
                e = int(M[j, i])
                require({int(a[e]), int(b[e])} == {here, other}, lambda: f"tripolar edgedata_to_maps: {nm}{(j, i)} holds the datum of the edge {int(a[e]), int(b[e])}")
                require(np.asarray(grid["dist"])[e] == D[j, i], "tripolar edgedata_to_maps disagrees with dist")
                if here != other and not (nm == "u" and ni == 2):
                    sides.add(int(a[e]) == here)
    require(len(sides) <= 1, "tripolar: edges do not all point the same way")
    for k in c["kinds"]:
        ctx.label(k)
    ctx.nontrivial(nj > 1)


SUBS = [
    Sub("rectilinear", case_rect, check_rect, [[0], [1], [2], [3]], n=(1500, 20000), cap=(40, 300)),
    Sub("tripolar", case_tri, check_tri, [[0], [1], [2], [3]], n=(1200, 20000), cap=(40, 300)),
]
