"""C17: grids of connected square tiles (xgcm) join exactly the neighbouring columns, across tile seams too."""
import itertools

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import I, logF, noise
from harness.oracle import as_array
from neutralocean.grid import xgcm as gx
from props.C16 import compare

RULE = (
    "A case is a tile size (2-6), a topology (one tile, periodic tile, random gluings of 1-5 tiles' sides, a cubed sphere, "
    "the 13-tile ECCO grid, with tiles relabelled), the order of the dimensions, the directions in which the distances are "
    "staggered, and the four distance arrays as numbers, arrays or DataArrays.  The expected edges come from walking cell "
    "by cell over the glued sides.  Non-trivial: at least one edge crosses between two tiles."
)
ASSUMPTIONS = ["xgcm's own convention for gluing sides: the tangential direction flips when axes X and Y are joined without `reverse`"]

ECCO = {
    0: {"X": ((12, "Y", False), (3, "X", False)), "Y": (None, (1, "Y", False))},
    1: {"X": ((11, "Y", False), (4, "X", False)), "Y": ((0, "Y", False), (2, "Y", False))},
    2: {"X": ((10, "Y", False), (5, "X", False)), "Y": ((1, "Y", False), (6, "X", False))},
    3: {"X": ((0, "X", False), (9, "Y", False)), "Y": (None, (4, "Y", False))},
    4: {"X": ((1, "X", False), (8, "Y", False)), "Y": ((3, "Y", False), (5, "Y", False))},
    5: {"X": ((2, "X", False), (7, "Y", False)), "Y": ((4, "Y", False), (6, "Y", False))},
    6: {"X": ((2, "Y", False), (7, "X", False)), "Y": ((5, "Y", False), (10, "X", False))},
    7: {"X": ((6, "X", False), (8, "X", False)), "Y": ((5, "X", False), (10, "Y", False))},
    8: {"X": ((7, "X", False), (9, "X", False)), "Y": ((4, "X", False), (11, "Y", False))},
    9: {"X": ((8, "X", False), None), "Y": ((3, "X", False), (12, "Y", False))},
    10: {"X": ((6, "Y", False), (11, "X", False)), "Y": ((7, "Y", False), (2, "X", False))},
    11: {"X": ((10, "X", False), (12, "X", False)), "Y": ((8, "Y", False), (1, "X", False))},
    12: {"X": ((11, "X", False), None), "Y": ((9, "Y", False), (0, "X", False))},
}
CUBE = {
    0: {"X": ((3, "X", False), (1, "X", False)), "Y": ((4, "Y", False), (5, "Y", False))},
    1: {"X": ((0, "X", False), (2, "X", False)), "Y": ((4, "X", False), (5, "X", True))},
    2: {"X": ((1, "X", False), (3, "X", False)), "Y": (None, None)},
    3: {"X": ((2, "X", False), (0, "X", False)), "Y": ((4, "X", True), (5, "X", False))},
    4: {"X": ((3, "Y", True), (1, "Y", False)), "Y": (None, (0, "Y", False))},
    5: {"X": ((3, "Y", False), (1, "Y", True)), "Y": ((0, "Y", False), None)},
}
PERMS = list(itertools.permutations(["tile", "j", "i"]))


@st.composite
def case(draw, cfg):
    kind = cfg[0]
    c = dict(kind=kind, n=draw(I(2, 3 if kind == "ecco" else 6)), dims=draw(I(0, 5)), xsh=draw(st.sampled_from(["left", "right"])), ysh=draw(st.sampled_from(["left", "right"])))
    c["kinds"] = [draw(st.sampled_from(["num", "full", "view", "omit"])) for _ in range(4)]
    c["xr"] = draw(I(0, 3)) == 0
    c["sc"], c["ns"] = draw(logF(1e-3, 1e5)), draw(I(0, 9000))
    c["name"] = draw(st.sampled_from(["tile", "face"]))
    if kind in ("ecco", "cube"):
        c["perm"] = draw(st.permutations(range(13 if kind == "ecco" else 6)))
    else:
        nf = draw(I(1, 5))
        sides = draw(st.permutations([[f, ax, sd] for f in range(nf) for ax in (0, 1) for sd in (0, 1)]))
        c["nf"] = nf
        c["pairs"] = [[sides[2 * k], sides[2 * k + 1]] for k in range(draw(I(0, len(sides) // 2)))]
    return c


def topology(c):
    if c["kind"] in ("ecco", "cube"):
        base = ECCO if c["kind"] == "ecco" else CUBE
        p = c["perm"]
        mv = lambda x: None if x is None else (p[x[0]], x[1], x[2])
        fc = {p[f]: {ax: (mv(l), mv(r)) for ax, (l, r) in d.items()} for f, d in base.items()}
        return {f: fc[f] for f in sorted(fc)}
    con = {f: {"X": [None, None], "Y": [None, None]} for f in range(c["nf"])}
    for (f, ax, sd), (g, bx, se) in c["pairs"]:
        if ax == bx and sd == se:
            continue  # mirror gluing: xgcm's reading of it is not documented
        rev = sd == se
        con[f]["XY"[ax]][sd] = (g, "XY"[bx], rev)
        con[g]["XY"[bx]][se] = (f, "XY"[ax], rev)
    return {f: {ax: tuple(v) for ax, v in d.items()} for f, d in con.items()}


def neighbour(fc, n, f, j, i, ax, side):
    """Neighbour (tile, j, i) of a cell in direction ax ('X' moves i) to the left (0) or right (1), or None."""
    q = i if ax == "X" else j
    tang = j if ax == "X" else i
    q2 = q + (1 if side else -1)
    if 0 <= q2 < n:
        return (f, j, q2) if ax == "X" else (f, q2, i)
    con = fc[f].get(ax, (None, None))[side]
    if con is None:
        return None
    g, bx, rev = con
    far = 0 if side else n - 1
    if rev:
        far = n - 1 - far
    if bx != ax and not rev:
        tang = n - 1 - tang
    return (g, tang, far) if bx == "X" else (g, far, tang)


def check(c, ctx):
    n = c["n"]
    fc = topology(c)
    nf = len(fc)
    tile = c["name"]
    dims = tuple(tile if d == "tile" else d for d in PERMS[c["dims"]])
    size = {tile: nf, "i": n, "j": n}
    shape = tuple(size[d] for d in dims)
    idx = np.arange(nf * n * n).reshape(shape)
    take = lambda A, f, j, i: A[tuple({tile: f, "j": j, "i": i}[d] for d in dims)]
    args, full = [], []
    for k, kind in enumerate(c["kinds"]):
        x = c["sc"] * (0.1 + noise(c["ns"] + 10 * k, shape))
        if kind == "num" and not c["xr"]:
            x = np.full(shape, c["sc"] * (k + 1))
            args.append(c["sc"] * (k + 1))
        elif kind == "omit" and not c["xr"]:  # unit distances
            x = np.ones(shape)
            args.append(None)
        elif kind == "view":
            args.append(np.asfortranarray(x))
        else:
            args.append(x)
        full.append(x)
    if c["xr"]:
        args = [xr.DataArray(x, dims=dims) for x in args]
    dxC, dyC, dyG, dxG = full
    grid = call(gx.build_grid, n, {tile: fc}, dims, c["xsh"], c["ysh"], **{k: x for k, x in zip(("dxC", "dyC", "dyG", "dxG"), args) if x is not None})
    exp = []
    cross = 0
    where = []
    for f in range(nf):
        for j in range(n):
            for i in range(n):
                for ax, sh, D, Q, d in (("X", c["xsh"], dxC, dyG, 0), ("Y", c["ysh"], dyC, dxG, 1)):
                    nb = neighbour(fc, n, f, j, i, ax, sh == "right")
                    if nb is None:
                        continue
                    cross += nb[0] != f
                    exp.append((int(take(idx, f, j, i)), int(take(idx, *nb)), take(D, f, j, i), take(Q, f, j, i), d))
                    where.append((d, f, j, i, {exp[-1][0], exp[-1][1]}))
    what = f"tiled grid {c['kind']} dims={dims} {c['xsh']}/{c['ysh']}"
    compare(grid, exp, nf * n * n, what)
    a, b = (np.asarray(x) for x in grid["edges"])
    tag = np.arange(1.0, len(a) + 1)
    maps = call(gx.edgedata_to_maps, tag, n, {tile: fc}, dims, c["xsh"], c["ysh"])
    maps = [as_array(M, shape, what) for M in maps]
    used = []
    for d, f, j, i, pair in where:
        v = take(maps[d], f, j, i)
        require(not np.isnan(v), lambda: f"{what}: edgedata_to_maps has no value at {'ij'[d]}-face of tile {f} cell j={j} i={i}")
        e = int(v) - 1
        used.append(e)
        require({int(a[e]), int(b[e])} == pair, lambda: f"{what}: edgedata_to_maps {'ij'[d]}-map at tile {f} j={j} i={i} holds edge {int(a[e]), int(b[e])} instead of {pair}")
    require(sorted(used) == list(range(len(a))), f"{what}: edgedata_to_maps lost or repeated an edge")
    require(sum(np.isfinite(M).sum() for M in maps) == len(a), f"{what}: edgedata_to_maps has values on faces that do not exist")
    ctx.label(c["kind"])
    ctx.label(f"{c['xsh']}/{c['ysh']}")
    ctx.label("dims" + str(c["dims"]))
    ctx.nontrivial(cross > 0)


SUBS = [
    Sub("tiles", case, check, [["random"]], n=(250, 3000), cap=(60, 420), parts=(5, 5)),
    Sub("tiles-named", case, check, [["cube"], ["ecco"]], n=(90, 1200), cap=(60, 420), parts=(2, 2)),
]
