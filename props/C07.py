"""C07: every variant of the interpolation routines gives the same answer, for any broadcastable shapes."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, call_raises, require
from harness.gen import F, I
from harness.oracle import expect_close
from harness.ppref import Ref, site, sites, table, xy
from neutralocean.ppinterp import make_pp, ppval, ppval_1, ppval_1_nonan, ppval_1_nonan_two, ppval_1_two, ppval_two, pval

RULE = (
    "A case is a set of tables arranged in 0-3 outer dimensions with X, Y and x of different but broadcastable shapes "
    "(shared abscissae, shared data, singleton dimensions), two dependent variables, missing values, a derivative order, "
    "or a request history to the factory of variants.  Non-trivial: a site inside the valid data was evaluated by all "
    "variants, or the history contains both valid and invalid requests."
)
ASSUMPTIONS = ["the two dependent variables have the same missing values, as documented", "the _nonan variants get data without NaN"]


# -- one table, all single-problem variants
@st.composite
def single(draw, cfg):
    return dict(interp=cfg[0], t=draw(table(nmax=10)), x=draw(sites(4)), d=draw(I(0, 4)), zs=draw(I(0, 9000)), nonan=draw(st.booleans()))


def check_single(c, ctx):
    t = dict(c["t"])
    if c["nonan"]:
        t["nan"] = []
        t["n"] = max(2, t["n"])
    X, Y = xy(t)
    Z = xy(dict(t, ns=c["zs"]), salt=3)[1]
    Xz = X
    Z = np.where(np.isnan(Y), np.nan, np.where(np.isnan(Z), 1.0, Z))
    it, d = c["interp"], c["d"]
    rY, rZ = Ref(X, Y, it), Ref(Xz, Z, it)
    i1 = make_pp(it, "1", "interp")
    i1two = make_pp(it, "1", "interp", num_dep_vars=2)
    iu = make_pp(it, "u", "interp")
    iutwo = make_pp(it, "u", "interp", num_dep_vars=2)
    c1 = make_pp(it, "1", "coeffs")
    c1n = make_pp(it, "1", "coeffs", nans=False)
    cu = make_pp(it, "u", "coeffs")
    CY, CZ = call(c1, X, Y), call(c1, X, Z)
    UY, UZ = call(cu, X, Y), call(cu, X, Z)
    require(CY.shape == UY.shape == (len(X), 2 if it == "linear" else 4), lambda: f"{it}: coefficients of shape {CY.shape}, {UY.shape}")
    hit = False
    for s in c["x"]:
        x = site(s, X, Y)
        got = [
            ("interp_1", call(i1, x, X, Y, d), None),
            ("interp_1_two", *call(i1two, x, X, Y, Z, d)),
            ("interp", call(iu, x, X, Y, d), None),
            ("interp_two", *call(iutwo, x, X, Y, Z, d)),
            ("ppval_1", call(ppval_1, x, X, CY, d), call(ppval_1, x, X, CZ, d)),
            ("ppval_1_two", *call(ppval_1_two, x, X, CY, CZ, d)),
            ("ppval", call(ppval, x, X, UY, d), call(ppval, x, X, UZ, d)),
            ("ppval_two", *call(ppval_two, x, X, UY, UZ, d)),
        ]
        if not np.isnan(X).any() and not np.isnan(Y).any() and len(X) >= 2:
            NY, NZ = call(c1n, X, Y), call(c1n, X, Z)
            got += [
                ("ppval_1_nonan", call(ppval_1_nonan, x, X, NY, d), call(ppval_1_nonan, x, X, NZ, d)),
                ("ppval_1_nonan_two", *call(ppval_1_nonan_two, x, X, NY, NZ, d)),
                ("nonan coeffs+ppval_1", call(ppval_1, x, X, NY, d), None),
                ("nonan coeffs+ppval_1_two", *call(ppval_1_two, x, X, NY, NZ, d)),
            ]
            ctx.label("nonan")
        for nm, y, z in got:
            hit |= rY.verify(y, x, d, f"{it} {nm}")
            if z is not None:
                rZ.verify(z, x, d, f"{it} {nm} (second variable)")
        # defaults: no derivative
        if d == 0:
            for nm, y in (("interp_1", call(i1, x, X, Y)), ("ppval_1", call(ppval_1, x, X, CY))):
                rY.verify(y, x, 0, f"{it} {nm} default order")
            for nm, (y, z) in (("interp_1_two", call(i1two, x, X, Y, Z)), ("ppval_1_two", call(ppval_1_two, x, X, CY, CZ))):
                rY.verify(y, x, 0, f"{it} {nm} default order")
                rZ.verify(z, x, 0, f"{it} {nm} default order")
            if it == "pchip":
                rY.verify(call(iu, x, X, Y), x, 0, "pchip interp default order")
    ctx.label(f"d{d}")
    ctx.nontrivial(hit)


# -- broadcasting of the universal variants
@st.composite
def multi(draw, cfg):
    nd = draw(I(0, 3))
    c = dict(interp=cfg[0], dims=[draw(I(1, 3)) for _ in range(nd)], t=draw(table(nmax=7)), d=draw(I(0, 3)))
    bit = st.lists(st.booleans(), min_size=3, max_size=3)
    c["sx"], c["sX"], c["sY"] = draw(bit), draw(bit), draw(bit)
    c["dropX"], c["dropx"] = draw(I(0, 3)), draw(I(0, 3))
    c["x"] = draw(sites(4))
    c["order"] = draw(st.sampled_from(["C", "F", "stride"]))
    return c


def _arr(dims, keep, drop, per, tail):
    """Array over dims, singleton where keep is False, leading `drop` dims dropped when singleton."""
    shp = [n if k else 1 for n, k in zip(dims, keep)]
    while drop > 0 and shp and shp[0] == 1:
        shp, drop = shp[1:], drop - 1
    out = np.empty(tuple(shp) + tail)
    for ix in np.ndindex(*shp):
        out[ix] = per(int(np.ravel_multi_index(ix, shp)) if shp else 0)
    return out


def check_multi(c, ctx):
    dims, t, it, d = tuple(c["dims"]), c["t"], c["interp"], c["d"]
    n = t["n"]
    X = _arr(dims, c["sX"], c["dropX"], lambda i: xy(dict(t, ns=t["ns"] + 17 * i, x0=t["x0"] + i))[0], (n,))
    Y = _arr(dims, c["sY"], 0, lambda i: xy(dict(t, ns=t["ns"] + 31 * i), salt=5)[1], (n,))
    Z = np.where(np.isnan(Y), np.nan, 2.0 - 0.5 * Y[..., ::-1])
    Z = np.where(np.isnan(Y), np.nan, np.where(np.isnan(Z), 0.25, Z))
    outer = np.broadcast_shapes(X.shape[:-1], Y.shape[:-1])
    Xb, Yb, Zb = (np.broadcast_to(A, outer + (n,)) for A in (X, Y, Z))
    full_x = [n_ if k else 1 for n_, k in zip(dims, c["sx"])]
    Xf, Yf = (np.broadcast_to(A, dims + (n,)).reshape(-1, n) for A in (X, Y))
    x = _arr(dims, c["sx"], c["dropx"], lambda i: site(c["x"][i % len(c["x"])], Xf[i % len(Xf)], Yf[i % len(Yf)]), ())
    if c["order"] == "F":
        X, Y, Z = (np.asfortranarray(A) for A in (X, Y, Z))
    elif c["order"] == "stride":
        X, Y, Z = (np.repeat(A, 2, axis=-1)[..., ::2] for A in (X, Y, Z))
    outer_all = np.broadcast_shapes(x.shape, outer)
    cu = make_pp(it, "u", "coeffs")
    iu = make_pp(it, "u", "interp")
    iu2 = make_pp(it, "u", "interp", num_dep_vars=2)
    CY, CZ = call(cu, X, Y), call(cu, X, Z)
    require(CY.shape == outer + (n, 2 if it == "linear" else 4), lambda: f"{it}: coefficients of shape {CY.shape} from {X.shape}, {Y.shape}")
    got = [
        ("interp", call(iu, x, X, Y, d), None),
        ("interp_two", *call(iu2, x, X, Y, Z, d)),
        ("ppval", call(ppval, x, X, CY, d), call(ppval, x, X, CZ, d)),
        ("ppval_two", *call(ppval_two, x, X, CY, CZ, d)),
    ]
    hit = False
    xb = np.broadcast_to(x, outer_all)
    XB, YB, ZB = (np.broadcast_to(A, outer_all + (n,)) for A in (Xb, Yb, Zb))
    for ix in np.ndindex(*outer_all):
        rY, rZ = Ref(XB[ix], YB[ix], it), Ref(XB[ix], ZB[ix], it)
        for nm, y, z in got:
            require(np.shape(y) == outer_all, lambda: f"{it} {nm}: shape {np.shape(y)}, expected {outer_all}")
            hit |= rY.verify(np.asarray(y)[ix], float(xb[ix]), d, f"{it} {nm} at {ix} of {outer_all}")
            if z is not None:
                rZ.verify(np.asarray(z)[ix], float(xb[ix]), d, f"{it} {nm} second variable at {ix} of {outer_all}")
    ctx.label(f"outer{len(outer_all)}")
    ctx.nontrivial(hit and len(outer_all) > 0)


# -- the polynomial evaluator
@st.composite
def poly(draw, cfg):
    return dict(C=draw(st.lists(F(-100.0, 100.0), min_size=1, max_size=6)), x=draw(F(-20.0, 20.0)), d=draw(I(0, 6)), tup=draw(I(0, 1)))


def check_poly(c, ctx):
    C = np.array(c["C"])
    p = np.poly1d(C)
    v = float(p.deriv(c["d"])(c["x"])) if c["d"] else float(np.polyval(C, c["x"]))
    y = float(call(pval, c["x"], C, c["d"]))
    a = np.poly1d(abs(C))
    scale = float(a.deriv(c["d"])(abs(c["x"]))) if c["d"] else float(np.polyval(abs(C), abs(c["x"])))
    require(abs(y - v) <= 1e-12 * scale + 1e-300, lambda: f"pval: derivative {c['d']} of {C} at {c['x']}: {y!r}, expected {v!r}")
    if c["d"] == 0:
        require(float(call(pval, c["x"], C)) == y, "pval: default order is not 0")
    ctx.nontrivial(len(C) > c["d"] and scale > 0)


# -- histories of requests to the factory
@st.composite
def hist(draw, cfg):
    req = st.tuples(st.sampled_from(["linear", "pchip", "cubic"]), st.sampled_from(["1", "u", "2"]), st.sampled_from(["coeffs", "interp", "both"]), st.booleans(), I(1, 3)).map(list)
    good = st.tuples(st.sampled_from(["linear", "pchip"]), st.sampled_from(["1", "u"]), st.sampled_from(["coeffs", "interp"]), st.booleans(), I(1, 2)).map(list)
    return dict(h=draw(st.lists(st.one_of(good, good, req), min_size=1, max_size=16)))


def check_hist(c, ctx):
    X = np.array([0.0, 1.0, 2.5, 4.0, 4.5])
    Y = np.array([3.0, 1.0, 1.5, 1.5, -2.0])
    Z = Y[::-1] * 2
    bad = ok = 0
    for it, kind, out, nans, num in c["h"]:
        valid = it != "cubic" and kind != "2" and out != "both" and num < 3
        valid = valid and not (out == "coeffs" and num != 1)
        valid = valid and not (not nans and (out == "interp" or kind == "u"))
        if not valid:
            call_raises(make_pp, ValueError, it, kind, out, nans, num)
            bad += 1
            continue
        ok += 1
        fn = call(make_pp, it, kind, out, nans, num)
        rY, rZ = Ref(X, Y, it), Ref(X, Z, it)
        what = f"make_pp{(it, kind, out, nans, num)}"
        for x in (0.0, 0.7, 1.0, 2.0, 3.3, 4.2, 4.5, 5.0):
            if out == "coeffs":
                C = call(fn, X, Y)
                require(np.shape(C) == (5, 2 if it == "linear" else 4), lambda: f"{what}: coefficients of shape {np.shape(C)}")
                rY.verify(call(ppval_1, x, X, np.asarray(C), 0), x, 0, what)
            elif num == 1:
                rY.verify(call(fn, x, X, Y, 0), x, 0, what)
            else:
                y, z = call(fn, x, X, Y, Z, 0)
                rY.verify(y, x, 0, what)
                rZ.verify(z, x, 0, what)
        if kind == "u" and out == "interp" and num == 1:
            y = call(fn, np.array([0.5, 3.0]), X, np.stack((Y, Z)), 0)
            require(np.shape(y) == (2,), lambda: f"{what}: not universal")
    ctx.label("requests", len(c["h"]))
    ctx.nontrivial(ok and bad)


SUBS = [
    Sub("single", single, check_single, [["linear"], ["pchip"]], n=(2000, 20000), cap=(60, 400), parts=(2, 3)),
    Sub("multi", multi, check_multi, [["linear"], ["pchip"]], n=(1600, 15000), cap=(60, 400), parts=(2, 3)),
    Sub("poly", poly, check_poly, n=(4000, 40000), cap=(30, 200)),
    Sub("hist", hist, check_hist, n=(800, 5000), cap=(40, 300)),
]


def WARM():
    X = np.arange(5.0)
    for it in ("linear", "pchip"):
        for d in (0,):
            C = make_pp(it, "1", "coeffs")(X, X)
            make_pp(it, "1", "coeffs", nans=False)(X, X)
            make_pp(it, "1", "interp")(1.5, X, X, d)
            make_pp(it, "1", "interp", num_dep_vars=2)(1.5, X, X, X, d)
            make_pp(it, "1", "interp")(1.5, X, X)
            make_pp(it, "1", "interp", num_dep_vars=2)(1.5, X, X, X)
            ppval_1(1.5, X, C, d), ppval_1_two(1.5, X, C, C, d), ppval_1(1.5, X, C), ppval_1_two(1.5, X, C, C)
            ppval_1_nonan(1.5, X, C, d), ppval_1_nonan_two(1.5, X, C, C, d)
    pval(1.0, X, 1)
    pval(1.0, X)
