"""C06: one-dimensional interpolation returns the documented interpolant and its derivatives."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import I
from harness.ppref import Ref, site, sites, table, xy
from neutralocean.ppinterp import ppval, ppval_1
from neutralocean.ppinterp.linear import linear_coeffs, linear_coeffs_1, linear_interp, linear_interp_1
from neutralocean.ppinterp.pchip import pchip_coeffs, pchip_coeffs_1, pchip_interp, pchip_interp_1

RULE = (
    "A case is a table of 1-16 points (spacings varying over up to 3 decades; monotone, alternating, flat, linear, random "
    "data over 12 decades, or so small or large that slopes times slopes leave the range of doubles; missing values anywhere in X or Y), up to 6 evaluation sites (inside, on knots, one ulp off, "
    "ends, outside, NaN, infinite) and a derivative order 0-4.  Non-trivial: at least one site lies inside the valid data."
)
ASSUMPTIONS = ["X increases strictly within its first valid block", "X, Y contain no infinities"]
COEFF = dict(linear=(linear_coeffs, linear_coeffs_1), pchip=(pchip_coeffs, pchip_coeffs_1))
INTERP = dict(linear=(linear_interp, linear_interp_1), pchip=(pchip_interp, pchip_interp_1))


@st.composite
def case(draw, cfg):
    return dict(interp=cfg[0], t=draw(table(nmax=16)), x=draw(sites(6)), d=draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4])))


def check(c, ctx):
    X, Y = xy(c["t"])
    it, d = c["interp"], c["d"]
    ref = Ref(X, Y, it)
    xs = [site(s, X, Y) for s in c["x"]]
    X0, Y0 = X.copy(), Y.copy()
    C = call(COEFF[it][0], X, Y)
    C1 = call(COEFF[it][1], X, Y)
    any_in = False
    for x in xs:
        for nm, y in (
            ("interp_1", call(INTERP[it][1], x, X, Y, d)),
            ("interp", call(INTERP[it][0], x, X, Y, d)),
            ("coeffs+ppval", call(ppval, x, X, C, d)),
            ("coeffs_1+ppval_1", call(ppval_1, x, X, C1, d)),
        ):
            any_in |= ref.verify(y, x, d, f"{it} {nm}")
    require(np.array_equal(X, X0, equal_nan=True) and np.array_equal(Y, Y0, equal_nan=True), "the table was modified")
    if d == 0 and ref.ok:  # shape preservation: no overshoot between neighbours
        for x in xs:
            if np.isfinite(x) and ref.X[0] <= x <= ref.X[-1]:
                i = ref.pieces(x)[0]
                lo, hi = sorted(ref.Y[i : i + 2])
                y = float(call(INTERP[it][1], x, X, Y, 0))
                require(lo - ref.tol(i, 0) <= y <= hi + ref.tol(i, 0), lambda: f"{it}: {y!r} overshoots the neighbouring data {lo!r}, {hi!r}")
    ctx.label(f"d{d}")
    ctx.label("valid" if ref.ok else "too-few")
    if ref.ok and len(ref.X) < len(X):
        ctx.label("partly-missing")
    for s in c["x"]:
        ctx.label("at-" + s[0])
    ctx.nontrivial(any_in)


SUBS = [Sub("interp", case, check, [["linear"], ["pchip"]], n=(1500, 40000), cap=(60, 500), parts=(4, 4))]


def WARM():
    x = np.arange(5.0)
    for it in ("linear", "pchip"):
        ppval(1.5, x, COEFF[it][0](x, x), 0)
        ppval_1(1.5, x, COEFF[it][1](x, x), 0)
        for f in INTERP[it]:
            f(1.5, x, x, 0)
