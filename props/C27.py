"""C27: the synthetic ocean has the documented shape, walls, ranges and spherical geometry."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I
from neutralocean.synthocean import synthocean

RULE = (
    "A case is a shape (2-9 by 2-9 by 2-9), a bottom pressure, a southern salinity anomaly, periodicities and zonal "
    "uniformity.  Non-trivial: every case."
)
ASSUMPTIONS = []


@st.composite
def case(draw, cfg):
    return dict(sh=[draw(I(2, 12)), draw(I(2, 12)), draw(I(2, 12))], pb=draw(st.sampled_from(["d", 4000.0]) | F(10.0, 9000.0)), a=draw(st.sampled_from(["d", 0.0, 0.3]) | F(-1.0, 2.0)), zu=draw(st.booleans()), wrap=[draw(st.booleans()), draw(st.booleans())], wd=draw(st.booleans()))


def check(c, ctx):
    ni, nj, nk = c["sh"]
    kw = {}
    if c["pb"] != "d":
        kw["pbot"] = c["pb"]
    if c["a"] != "d":
        kw["SSSSa"] = c["a"]
    pb, an = kw.get("pbot", 4000.0), kw.get("SSSSa", 0.3)
    wrap = (False, False)
    if not c["wd"]:
        wrap = tuple(c["wrap"])
        kw["wrap"] = wrap
    if c["zu"]:
        kw["zonally_uniform"] = True
    S, T, P, g = call(synthocean, (ni, nj, nk), **kw)
    what = f"synthocean({c['sh']}, {kw})"
    require(S.shape == T.shape == (ni, nj, nk) and P.shape == (nk,), f"{what}: shapes {S.shape}, {T.shape}, {P.shape}")
    wall = np.zeros((ni, nj), bool)
    if not wrap[0]:
        wall[0] = True
    if not wrap[1]:
        wall[:, 0] = True
    for X, nm in ((S, "S"), (T, "T")):
        require(np.array_equal(np.isnan(X), np.broadcast_to(wall[:, :, None], X.shape)), f"{what}: {nm} is missing elsewhere than at the walls of wrap={wrap}")
    require(P[0] == 0.0 and abs(P[-1] - pb) <= 1e-9 * pb and np.all(np.diff(P) > 0), f"{what}: P={P}")
    # the same ocean without walls
    S0, T0, _, _ = call(synthocean, (ni, nj, nk), **dict(kw, wrap=(True, True)))
    require(np.array_equal(np.where(wall[:, :, None], np.nan, S0), S, equal_nan=True) and np.array_equal(np.where(wall[:, :, None], np.nan, T0), T, equal_nan=True), f"{what}: the walls change the interior")
    require(np.all(np.isfinite(S0)) and np.all(np.isfinite(T0)), f"{what}: not finite")
    tol = 1e-9
    require(abs(T0[..., 0].min() + 1.8) < tol and abs(T0[..., 0].max() - 30.0) < tol, f"{what}: surface temperature ranges {T0[..., 0].min()}..{T0[..., 0].max()}, not -1.8..30")
    # linear in the level between surface and bottom
    w = np.linspace(0, 1, nk)
    for X, nm in ((S0, "S"), (T0, "T")):
        require(np.allclose(X, X[..., :1] * (1 - w) + X[..., -1:] * w, rtol=0, atol=1e-9), f"{what}: {nm} is not linear in the level")
        require(np.allclose(X[..., -1], X[:1, :, -1], rtol=0, atol=1e-9), f"{what}: bottom {nm} varies with longitude")
        if c["zu"]:
            require(np.allclose(X, X[:1], rtol=0, atol=1e-9), f"{what}: {nm} varies with longitude")
    # the southern salinity anomaly
    S1, T1, _, _ = call(synthocean, (ni, nj, nk), **dict(kw, wrap=(True, True), SSSSa=0.0))
    exp = an * np.linspace(1, 0, nj)[None, :, None] * (1 - w)[None, None, :]
    require(np.allclose(S0 - S1, np.broadcast_to(exp, S0.shape), rtol=0, atol=1e-9) and np.array_equal(T0, T1), f"{what}: the effect of SSSSa={an} on salinity is not a southward ramp fading with depth")
    # geometry of a uniform latitude-longitude grid from 80S to 60N
    R = g["rSphere"]
    d2r = np.pi / 180
    dlon, dlat = 360 / ni, 140 / nj
    yg = -80 + dlat * np.arange(nj)
    yc = yg + dlat / 2
    exp = dict(
        nx=ni, ny=nj, nz=nk, XGvec=dlon * np.arange(ni), YGvec=yg, XCvec=dlon * (np.arange(ni) + 0.5), YCvec=yc,
        DXGvec=R * np.cos(yg * d2r) * dlon * d2r, DXCvec=R * np.cos(yc * d2r) * dlon * d2r, DYGsc=R * dlat * d2r, DYCsc=R * dlat * d2r,
        RACvec=R * R * dlon * d2r * (np.sin((yg + dlat) * d2r) - np.sin(yg * d2r)), RAWvec=R * R * dlon * d2r * (np.sin((yg + dlat) * d2r) - np.sin(yg * d2r)),
        RASvec=R * R * dlon * d2r * np.abs(np.sin(yc * d2r) - np.sin((yc - dlat) * d2r)), RAZvec=R * R * dlon * d2r * np.abs(np.sin(yc * d2r) - np.sin((yc - dlat) * d2r)),
    )
    require(6.3e6 < R < 6.4e6, f"{what}: Earth radius {R}")
    for k, v in exp.items():
        require(k in g, lambda: f"{what}: no {k}")
        require(np.shape(g[k]) == np.shape(v) and np.allclose(g[k], v, rtol=1e-9, atol=1e-9 * np.max(np.abs(v))), lambda: f"{what}: {k} is {g[k]}, expected {v}")
    tot = float(np.sum(g["RACvec"]) * ni)
    require(abs(tot - 2 * np.pi * R * R * (np.sin(60 * d2r) + np.sin(80 * d2r))) <= 1e-9 * tot, f"{what}: cell areas sum to {tot}")
    ctx.nontrivial()


SUBS = [Sub("synth", case, check, [[0], [1]], n=(500, 10000), cap=(60, 300))]
