"""C03: the neutral link from a bottle to a cast."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import EOS, INTERPS, F, I, build, eos_fun, logF, ocean, ref_eos
from harness.oracle import RefCast, check_root, must_exist, noise_of, same_point
from neutralocean.traj import ntp_bottle_to_cast

RULE = (
    "A case is a cast (2-24 bottles, rough or smooth, with missing tops / bottoms / holes / pressures), a bottle (on the "
    "cast, its shallowest, near it, unrelated, above or below its pressure range), an equation of state, an interpolant and a tolerance. "
    "Non-trivial: the link exists strictly inside the cast, or the model proves it must / must not exist."
)
ASSUMPTIONS = ["the bottle is finite; P increases strictly in the cast's valid block"]


@st.composite
def case(draw, cfg):
    c = dict(cfg=cfg, o=draw(ocean(hdims=(1,), nmax=4, nk=(2, 24))))
    c["src"] = draw(st.sampled_from(["on", "near", "near", "far", "any", "top"]))
    c["cast"] = draw(I(0, 10**4))
    c["fr"] = draw(F(0.0, 1.0))
    c["ds"], c["dt"] = draw(F(-1.0, 1.0)), draw(F(-3.0, 3.0))
    c["dp"] = draw(st.sampled_from([0.0]) | F(-3000.0, 3000.0))
    c["b"] = [draw(F(20.0, 40.0)), draw(F(-2.0, 30.0)), draw(F(0.0, 8000.0))]
    c["tol"] = draw(st.sampled_from([None, 1e-4]) | logF(1e-10, 30.0))
    return c


def check(c, ctx):
    eosname, interp, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = build(c["o"])
    f = ref_eos(eosname, grav, rho_c)
    delta = 2 * noise_of(eosname)
    casts = [RefCast(S[n], T[n], P[n], interp) for n in range(len(S))]
    good = [n for n in range(len(S)) if casts[n].ok]
    if c["src"] == "any" or not good:
        sB, tB, pB = c["b"]
    else:
        cm = casts[good[c["cast"] % len(good)]]
        pB = cm.A if c["src"] == "top" else min(cm.B, cm.A + c["fr"] * (cm.B - cm.A))
        sB, tB = (float(v) for v in cm.st(pB))
        if c["src"] in ("near", "far"):
            k = 0.1 if c["src"] == "near" else 1.0
            sB, tB, pB = sB + k * c["ds"], tB + k * c["dt"], max(0.0, pB + (c["dp"] * k))
    kw = dict(eos=eos_fun(eosname), interp=interp, grav=grav, rho_c=rho_c)
    if c["tol"] is not None:
        kw["tol_p"] = c["tol"]
    tol = 1e-4 if c["tol"] is None else c["tol"]
    for n, cn in enumerate(casts):
        what = f"link/{eosname}/{interp} to cast {n}"
        out = call(ntp_bottle_to_cast, sB, tB, pB, S[n], T[n], P[n], **kw)
        require(isinstance(out, tuple) and len(out) == 3, f"{what}: not (s, t, p)")
        s, t, p = (float(v) for v in out)
        if not cn.ok:
            require(np.isnan(s) and np.isnan(t) and np.isnan(p), lambda: f"{what}: fewer than two usable bottles but {out}")
            ctx.label("unusable")
            continue

        def G(x, cn=cn):
            ss, tt = cn.st(x)
            pa = 0.5 * (pB + x)
            return f(sB, tB, pa) - f(ss, tt, pa)

        exist = must_exist(G, cn.A, cn.B, delta)
        if c["src"] == "top" and good and n == good[c["cast"] % len(good)]:
            # the shallowest bottle of the very cast: the difference vanishes there identically
            require(np.isfinite(p), lambda: f"{what}: no link from the shallowest bottle {(sB, tB, pB)} of the cast to the cast itself")
            ctx.label("top-self")
        if np.isnan(p):
            require(np.isnan(s) and np.isnan(t), lambda: f"{what}: p is NaN but s={s}, t={t}")
            require(not exist, lambda: f"{what}: cast straddles the bottle's density but no link was made from {(sB, tB, pB)}")
            ctx.label("absent")
            # the bottle's own level, when in range, brackets a root with either end
            q = min(max(pB, cn.A), cn.B)
            g = G(np.array([cn.A, q, cn.B]))
            require(not (g.max() > delta and g.min() < -delta), lambda: f"{what}: sign change between the bottle's level and an end of the cast missed")
            continue
        check_root(G, p, cn.A, cn.B, tol, delta, cn.X, what)
        same_point(cn, s, t, p, what)
        ctx.label("found")
        ctx.nontrivial(exist or cn.A < p < cn.B)
    ctx.label("src-" + c["src"])


BSQ = [9.81, 1027.5]
CONFIGS = [[e, i, None] for e in EOS for i in INTERPS] + [["jmd95", "linear", BSQ], ["gsw", "pchip", BSQ]]
SUBS = [Sub("link", case, check, CONFIGS, n=(500, 12000), cap=(60, 420))]


def WARM():
    x = np.linspace(0, 100, 6)
    from harness.gen import custom_eos

    for i in INTERPS:
        ntp_bottle_to_cast(35.0, 5.0, 50.0, 34 + x / 100, 20 - x / 10, x, eos=custom_eos, interp=i)
