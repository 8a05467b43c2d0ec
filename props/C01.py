"""C01: isopycnal surfaces solve their defining equation in every water column."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import EOS, INTERPS, F, I, build, eos_arg, logF, ocean, ref_eos, warm_surface
from harness.oracle import RefCast, as_array, check_root, must_exist, noise_of, same_nan, same_point
from neutralocean.surface import anomaly_surf, potential_surf

RULE = (
    "A case is an ocean (1-4 dims, 2-24 levels, rough or smooth, possibly statically unstable, with land, shallow, "
    "single-bottle, surface-missing, holed and P-missing casts), a surface kind, an equation of state (5), an "
    "interpolant, a reference and an isovalue taken from inside or just outside the ocean, a solver tolerance, and "
    "optionally a Boussinesq (grav, rho_c).  Non-trivial: at least one cast holds the surface strictly inside it "
    "AND the outcome (found / absent) was forced by the reference model in at least one cast."
)
ASSUMPTIONS = [
    "P increases strictly within the valid block of each cast and S, T share their NaN structure, as documented",
    "round-off of the equation of state is below 4e-14 of its magnitude",
]


@st.composite
def case(draw, cfg):
    o = draw(ocean(hdims=(cfg[3],), nmax=(9, 4, 2)[cfg[3] - 1], nk=(2, 14)))
    c = dict(cfg=cfg, o=o)
    c["tol"] = draw(st.sampled_from([None, 1e-4]) | logF(1e-10, 30.0))
    c["src"] = draw(st.sampled_from(["in", "in", "in", "out", "bottle"]))
    c["cast"] = draw(I(0, 10**4))
    c["fr"] = draw(F(0.0, 1.0))
    c["refp"] = draw(st.sampled_from([0.0, 1000.0]) | F(0.0, 6000.0))
    c["ref"] = [draw(F(30.0, 38.0)), draw(F(-2.0, 25.0))]
    c["diags"] = draw(st.booleans())
    c["fresh"] = draw(st.sampled_from([None, None, None, None, None, 0, 1]))
    return c


def check(c, ctx):
    eosname, interp, kind, _, bsq = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    if c["fresh"] is not None:  # a column (or an ocean) of fresh water
        X = S.reshape(N, -1)
        X = X if c["fresh"] else X[c["cast"] % N]
        X[np.isfinite(X)] = 0.0
    grav, rho_c = bsq or (None, None)
    f = ref_eos(eosname, grav, rho_c)
    delta = noise_of(eosname)
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    good = [n for n in range(N) if casts[n].ok]
    if good:
        m = good[c["cast"] % len(good)]
        cm = casts[m]
        if c["src"] == "bottle":
            pm = float(cm.X[int(c["fr"] * (cm.n - 1))])
        else:
            pm = cm.A + c["fr"] * (cm.B - cm.A)
        sm, tm = (float(v) for v in cm.st(min(max(pm, cm.A), cm.B)))
    else:
        pm, sm, tm = 500.0, 35.0, 5.0
    if kind == "potential":
        ref = float(c["refp"])
        isoval = float(f(sm, tm, ref))
    else:
        ref = (float(c["ref"][0]), float(c["ref"][1]))
        isoval = float(f(sm, tm, pm) - f(ref[0], ref[1], pm))
    if c["src"] == "out":
        isoval += (c["fr"] - 0.5) * 0.02 * abs(f(35.0, 10.0, 0.0))
    kw = dict(ref=ref, isoval=isoval, eos=eos_arg(eosname), interp=interp, grav=grav, rho_c=rho_c, output=False)
    if c["tol"] is not None:
        kw["TOL_P_SOLVER"] = c["tol"]
    tol = 1e-4 if c["tol"] is None else c["tol"]
    if c["diags"]:
        a = np.arange(max(N - 1, 0))
        kw["grid"] = {"edges": (a, a + 1)}
    else:
        kw["diags"] = False
    fn = potential_surf if kind == "potential" else anomaly_surf
    out = call(fn, S, T, P, **kw)
    require(isinstance(out, tuple) and len(out) == 4, "the surface is not returned as (s, t, p, d)")
    s, t, p = (as_array(x, hs, nm).reshape(-1) for x, nm in zip(out, "stp"))
    d = out[3]
    same_nan(s, t, p, kind)
    forced = inside = 0
    for n in range(N):
        cn = casts[n]
        what = f"{kind}/{eosname}/{interp} cast {n}"
        if not cn.ok:
            require(np.isnan(p[n]), lambda: f"{what} has fewer than two usable bottles but p={p[n]!r}")
            ctx.label("unusable")
            continue

        def G(x, cn=cn):
            ss, tt = cn.st(x)
            if kind == "potential":
                return f(ss, tt, ref) - isoval
            return f(ss, tt, x) - f(ref[0], ref[1], x) - isoval

        exist = must_exist(G, cn.A, cn.B, delta)
        if np.isnan(p[n]):
            require(not exist, lambda: f"{what}: ends of the cast straddle the isovalue but the surface is absent")
            ctx.label("absent")
            # nowhere in the cast may be claimed; the ends are on one side
            continue
        check_root(G, p[n], cn.A, cn.B, tol, delta, cn.X, what)
        same_point(cn, s[n], t[n], min(max(p[n], cn.A), cn.B), what)
        ctx.label("found")
        if exist:
            forced += 1
        if cn.A < p[n] < cn.B:
            inside += 1
        if not exist:
            xs = np.linspace(cn.A, cn.B, 400)
            v = G(np.concatenate((xs, cn.X)))
            require(v.min() <= delta and v.max() >= -delta, lambda: f"{what}: surface found where the equation has no solution")
            ctx.label("found-not-forced")
    if c["diags"]:
        nw = int(np.isfinite(p).sum())
        require(int(d["n_wet"]) == nw, lambda: f"n_wet={d['n_wet']} but {nw} casts hold the surface")
    ctx.label("kind-" + c["src"])
    ctx.nontrivial(forced and inside)


BSQ = [9.81, 1027.5]
CONFIGS = [
    [e, i, k, 1 + (n + (k == "anomaly") + (i == "pchip")) % 3, None]
    for n, e in enumerate(EOS)
    for i in INTERPS
    for k in ("potential", "anomaly")
]
CONFIGS += [["jmd95", "linear", "potential", 2, BSQ], ["gsw", "pchip", "anomaly", 1, BSQ], ["jmdfwg06", "linear", "anomaly", 2, BSQ]]
SUBS = [Sub("surface", case, check, CONFIGS, n=(150, 4000), cap=(60, 420))]
WARM = warm_surface
