"""C02: how a surface is selected (reference, isovalue, pinning) and what is reported back."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, call_raises, require
from harness.gen import F, I, build, eos_arg, ocean, ref_eos, warm_surface
from harness.oracle import RefCast, as_array, check_root, expect_close, must_exist, noise_of, same_nan, same_point
from neutralocean.surface import anomaly_surf, potential_surf

RULE = (
    "A case is an ocean with masked casts, a surface kind, an equation of state, an interpolant, a pinning cast given "
    "as tuple / list / int, a pinning pressure inside that cast (bottles and ends included) and one of the documented "
    "ways of selecting a surface.  Non-trivial: the surface exists in a cast other than the pinning cast."
)
ASSUMPTIONS = ["pin_p lies within the valid range of the pinning cast", "pin_p and ref are Python floats, as the code requires"]
MODES = ("ref+iso", "ref+iso+pin", "ref+pin", "pin", "halfref+pin", "bad")


@st.composite
def case(draw, cfg):
    nd = cfg[3]
    c = dict(cfg=cfg, o=draw(ocean(hdims=(nd,), nmax=(8, 4, 2)[nd - 1], nk=(2, 12))))
    c["mode"] = draw(st.sampled_from(MODES))
    c["cast"] = draw(I(0, 10**4))
    c["at"] = draw(st.sampled_from(["frac", "frac", "bottle", "top", "end"]))
    c["fr"] = draw(F(0.0, 1.0))
    c["refp"] = draw(st.sampled_from([0.0, 2000.0]) | F(0.0, 6000.0))
    c["ref"] = [draw(F(30.0, 38.0)), draw(F(-2.0, 25.0))]
    c["half"] = draw(I(0, 2))
    c["form"] = draw(st.sampled_from(["tuple", "list", "int", "neg"]))
    c["tol"] = draw(st.sampled_from([1e-4, 1e-8, 1e-2, 5.0]))
    c["bad"] = draw(I(0, 4))
    c["twice"] = draw(st.sampled_from([0, 0, 1]))
    return c


def check(c, ctx):
    eosname, interp, kind, _ = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    f = ref_eos(eosname)
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    good = [n for n in range(N) if casts[n].ok]
    if not good:
        return
    m = good[c["cast"] % len(good)]
    at = c["at"]
    if c["twice"] and at == "top":
        # the water pinned at the very surface (pressure zero) recurs deeper in the same cast: pinning has to pick it
        k = int(np.flatnonzero(np.isfinite(S.reshape(N, -1)[m] + P.reshape(N, -1)[m]))[0])
        P = P - P.reshape(N, -1)[m, k]
        j = k + 1 + int(c["fr"] * (casts[m].n - 2))
        for X in (S, T):
            X.reshape(N, -1)[m, k] = X.reshape(N, -1)[m, j]
        casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    cm = casts[m]
    if at == "bottle":
        pin_p = float(cm.X[int(c["fr"] * (cm.n - 1))])
    elif at == "top":
        pin_p = cm.A
    elif at == "end":
        pin_p = cm.B
    else:
        pin_p = min(cm.B, cm.A + c["fr"] * (cm.B - cm.A))
    s0, t0 = (float(v) for v in cm.st(pin_p))
    ij = tuple(int(i) for i in np.unravel_index(m, hs))
    form = c["form"]
    pin_cast = ij
    if form == "list":
        pin_cast = list(ij)
    elif form == "int" and len(hs) == 1:
        pin_cast = ij[0]
    elif form == "neg":
        pin_cast = tuple(i - n for i, n in zip(ij, hs))
    a = np.arange(N - 1)
    base = dict(eos=eos_arg(eosname), interp=interp, grid={"edges": (a, a + 1)}, output=False, TOL_P_SOLVER=c["tol"])
    fn = potential_surf if kind == "potential" else anomaly_surf
    pot = kind == "potential"
    gref = float(c["refp"]) if pot else tuple(float(v) for v in c["ref"])
    mode = c["mode"]
    if mode == "halfref+pin" and pot:
        mode = "pin"
    what = f"{kind}/{eosname}/{interp} {mode}"

    if mode == "bad":
        bad = [dict(), dict(ref=gref), dict(pin_p=pin_p), dict(pin_cast=pin_cast), dict(ref=gref, pin_p=pin_p)][c["bad"]]
        call_raises(fn, (TypeError, ValueError), S, T, P, **base, **bad)
        ctx.label("bad")
        ctx.nontrivial()
        return

    dval = 1e-9 * abs(float(f(s0, t0, pin_p))) + 1e-12 * 0
    if mode.startswith("ref+iso"):
        iso = float(f(s0, t0, gref)) if pot else float(f(s0, t0, pin_p) - f(gref[0], gref[1], pin_p))
        kw = dict(ref=gref, isoval=iso)
        exp_ref, exp_iso = gref, iso
        if mode == "ref+iso+pin":  # pin arguments must not matter: give ones belonging to a different surface
            kw.update(pin_cast=pin_cast, pin_p=float(min(cm.B, max(cm.A, 0.5 * (pin_p + cm.A) + 1.0))))
    elif mode == "ref+pin":
        kw = dict(ref=gref, pin_cast=pin_cast, pin_p=pin_p)
        exp_ref = gref
        exp_iso = float(f(s0, t0, gref)) if pot else float(f(s0, t0, pin_p) - f(gref[0], gref[1], pin_p))
    else:
        kw = dict(pin_cast=pin_cast, pin_p=pin_p)
        if mode == "halfref+pin":
            kw["ref"] = [(None, gref[1]), (gref[0], None), (None, None)][c["half"]]
        exp_ref = pin_p if pot else (s0, t0)
        exp_iso = float(f(s0, t0, pin_p)) if pot else 0.0
    s, t, p, d = call(fn, S, T, P, **base, **kw)
    s, t, p = (as_array(x, hs, nm).reshape(-1) for x, nm in zip((s, t, p), "stp"))
    same_nan(s, t, p, what)

    # --- what is reported
    require("ref" in d and "isoval" in d, f"{what}: diagnostics lack ref / isoval")
    mag = abs(float(f(35.0, 5.0, 1000.0)))
    if pot:
        require(np.isscalar(d["ref"]) and float(d["ref"]) == float(exp_ref), lambda: f"{what}: d['ref']={d['ref']!r}, expected {exp_ref!r}")
    else:
        require(len(d["ref"]) == 2, lambda: f"{what}: d['ref']={d['ref']!r}")
        for got, e in zip(d["ref"], exp_ref):
            ok = float(got) == e if mode.startswith("ref+") else abs(float(got) - e) <= 1e-9 * (1 + abs(e))
            require(ok, lambda: f"{what}: d['ref']={d['ref']!r}, expected {exp_ref!r}")
    if mode.startswith("ref+iso"):
        require(float(d["isoval"]) == exp_iso, lambda: f"{what}: d['isoval']={d['isoval']!r}, given {exp_iso!r}")
    else:
        require(abs(float(d["isoval"]) - exp_iso) <= 2e-13 * mag, lambda: f"{what}: d['isoval']={d['isoval']!r}, expected {exp_iso!r}")

    # --- the pinning cast
    pinned = not mode.startswith("ref+iso")
    if pinned:
        require(p[m] == pin_p, lambda: f"{what}: surface at the pinning cast is {p[m]!r}, not pin_p={pin_p!r}")
        same_point(cm, s[m], t[m], pin_p, what + " pinning cast")

    # --- everywhere else it is the (ref, isoval) surface
    ref, iso = (float(d["ref"]) if pot else tuple(float(v) for v in d["ref"])), float(d["isoval"])
    delta = noise_of(eosname)
    for n in range(N):
        cn = casts[n]
        if not cn.ok or (pinned and n == m):
            continue

        def G(x, cn=cn):
            ss, tt = cn.st(x)
            return (f(ss, tt, ref) if pot else f(ss, tt, x) - f(ref[0], ref[1], x)) - iso

        if np.isnan(p[n]):
            require(not must_exist(G, cn.A, cn.B, delta), lambda: f"{what}: cast {n} straddles the isovalue but the surface is absent")
        else:
            check_root(G, p[n], cn.A, cn.B, c["tol"], delta, cn.X, f"{what} cast {n}")
    s2, t2, p2, _ = call(fn, S, T, P, **base, ref=ref, isoval=iso)
    s2, t2, p2 = (as_array(x, hs, nm).reshape(-1) for x, nm in zip((s2, t2, p2), "stp"))
    keep = np.ones(N, bool)
    if pinned:
        keep[m] = False
    expect_close(p[keep], p2[keep], f"{what}: differs from the surface with the reported ref and isoval", atol=1e-7)
    ctx.label(mode)
    ctx.label("at-" + at)
    ctx.label("form-" + form)
    ctx.nontrivial(np.isfinite(p[keep]).any())


CONFIGS = [[e, i, k, nd] for (e, i, nd) in (("jmd95", "linear", 2), ("gsw", "pchip", 1), ("custom", "pchip", 3), ("gswc", "linear", 1), ("jmdfwg06", "linear", 2)) for k in ("potential", "anomaly")]
SUBS = [Sub("select", case, check, CONFIGS, n=(300, 5000), cap=(60, 420))]
WARM = warm_surface
