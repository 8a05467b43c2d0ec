"""C22: Veronis density is potential density plus the integrated gradient of locally referenced potential density."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_arg, logF, ocean, ref_eos, ref_eos_s_t
from harness.oracle import RefCast, noise_of, valid_block
from neutralocean.label import veronis

RULE = (
    "A case is a column (2-12 bottles, rough or smooth, padded with missing values at the bottom, in S and T alone or in P "
    "too), two pressures (inside, on bottles, reversed, outside), a reference pressure, a factor b, a step dp and an "
    "equation of state, by name or by functions, optionally Boussinesq.  The value is compared with Gauss-Legendre "
    "quadrature of the published equation of state's derivatives.  Non-trivial: both pressures inside and different."
)
ASSUMPTIONS = ["the trapezoidal error is bounded from the second differences of the integrand over each interval"]
GX, GW = np.polynomial.legendre.leggauss(12)


@st.composite
def case(draw, cfg):
    o = draw(ocean(hdims=(1,), nmax=1, nk=(2, 12), stable=draw(st.booleans()), masks=False, p3=False))
    where = st.sampled_from(["in", "in", "in", "knot", "top", "bot"])
    c = dict(cfg=cfg, o=o, w=[draw(where), draw(where)], f=[draw(F(0.0, 1.0)), draw(F(0.0, 1.0))], ref=draw(st.sampled_from([0.0]) | F(0.0, 4000.0)), b=draw(st.sampled_from([1.0]) | F(-2.0, 3.0)), dp=draw(st.sampled_from([1.0, 10.0]) | logF(0.5, 400.0)), p0=draw(st.sampled_from(["default", "given", "given"])), out=draw(I(0, 17)), pad=draw(I(0, 3)), padp=draw(st.booleans()), dflt=draw(I(0, 3)) == 0, how=draw(st.sampled_from(["name", "fn"])), npf=draw(st.booleans()))
    return c


def check(c, ctx):
    eosname, interp, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = (X[0].copy() for X in build(c["o"]))
    nk = len(S)
    n = max(2, nk - c["pad"])
    S[n:] = T[n:] = np.nan
    if c["padp"]:
        P[n:] = np.nan
    cast = RefCast(S, T, P, interp)
    X = cast.X
    pts = []
    for w, fr in zip(c["w"], c["f"]):
        pts.append({"knot": float(X[int(fr * (n - 1) + 0.5)]), "top": cast.A, "bot": cast.B}.get(w, float(cast.A + fr * (cast.B - cast.A))))
    p0, p1 = pts
    p0, p1 = min(max(p0, cast.A), cast.B), min(max(p1, cast.A), cast.B)
    kw = dict(interp=interp, p_ref=c["ref"], b=c["b"], dp=c["dp"], grav=grav, rho_c=rho_c)
    ref, b, dp = c["ref"], c["b"], c["dp"]
    if c["dflt"]:
        kw = dict(interp=interp, grav=grav, rho_c=rho_c)
        ref, b, dp = 0.0, 1.0, 1.0
    kw["eos"] = eos_arg(eosname)
    if c["how"] == "fn" and isinstance(kw["eos"], str):
        from neutralocean.eos.tools import make_eos, make_eos_s_t

        kw["eos"] = (make_eos(eosname, grav, rho_c), make_eos_s_t(eosname, grav, rho_c))
        kw.pop("grav"), kw.pop("rho_c")
    what = f"veronis/{eosname}/{interp}"
    out = c["out"]
    if out in (5, 6) and cast.A <= 0:
        out = 0
    if out in (1, 2, 3, 4, 5, 6):
        gap = 0.5 + abs(cast.B) * 0.01
        bad = {1: cast.A - gap, 2: cast.B + gap, 3: np.nan, 4: cast.B + gap, 5: 0.0, 6: 0.0}[out]
        if out in (4, 5):
            args, kk = (p1,), dict(kw, p0=bad)
        else:
            args, kk = (bad,), dict(kw, p0=p0)
        v = float(call(veronis, *args, S, T, P, **kk))
        require(np.isnan(v), lambda: f"{what}: {v!r} at pressure {bad!r}, outside the column [{cast.A}, {cast.B}]")
        ctx.label("outside")
        return
    if c["p0"] == "given":
        kw["p0"] = p0
    else:
        p0 = cast.A
    ty = np.float64 if c["npf"] else float
    v = float(call(veronis, ty(p1), S, T, P, **kw))
    f, fst = ref_eos(eosname, grav, rho_c), ref_eos_s_t(eosname, grav, rho_c)

    def y(q, lo, hi):
        qm = np.clip(q, lo + 1e-9 * (hi - lo), hi - 1e-9 * (hi - lo))
        s, t = cast.st(np.clip(q, cast.A, cast.B))
        ds, dt = cast.dst(qm)
        rs, rt = fst(s, t, q)
        return rs * ds + rt * dt

    lo, hi = min(p0, p1), max(p0, p1)
    tot, err, mag = 0.0, 0.0, 0.0
    for k in range(n - 1):
        A, B = X[k], X[k + 1]
        u, w = max(A, lo), min(B, hi)
        if w > u:
            q = 0.5 * (u + w) + 0.5 * (w - u) * GX
            z = y(q, A, B)
            tot += 0.5 * (w - u) * float(np.dot(GW, z))
            mag += 0.5 * (w - u) * float(np.dot(GW, abs(z)))
        if B >= lo and A <= hi:  # pieces the trapezoidal rule may touch
            h = min(dp, B - A)
            q = np.linspace(A, B, 17)
            z = y(q, A, B)
            d2 = np.abs(np.diff(z, 2)) / (q[1] - q[0]) ** 2
            err += 2 * (B - A) * h * h / 12 * float(np.max(d2)) * 1.5
            mag += (B - A) * float(np.mean(np.abs(z))) * 1e-3
    if p1 < p0:
        tot = -tot
    s0, t0 = cast.st(p0)
    d0 = float(f(s0, t0, ref))
    exp = d0 + b * tot
    tol = abs(b) * (err + 1e-10 * mag) + 1e-12 * abs(d0)
    require(np.isfinite(v) and abs(v - exp) <= tol, lambda: f"{what}: {v!r} from p0={p0!r} to p1={p1!r} (p_ref={ref}, b={b}, dp={dp}); expected {exp!r} within {tol:.2g}")
    if abs(b * tot) > 20 * tol:
        ctx.label("decisive")
    # both orders of integration are opposite
    if not c["dflt"] and p0 != p1:
        k2 = dict(kw, p0=p1)
        v2 = float(call(veronis, p0, S, T, P, **k2))
        s1, t1 = cast.st(p1)
        d1 = float(f(s1, t1, ref))
        require(abs((v - d0) + (v2 - d1)) <= 1e-11 * (abs(d0) + abs(b) * mag * 1e3), lambda: f"{what}: integral from {p0!r} to {p1!r} is {v - d0!r}, and back {v2 - d1!r}")
    ctx.label("reversed" if p1 < p0 else "forward")
    ctx.label("p0-" + c["p0"])
    ctx.nontrivial(p0 != p1)


SUBS = [Sub("veronis", case, check, [["gsw", "linear", None], ["jmd95", "pchip", None], ["jmdfwg06", "linear", None], ["gsw", "pchip", [9.81, 1027.5]], ["custom", "pchip", None], ["jmd95", "linear", [9.81, 1027.5]]], n=(1500, 20000), cap=(60, 400))]
