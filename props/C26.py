"""C26: a Boussinesq ocean in depth is the same ocean as in pressure, in every part of the package."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, noise, ocean, ref_eos
from harness.omegaref import graph, grid_of
from harness.oracle import RefCast, as_array, expect_close
from neutralocean.label import veronis
from neutralocean.mixed_layer import mixed_layer
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.surface import anomaly_surf, omega_surf, potential_surf
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast

RULE = (
    "A case is a stable ocean (1-12 casts, masked ones included), Boussinesq constants (one of two pairs, so that compiled "
    "functions are reused), an equation of state, an interpolant, and a computation: potential or anomaly surface, omega "
    "surface, neutral link, trajectory, Veronis density, mixed layer, neutrality errors.  It is run once on depths with "
    "grav and rho_c, once on the pressures 1e-4 grav rho_c z without them (all pressure-like arguments scaled alike); "
    "results must agree, pressure-like ones after scaling.  Non-trivial: the result is finite in at least one place off the pin."
)
ASSUMPTIONS = [
    "stable casts and tight solver tolerances; pressures agree to 1e-3 dbar, or both solve the same equation to round-off",
    "a surface within 1e-6 of the end of a cast may be present in one run and absent in the other",
]
BSQ = [[9.81, 1027.5], [9.7, 1060.0]]


@st.composite
def case(draw, cfg):
    o = draw(ocean(hdims=(1,), nmax=10, nk=(3, 9), stable=True, mask_max=3, min_h=2))
    g = draw(graph(kinds=("tree", "rand", "chain", "star")))
    return dict(cfg=cfg, o=o, g=g, b=draw(I(0, 1)), pin=draw(I(0, 10**4)), fr=draw(F(0.02, 0.98)), fr2=draw(F(0.02, 0.98)), ref=draw(st.sampled_from([0.0]) | F(0.0, 4000.0)), ns=draw(I(0, 9000)), dd=draw(F(0.005, 0.5)), how=draw(st.sampled_from(["pin", "refiso"])), x=draw(I(0, 2)))


def same_p(z, p, fac, casts, what, resid=None):
    """Scaled depths against pressures; a column near its end may differ in existence."""
    for n in range(len(p)):
        c = casts[n]
        a, b = z[n] * fac, p[n]
        if np.isnan(a) and np.isnan(b):
            continue
        if np.isnan(a) or np.isnan(b):
            v = b if np.isnan(a) else a
            edge = min(v - c.A, c.B - v) <= 1e-6 * (c.B - c.A) + 1e-5
            require(edge, lambda: f"{what}: cast {n}: depth {z[n]!r} (= {a!r} dbar) but pressure {b!r}")
            continue
        ok = abs(a - b) <= 1e-3
        if not ok and resid is not None:
            ok = abs(resid(n, a)) <= 1e-9 and abs(resid(n, b)) <= 1e-9
        require(ok, lambda: f"{what}: cast {n}: depth {z[n]!r} is {a!r} dbar, but the pressure is {b!r}")


def check(c, ctx):
    thing, eosname, interp = c["cfg"]
    grav, rho_c = BSQ[c["b"]]
    fac = 1e-4 * grav * rho_c
    S, T, Z = build(c["o"])
    P = Z * fac
    N, nk = S.shape
    f = ref_eos(eosname)
    casts = [RefCast(S[n], T[n], P[n], interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    C = casts[m]
    pm = float(C.A + c["fr"] * (C.B - C.A))
    zm = pm / fac
    zz = dict(eos=eosname, grav=grav, rho_c=rho_c, interp=interp)
    pp = dict(eos=eosname, interp=interp)
    what = f"{thing}/{eosname}/{interp} grav={grav} rho_c={rho_c}"
    if thing in ("potential", "anomaly"):
        fn = potential_surf if thing == "potential" else anomaly_surf
        kz = dict(TOL_P_SOLVER=1e-9, diags=False, output=False)
        k1, k2 = dict(kz), dict(kz)
        s0, t0 = (float(x) for x in C.st(pm))
        ref = (34.7, 3.0)
        if c["how"] == "pin":
            k1.update(pin_cast=m, pin_p=zm)
            k2.update(pin_cast=m, pin_p=pm)
            if thing == "potential":
                rp = c["ref"] if c["x"] else pm
                k1.update(ref=c["ref"] / fac if c["x"] else None)
                k2.update(ref=c["ref"] if c["x"] else None)
            else:
                ref = ref if c["x"] else (s0, t0)
                k1.update(ref=ref if c["x"] else None)
                k2.update(ref=ref if c["x"] else None)
        elif thing == "potential":
            rp = c["ref"]
            iso = float(f(s0, t0, rp))
            k1.update(ref=rp / fac, isoval=iso)
            k2.update(ref=rp, isoval=iso)
        else:
            iso = float(f(s0, t0, pm) - f(*ref, pm))
            k1.update(ref=ref, isoval=iso)
            k2.update(ref=ref, isoval=iso)
        r1 = call(fn, S, T, Z, **zz, **k1)
        r2 = call(fn, S, T, P, **pp, **k2)
        iso = float(r2[3]["isoval"])
        expect_close(np.array(float(r1[3]["isoval"])), np.array(iso), f"{what}: isoval", rtol=1e-12, atol=1e-11)

        def resid(n, p):
            s, t = casts[n].st(min(max(p, casts[n].A), casts[n].B))
            return float(f(s, t, rp) - iso) if thing == "potential" else float(f(s, t, p) - f(*ref, p) - iso)

        z, p = as_array(r1[2], (N,), what), as_array(r2[2], (N,), what)
        same_p(z, p, fac, casts, what, resid)
        ctx.nontrivial(np.isfinite(p).sum() > 1)
    elif thing == "omega":
        grid, a, b, dist, distperp = grid_of(c["g"], (N,))
        init = pm * (1 + 0.1 * (noise(c["ns"], (N,)) - 0.5))
        init[m] = pm
        kw = dict(output=False, ITER_MAX=2, TOL_P_SOLVER=1e-9, TOL_LRPD_MAV=0.0, ITER_START_WETTING=np.inf)
        r1 = call(omega_surf, S, T, Z, {"edges": (a, b), "dist": dist, "distperp": distperp}, m, init / fac, **zz, **kw)
        r2 = call(omega_surf, S, T, P, {"edges": (a, b), "dist": dist, "distperp": distperp}, m, init, **pp, **kw)
        z, p = as_array(r1[2], (N,), what), as_array(r2[2], (N,), what)
        both = np.isfinite(z) & np.isfinite(p)
        near = [n for n in range(N) if both[n] and min(p[n] - casts[n].A, casts[n].B - p[n]) < 1e-3 * (casts[n].B - casts[n].A)]
        lost = [n for n in range(N) if casts[n].ok and np.isnan(p[n]) and casts[n].A <= init[n] <= casts[n].B]
        if near or lost:  # the wet set may hinge on round-off
            ctx.label("outcrop")
            return
        same_p(z, p, fac, casts, what)
        for k in ("e_RMS", "e_MAV"):
            u, v = np.asarray(r1[3][k], float), np.asarray(r2[3][k], float)
            expect_close(u, v, f"{what}: {k}", rtol=1e-5, atol=1e-6 * float(np.max(v, initial=0.0)) + 1e-15)
        ctx.nontrivial(both.sum() > 1)
    elif thing == "traj":
        s0, t0 = (float(x) for x in C.st(pm))
        n = int(c["fr2"] * N) % N
        tp = 1e-9
        r1 = [float(x) for x in call(ntp_bottle_to_cast, s0, t0, zm, S[n], T[n], Z[n], tol_p=tp, **zz)]
        r2 = [float(x) for x in call(ntp_bottle_to_cast, s0, t0, pm, S[n], T[n], P[n], tol_p=tp, **pp)]

        def resid(k, p):
            s, t = casts[k].st(min(max(p, casts[k].A), casts[k].B))
            return float(f(s, t, 0.5 * (p + pm)) - f(s0, t0, 0.5 * (p + pm)))

        same_p([r1[2]], [r2[2]], fac, casts[n : n + 1], f"{what}: link", lambda k, p: resid(n, p))
        q = np.append(m, [k for k in range(N) if k != m])
        t1 = [np.asarray(x, float) for x in call(neutral_trajectory, S[q], T[q], Z[q], zm, vert_dim=-1, tol_p=tp, **zz)]
        t2 = [np.asarray(x, float) for x in call(neutral_trajectory, S[q], T[q], P[q], pm, vert_dim=-1, tol_p=tp, **pp)]
        for k in range(N):
            a, b = t1[2][k] * fac, t2[2][k]
            if np.isnan(a) and np.isnan(b):
                break
            cq = casts[q[k]]
            v = b if np.isnan(a) else a
            if min(v - cq.A, cq.B - v) <= 1e-3 * (cq.B - cq.A):
                break  # from here on round-off decides
            require(abs(a - b) <= 1e-3 * (k + 1), lambda: f"{what}: trajectory at cast {k}: depth {t1[2][k]!r} is {a!r} dbar, but the pressure is {b!r}")
        ctx.nontrivial(np.isfinite(r2[2]) or np.isfinite(t2[2]).sum() > 1)
    elif thing == "veronis":
        p1 = float(C.A + c["fr2"] * (C.B - C.A))
        s, t, z, p = (X[m][C.k : C.K] if hasattr(C, "k") else X[m] for X in (S, T, Z, P))
        if np.isnan(s).any() or np.isnan(p).any():
            g = np.isfinite(s) & np.isfinite(t) & np.isfinite(p)
            i = int(np.argmax(g))
            j = i + (int(np.argmax(~g[i:])) if (~g[i:]).any() else len(g) - i)
            s, t, z, p = (x[i:j] for x in (s, t, z, p))
        dp = 40.0
        kz, kp = dict(p0=zm, p_ref=c["ref"] / fac, dp=dp / fac), dict(p0=pm, p_ref=c["ref"], dp=dp)
        if c["x"] == 0:
            kz, kp = dict(dp=dp / fac), dict(dp=dp)
        v1 = float(call(veronis, p1 / fac, s, t, z, **zz, **kz))
        v2 = float(call(veronis, p1, s, t, p, **pp, **kp))
        # steps of dp and of dp / fac may divide an interval differently by one
        inter = abs(v2 - float(f(*C.st(pm), c["ref"] if c["x"] else 0.0)))
        unit = 1.0 if v2 > 1 else 1e-6
        require(abs(v1 - v2) <= 1e-4 * unit + 1e-3 * inter, lambda: f"{what}: {v1!r} in depth, {v2!r} in pressure")
        ctx.nontrivial(np.isfinite(v2))
    elif thing == "mixed":
        kw = dict(pot_dens_diff=c["dd"], bottle_index=min(c["x"], nk - 1))
        z = as_array(call(mixed_layer, S, T, Z, ref_p=c["ref"] / fac, **zz, **kw), (N,), what)
        p = as_array(call(mixed_layer, S, T, P, ref_p=c["ref"], **pp, **kw), (N,), what)
        ctx.nontrivial(np.isfinite(p).any())
        for n in range(N):
            D = f(S[n], T[n], c["ref"])
            D = D[np.isfinite(D)]
            if D[:1].size and D[0] < 1:
                D = 1 / D
            if D.size < 2 or np.min(np.diff(D)) < 1e-4:
                continue  # pressure is ill-conditioned (or ambiguous) as a function of density
            a, b = z[n] * fac, p[n]
            require((np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-3, lambda: f"{what}: cast {n}: depth {z[n]!r} is {a!r} dbar, but the pressure is {b!r}")
    else:
        grid, a, b, dist, distperp = grid_of(c["g"], (N,))
        G = {"edges": (a, b), "dist": dist, "distperp": distperp}
        p = np.full(N, np.nan)
        s, t = p.copy(), p.copy()
        for n in ok:
            p[n] = casts[n].A + noise(c["ns"] + n, (1,))[0] * (casts[n].B - casts[n].A)
            s[n], t[n] = casts[n].st(p[n])
        e1 = np.asarray(call(ntp_epsilon_errors, s, t, p / fac, G, eosname, grav, rho_c), float)
        e2 = np.asarray(call(ntp_epsilon_errors, s, t, p, G, eosname), float)
        sc = float(np.nanmax(np.abs(e2), initial=0.0))
        expect_close(e1, e2, f"{what}: errors", rtol=1e-9, atol=1e-11 * sc)
        n1 = [float(x) for x in call(ntp_epsilon_errors_norms, s, t, p / fac, G, eosname, grav, rho_c)]
        n2 = [float(x) for x in call(ntp_epsilon_errors_norms, s, t, p, G, eosname)]
        expect_close(np.array(n1), np.array(n2), f"{what}: norms", rtol=1e-9, atol=0)
        ctx.nontrivial(np.isfinite(e2).any())


CFG = [
    ["omega", "gsw", "linear"],
    ["omega", "jmd95", "pchip"],
    ["traj", "jmdfwg06", "linear"],
    ["traj", "gsw", "pchip"],
    ["potential", "gsw", "linear"],
    ["anomaly", "jmd95", "pchip"],
    ["veronis", "gsw", "linear"],
    ["veronis", "jmd95", "pchip"],
    ["mixed", "gsw", "linear"],
    ["mixed", "jmd95", "pchip"],
    ["errors", "jmdfwg06", "-"],
    ["errors", "gsw", "-"],
]
SUBS = [Sub("boussinesq", case, check, CFG, n=(300, 6000), cap=(70, 500))]
