"""C04: neutral trajectories are chains of neutral links."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import EOS, INTERPS, F, I, build, eos_fun, logF, ocean, ref_eos
from harness.oracle import RefCast, as_array, check_root, expect_close, must_exist, noise_of, same_point
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast

RULE = (
    "A case is a sequence of 1-9 casts (masked ones included; the first one usable), a starting pressure on the first "
    "cast, the array layout (vertical first or last, P shared 1-D or per cast), equation of state, interpolant, tolerance. "
    "Non-trivial: at least two links were made, or the trajectory ended before the last cast."
)
ASSUMPTIONS = ["p0 lies within the valid range of the first cast"]


@st.composite
def case(draw, cfg):
    smooth = draw(st.booleans())
    c = dict(cfg=cfg, o=draw(ocean(hdims=(1,), nmax=9, nk=(2, 16), stable=smooth, mask_max=3)))
    c["fr"] = draw(F(0.0, 1.0))
    c["at"] = draw(st.sampled_from(["frac", "frac", "frac", "bottle"]))
    c["vert"] = draw(st.sampled_from([None, -1, 1, 0]))
    c["p1d"] = draw(st.booleans())
    c["tol"] = draw(st.sampled_from([None, 1e-4]) | logF(1e-9, 5.0))
    return c


def check(c, ctx):
    eosname, interp, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    o = dict(c["o"])
    if c["p1d"]:
        o["p3"] = 0.0
    S, T, P = build(o, pnan=not c["p1d"])
    f = ref_eos(eosname, grav, rho_c)
    delta = 2 * noise_of(eosname)
    casts = [RefCast(S[n], T[n], P[n], interp) for n in range(len(S))]
    first = next((n for n in range(len(S)) if casts[n].ok), None)
    if first != 0:
        # the first cast cannot be interpolated: there is no trajectory
        r = call(neutral_trajectory, S, T, P, 100.0, eos=eos_fun(eosname), interp=interp, grav=grav, rho_c=rho_c)
        require(np.isnan(r[0]).all() and np.isnan(r[1]).all() and np.isnan(r[2][1:]).all(), lambda: f"trajectory/{eosname}/{interp}: starts on a cast with fewer than two usable bottles, but gives {r}")
        ctx.label("no-start")
    if first is None:
        return
    S, T, P, casts = S[first:], T[first:], P[first:], casts[first:]
    N = len(S)
    c0 = casts[0]
    p0 = float(c0.X[int(c["fr"] * (c0.n - 1))]) if c["at"] == "bottle" else min(c0.B, c0.A + c["fr"] * (c0.B - c0.A))
    kw = dict(eos=eos_fun(eosname), interp=interp, grav=grav, rho_c=rho_c)
    if c["tol"] is not None:
        kw["tol_p"] = c["tol"]
    tol = 1e-4 if c["tol"] is None else c["tol"]
    Si, Ti, Pi = S, T, P
    if c["vert"] == 0:
        Si, Ti, Pi = (np.ascontiguousarray(X.T) for X in (S, T, P))
    if c["vert"] is not None:
        kw["vert_dim"] = c["vert"]
    if c["p1d"]:
        Pi = P[0].copy()
    before = [x.copy() for x in (Si, Ti, Pi)]
    s, t, p = call(neutral_trajectory, Si, Ti, Pi, p0, **kw)
    require(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before, (Si, Ti, Pi))), "trajectory: an input was modified")
    s, t, p = (as_array(x, (N,), nm) for x, nm in zip((s, t, p), "stp"))
    what = f"trajectory/{eosname}/{interp}"
    require(p[0] == p0, lambda: f"{what}: starts at {p[0]!r}, not p0={p0!r}")
    same_point(c0, s[0], t[0], p0, what + " start")
    alive, links = True, 0
    for n in range(1, N):
        if not alive:
            require(np.isnan(s[n]) and np.isnan(t[n]) and np.isnan(p[n]), lambda: f"{what}: continues at cast {n} after having ended")
            continue
        cn = casts[n]
        b = (float(s[n - 1]), float(t[n - 1]), float(p[n - 1]))
        w = f"{what} link {n - 1}->{n}"
        if cn.ok:

            def G(x, cn=cn):
                ss, tt = cn.st(x)
                pa = 0.5 * (b[2] + x)
                return f(b[0], b[1], pa) - f(ss, tt, pa)

            if np.isnan(p[n]):
                require(not must_exist(G, cn.A, cn.B, delta), lambda: f"{w}: link exists but the trajectory ended")
            else:
                check_root(G, p[n], cn.A, cn.B, tol, delta, cn.X, w)
                same_point(cn, s[n], t[n], p[n], w)
                links += 1
            one = call(ntp_bottle_to_cast, *b, S[n], T[n], P[n], **{k: v for k, v in kw.items() if k != "vert_dim"})
            expect_close([s[n], t[n], p[n]], [float(v) for v in one], f"{w}: not the neutral link from the previous point", atol=1e-7)
        else:
            require(np.isnan(p[n]), lambda: f"{w}: reached an unusable cast")
        require(np.isnan(p[n]) == np.isnan(s[n]) == np.isnan(t[n]), lambda: f"{w}: s, t, p not NaN together")
        alive = np.isfinite(p[n])
    ctx.label("ended" if not alive else "complete")
    ctx.label("links", links)
    ctx.nontrivial(links >= 2 or not alive)


BSQ = [9.81, 1027.5]
CONFIGS = [[e, i, None] for e in EOS for i in INTERPS] + [["jmd95", "linear", BSQ]]
SUBS = [Sub("chain", case, check, CONFIGS, n=(400, 8000), cap=(60, 420))]


def WARM():
    x = np.linspace(0, 100, 6)
    from harness.gen import custom_eos

    for i in INTERPS:
        ntp_bottle_to_cast(35.0, 5.0, 50.0, 34 + x / 100, 20 - x / 10, x, eos=custom_eos, interp=i)
