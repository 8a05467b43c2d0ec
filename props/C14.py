"""C14: every omega iteration is the weighted least-squares heave of the surface."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_arg, eos_fun, noise, ocean, ref_eos, ref_eos_s_t
from harness.omegaref import adjacency, component, graph, grid_of, lsq_phi
from harness.oracle import RefCast, as_array, check_root, must_exist, noise_of, same_nan, same_point
from neutralocean.bfs import bfs_conncomp1_wet_perim
from neutralocean.eos.tools import make_eos
from neutralocean.grid.graph import edges_to_csr
from neutralocean.ppinterp import make_pp
from neutralocean.surface import omega_surf

RULE = (
    "A case is an ocean, a grid graph with distances (given, scalar, or left out), a pinned bottle, a start, a mixed layer, "
    "a wetting window, a formulation and an iteration number k (1-3).  The surfaces after k-1 and k iterations are computed "
    "by the package; the step between them is predicted by a dense weighted least-squares solve and checked cast by cast.  "
    "Non-trivial: at least three casts take part and the predicted step is not zero."
)
ASSUMPTIONS = [
    "all tolerances that end the iterations early are switched off",
    "the perimeter-wetting part of a step is the package's own (its correctness is C15)",
    "gradient formulation: agreement within the stopping tolerance of its iterative least-squares solver",
]


@st.composite
def case(draw, cfg):
    nd, form = cfg[2], cfg[3]
    wide = draw(I(0, 11)) == 0
    o = draw(ocean(hdims=(nd,), nmax=(40, 11)[nd - 1] if wide else (10, 5)[nd - 1], nk=(3, 10), stable=draw(I(0, 3)) > 0, mask_max=3, min_h=2))
    g = draw(graph())
    g["s"] = [draw(st.sampled_from([1.0, 30.0])), draw(st.sampled_from([1.0, 30.0]))]
    c = dict(cfg=cfg, o=o, g=g, pin=draw(I(0, 10**4)), fr=draw(F(0.1, 0.9)), ns=draw(I(0, 9000)), k=draw(st.sampled_from([1, 1, 2, 3])))
    c["init"] = draw(st.sampled_from(["pin", "iso", "tilt", "holes"])) if c["k"] > 1 else draw(st.sampled_from(["iso", "tilt", "holes"]))
    c["ml"] = draw(st.sampled_from(["none", "none", "array"]))
    c["mlv"] = draw(F(0.0, 1.0))
    c["w"] = draw(st.sampled_from([[1, 5], [1, 5], ["inf", 5], [1, 1], [2, 2], [2, 5], [3, 3]]))
    c["rep"] = draw(st.sampled_from(["max", 1]))
    c["form"] = form
    return c


def check(c, ctx):
    eosname, interp, _, _, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    S2, T2, P2 = (np.ascontiguousarray(X.reshape(N, -1)) for X in (S, T, P))
    casts = [RefCast(S2[n], T2[n], P2[n], interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    cm = casts[m]
    pin_p = float(cm.A + c["fr"] * (cm.B - cm.A))
    grid, a, b, dist, distperp = grid_of(c["g"], hs)
    adj = adjacency(a, b, N)
    u = noise(c["ns"], (N,))
    q = np.full(N, pin_p)
    if c["init"] == "tilt":
        q = pin_p * (1 + 0.3 * (u - 0.5))
    elif c["init"] == "holes":
        q[u < 0.4] = np.nan
    q[m] = pin_p
    init = pin_p if c["init"] == "pin" else q.reshape(hs)
    ml = np.full(N, -np.inf)
    TOL = 1e-7
    opt = dict(eos=eos_arg(eosname), interp=interp, output=False, diags=False, OMEGA_FORMULATION=c["form"], TOL_P_SOLVER=TOL, TOL_LRPD_MAV=0.0, TOL_P_CHANGE_RMS=0.0, grav=grav, rho_c=rho_c)
    opt["ITER_START_WETTING"] = np.inf if c["w"][0] == "inf" else c["w"][0]
    opt["ITER_STOP_WETTING"] = c["w"][1]
    rep = np.iinfo(np.int64).max
    if c["rep"] == 1:
        opt["ITER_WET_PERIM"] = rep = 1
    if c["ml"] == "array":
        ml = c["mlv"] * pin_p * u * 1.2
        ml[m] = min(ml[m], pin_p - 1.0)
        opt["p_ml"] = ml.reshape(hs).copy()
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    what = f"omega/{eosname}/{interp}/{c['form']}/{c['init']} iteration {c['k']}"
    k = c["k"]

    def surf(it):
        s, t, p, _ = call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=it, **opt)
        s, t, p = (as_array(x, hs, nm).reshape(-1).copy() for x, nm in zip((s, t, p), "stp"))
        same_nan(s, t, p, what)
        return s, t, p

    if k == 1:
        p0 = np.where([x.ok and x.A <= v <= x.B for x, v in zip(casts, q)], q, np.nan)
        s0, t0 = (np.full(N, np.nan) for _ in range(2))
        for n in range(N):
            if np.isfinite(p0[n]):
                s0[n], t0[n] = casts[n].st(p0[n])
    else:
        s0, t0, p0 = surf(k - 1)
    s1, t1, p1 = surf(k)
    # ---- prediction of the step
    if k > 1:
        p0[p0 < ml] = np.nan
    w0 = np.inf if c["w"][0] == "inf" else c["w"][0]
    if w0 <= k <= c["w"][1]:
        indptr, indices = edges_to_csr((a, b), N)
        eos_fn = make_eos(eos_fun(eosname), grav, rho_c)
        call(bfs_conncomp1_wet_perim, s0, t0, p0, indptr, indices, m, S2, T2, P2, TOL, eos_fn, make_pp(interp, kind="1", out="coeffs", nans=False), ml, rep)
    comp = component(adj, m, np.isfinite(p0))
    f = ref_eos(eosname, grav, rho_c)
    phi, scale = lsq_phi(s0, t0, p0, a, b, dist, distperp, comp, m, ref_eos_s_t(eosname, grav, rho_c))
    fac = distperp / dist
    if c["form"] == "poisson":
        tolphi = 1e-12 * scale * max(1.0, float(np.max(fac, initial=1.0)))
    else:
        tolphi = 2e-4 * scale
    d0 = 2 * noise_of(eosname)
    cset = set(comp)
    require(p1[m] == pin_p, lambda: f"{what}: pinned cast is at {p1[m]!r} instead of {pin_p!r}")
    big = 0
    for n in range(N):
        if n == m:
            continue
        x = casts[n]
        if n not in cset:
            require(np.isnan(p1[n]), lambda: f"{what}: cast {n} is not connected to the pinned cast, but the surface has p={p1[n]!r} there")
            continue
        base = float(f(s0[n], t0[n], p0[n]))

        def G(z):
            ss, tt = x.st(z)
            return f(ss, tt, p0[n]) - base - phi[n]

        delta = d0 + tolphi
        if np.isfinite(p1[n]):
            same_point(x, s1[n], t1[n], p1[n], f"{what} cast {n}")
            check_root(G, p1[n], x.A, x.B, TOL, delta, x.X, f"{what} cast {n} (from p={p0[n]!r}, ϕ={phi[n]!r})")
            big += abs(phi[n]) > 20 * delta
        else:
            require(not must_exist(G, x.A, x.B, delta), lambda: f"{what}: the heaved surface exists in cast {n} (from p={p0[n]!r}, ϕ={phi[n]!r}), but p is NaN")
            ctx.label("vanished")
    ctx.label(f"k{k}")
    ctx.label("checked", len(comp))
    ctx.label("decisive", int(big))
    ctx.nontrivial(len(comp) >= 3 and big > 0)


CONF = [
    ["jmd95", "linear", 2, "poisson", None],
    ["gsw", "pchip", 2, "poisson", None],
    ["gsw", "linear", 1, "poisson", [9.81, 1027.5]],
    ["jmd95", "pchip", 1, "poisson", None],
    ["jmd95", "linear", 2, "gradient", None],
    ["gsw", "linear", 2, "gradient", None],
]
SUBS = [Sub("step", case, check, CONF, n=(1200, 20000), cap=(70, 700))]

