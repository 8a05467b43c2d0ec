"""C13: omega surfaces converge to the least-squares neutral surface, and stop when they say they do."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_arg, noise, ocean, ref_eos_s_t
from harness.omegaref import adjacency, component, graph, grid_of, lsq_phi
from harness.oracle import RefCast, as_array, eps_ref, noise_of, norms_ref, same_nan
from neutralocean.surface import anomaly_surf, omega_surf, potential_surf

RULE = (
    "A case is a smooth, statically stable ocean (1-D or 2-D, up to 25 casts, some of them land), a connected or "
    "disconnected grid graph with distances, a pinned bottle at mid-depth, a start (neutral links, isobar, tilted isobar), "
    "a formulation, a stopping rule (mean ϕ or RMS pressure change, at several levels) and a least number of iterations; or "
    "any masked ocean, start, mixed layer and wetting window, cut off after 0-4 iterations.  Non-trivial: at least three casts "
    "are wet and the starting surface was not neutral already; for the latter, some iteration could be recomputed."
)
ASSUMPTIONS = [
    "convergence is claimed for smooth, statically stable oceans in which the surface neither outcrops nor grounds "
    "(elsewhere the iteration has no such guarantee)",
    "the comparison with other surfaces allows 2 % and the effect of the stopping tolerance",
]


@st.composite
def case(draw, cfg):
    nd = cfg[2]
    o = draw(ocean(hdims=(nd,), nmax=(9, 5)[nd - 1], nk=(4, 14), stable=True, masks=False, min_h=2))
    o["aS"] *= 0.5
    o["aT"] *= 0.5
    o["Sb"] = max(o["Sb"], o["Ss"] - 0.5)
    g = draw(graph())
    g["s"] = [draw(st.sampled_from([1.0, 30.0])), draw(st.sampled_from([1.0, 30.0]))]
    c = dict(cfg=cfg, o=o, g=g, pin=draw(I(0, 10**4)), fr=draw(F(0.25, 0.75)), ns=draw(I(0, 9000)))
    c["init"] = draw(st.sampled_from(["pin", "iso", "tilt"]))
    c["lrpd"] = draw(st.sampled_from([1e-7, 1e-6, 1e-5, 1e-3]))
    c["crit"] = draw(st.sampled_from(["lrpd", "lrpd", "dp"]))
    c["dp"] = draw(st.sampled_from([30.0, 3.0, 0.3, 0.01]))
    c["itmin"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["land"] = draw(st.lists(I(0, 99), max_size=4))
    return c


def check(c, ctx):
    eosname, interp, _, form = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    S2, T2, P2 = (X.reshape(N, -1) for X in (S, T, P))
    m = c["pin"] % N
    for n in c["land"]:
        if n % N != m:
            S2[n % N] = T2[n % N] = np.nan
    S, T = S2.reshape(S.shape), T2.reshape(T.shape)
    casts = [RefCast(S2[n], T2[n], P2[n], interp) for n in range(N)]
    cm = casts[m]
    pin_p = float(cm.A + c["fr"] * (cm.B - cm.A))
    grid, a, b, dist, distperp = grid_of(c["g"], hs)
    adj = adjacency(a, b, N)
    u = noise(c["ns"], (N,))
    q = np.full(N, pin_p)
    if c["init"] == "tilt":
        q = pin_p * (1 + 0.2 * (u - 0.5))
    q[m] = pin_p
    init = pin_p if c["init"] == "pin" else q.reshape(hs)
    crit = c["crit"]
    tol = c["lrpd"] / (1e6 if eosname == "gsw" else 1)
    opt = dict(eos=eos_arg(eosname), interp=interp, output=False, OMEGA_FORMULATION=form, TOL_P_SOLVER=1e-9, ITER_MIN=c["itmin"])
    stop = dict(TOL_LRPD_MAV=c["lrpd"], TOL_P_CHANGE_RMS=0.0) if crit == "lrpd" else dict(TOL_LRPD_MAV=0.0, TOL_P_CHANGE_RMS=c["dp"])
    never = dict(TOL_LRPD_MAV=0.0, TOL_P_CHANGE_RMS=0.0)
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    IT = 50
    what = f"omega/{eosname}/{interp}/{form}/{c['init']}"

    def surf(it, **kw):
        s, t, p, d = call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=it, **opt, **kw)
        s, t, p = (as_array(x, hs, nm).reshape(-1).copy() for x, nm in zip((s, t, p), "stp"))
        same_nan(s, t, p, what)
        return s, t, p, d

    s, t, p, d = surf(IT, **stop)
    nit = len(d["e_RMS"]) - 1
    comp = component(adj, m, np.array([x.ok for x in casts]))
    wet = np.flatnonzero(np.isfinite(p)).tolist()
    lateral = max(1.0, len(comp))
    # the surface stays inside every connected column, so the outcome is determined
    margin = all(np.isfinite(p[n]) and casts[n].A + 0.02 * (casts[n].B - casts[n].A) < p[n] < casts[n].B - 0.02 * (casts[n].B - casts[n].A) for n in comp)
    if wet != comp or not margin:
        ctx.label("outcrop-or-ground")
        return
    require(nit < IT, lambda: f"{what}: no convergence in {IT} iterations; last RMS errors {d['e_RMS'][-3:]}")
    fst = ref_eos_s_t(eosname)
    e = eps_ref(s, t, p, a, b, fst)
    r, _ = norms_ref(e, dist, distperp)
    phi, scale = lsq_phi(s, t, p, a, b, dist, distperp, comp, m, fst)
    ptol = 2 * noise_of(eosname) + (0.0 if form == "poisson" else 2e-4 * scale)
    mean = float(np.mean(abs(phi[comp])))
    if crit == "lrpd":
        require(mean <= 0.5 * tol + ptol * lateral, lambda: f"{what}: stopped with TOL_LRPD_MAV={c['lrpd']}, but a least-squares step from the result would still move it by mean ϕ={mean!r}")
    # ---- the stopping rule
    sj = surf(nit, **never)
    for x, y in zip(sj[:3], (s, t, p)):
        require(np.array_equal(x, y, equal_nan=True), f"{what}: stopping after {nit} iterations and ITER_MAX={nit} differ")
    prev = surf(nit - 1, **never) if nit > 1 else None
    pp = surf(nit - 2, **never) if nit > 2 else None

    def quantity(frm, to):
        if crit == "dp":
            return float(np.sqrt(np.mean((to[2][comp] - frm[2][comp]) ** 2))), c["dp"], 1e-7
        ph, sc = lsq_phi(frm[0], frm[1], frm[2], a, b, dist, distperp, comp, m, fst)
        return float(np.mean(abs(ph[comp]))), tol, (1e-11 if form == "poisson" else 2e-4) * sc + noise_of(eosname)

    allwet = lambda x: bool(np.isfinite(x[2][comp]).all()) and int(np.isfinite(x[2]).sum()) == len(comp)
    if prev is not None and allwet(prev):
        v, lim, sl = quantity(prev, sj)
        require(v < lim * (1 + 1e-6) + sl, lambda: f"{what}: stopped at iteration {nit} with {crit} {v!r}, the limit is {lim!r}")
        if pp is not None and allwet(pp) and nit - 1 >= c["itmin"]:
            v, lim, sl = quantity(pp, prev)
            require(v > lim * (1 - 1e-6) - sl, lambda: f"{what}: did not stop at iteration {nit - 1} with {crit} {v!r}, the limit is {lim!r}")
            ctx.label("stop-rule")
    # ---- at least as neutral as where it started, and as surfaces of other kinds through the same bottle
    if crit == "lrpd":
        slack = (tol + ptol) * lateral / float(np.min(dist, initial=np.inf)) if len(dist) else 0.0
        if wet == [n for n in range(N) if casts[n].ok and casts[n].A <= q[n] <= casts[n].B] and c["init"] != "pin":
            r0 = float(d["e_RMS"][0])
            require(r <= 1.02 * r0 + slack, lambda: f"{what}: RMS neutrality error grew from {r0!r} to {r!r}")
        for nm, fn, kw in (("potential", potential_surf, dict(ref=pin_p)), ("anomaly", anomaly_surf, dict(ref=tuple(float(v) for v in cm.st(pin_p))))):
            o3 = call(fn, S, T, P, eos=eos_arg(eosname), interp=interp, pin_cast=pin, pin_p=pin_p, diags=False, output=False, TOL_P_SOLVER=1e-9, **kw)
            s2, t2, p2 = (as_array(x, hs, nm).reshape(-1) for x in o3[:3])
            if np.isfinite(p2[comp]).all():
                r2, _ = norms_ref(eps_ref(s2[:], t2, np.where(np.isin(np.arange(N), comp), p2, np.nan), a, b, fst), dist, distperp)
                require(r <= 1.02 * r2 + slack, lambda: f"{what}: RMS neutrality error {r!r} exceeds that of the {nm} surface through the same bottle, {r2!r}")
                ctx.label("compared" if r2 > 10 * slack else "compared-flat")
        # an edge that lies on no loop is exactly neutral (on a loop-free grid: every edge)
        ge = [i for i in range(len(a)) if int(a[i]) in set(comp) and int(b[i]) in set(comp) and a[i] != b[i]]
        for i in ge:
            rest = [[] for _ in range(N)]
            for j in ge:
                if j != i:
                    rest[int(a[j])].append(int(b[j]))
                    rest[int(b[j])].append(int(a[j]))
            if int(b[i]) not in component(rest, int(a[i]), np.ones(N, bool)):
                require(abs(e[i]) <= (2 * tol + 2 * ptol) * lateral, lambda: f"{what}: neutrality error {e[i]!r} on an edge that is part of no loop, tolerance {tol!r}")
                ctx.label("bridge")
        if len(ge) == len(comp) - 1 and ge:
            ctx.label("tree")
    # ---- whether diagnostics are wanted does not matter
    if c["itmin"] < 3:
        nd = call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=IT, diags=False, **opt, **stop)
        for x, y, nm in zip(nd[:3], (s, t, p), "stp"):
            require(np.allclose(as_array(x, hs, nm).reshape(-1), y, rtol=1e-12, atol=0, equal_nan=True), f"{what}: {nm} differs without diagnostics")
    ctx.label(crit)
    ctx.label(f"nit{min(nit, 8)}")
    ctx.nontrivial(len(comp) >= 3 and float(d["e_RMS"][0]) > 0)


@st.composite
def hist_case(draw, cfg):
    nd = cfg[2]
    o = draw(ocean(hdims=(nd,), nmax=(10, 5)[nd - 1], nk=(3, 9), stable=True, mask_max=3, min_h=2))
    g = draw(graph())
    g["s"] = [draw(st.sampled_from([1.0, 30.0])), draw(st.sampled_from([1.0, 30.0]))]
    c = dict(cfg=cfg, o=o, g=g, pin=draw(I(0, 10**4)), fr=draw(F(0.1, 0.9)), ns=draw(I(0, 9000)), n=draw(I(0, 4)), tilt=draw(F(0.0, 0.8)))
    c["start"] = draw(st.sampled_from(["all", "all", "few", "pin"]))
    c["win"] = draw(st.sampled_from([["inf", 5], ["inf", 5], [1, 1], [1, 5], [2, 2], [2, 5]]))
    c["rep"] = draw(st.sampled_from([1, 10**6]))
    c["ml"] = draw(st.sampled_from([None, None, 0.3, 0.9]))
    return c


KEYS = ("e_MAV", "e_RMS", "n_wet", "timer", "ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_newly_wet", "timer_bfs", "timer_mat", "timer_update")


def hist_check(c, ctx):
    """Every reported number is that of the surface after (or of the change in) the iteration it stands for."""
    eosname, interp, _, form = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    cm = casts[m]
    pin_p = float(min(cm.B, cm.A + c["fr"] * (cm.B - cm.A)))
    grid, a, b, dist, distperp = grid_of(c["g"], hs)
    adj = adjacency(a, b, N)
    u, v = noise(c["ns"], (N,)), noise(c["ns"] + 7, (N,))
    q = np.abs(pin_p * (1 + c["tilt"] * (u - 0.5)))
    if c["start"] == "few":
        q[v < 0.6] = np.nan
    q[m] = pin_p
    init = pin_p if c["start"] == "pin" else q.reshape(hs)
    ml = np.full(N, -np.inf)
    opt = dict(eos=eos_arg(eosname), interp=interp, output=False, OMEGA_FORMULATION=form, TOL_LRPD_MAV=0.0, TOL_P_SOLVER=1e-9, ITER_WET_PERIM=c["rep"])
    if c["ml"] is not None:
        ml = pin_p * c["ml"] * (0.5 + v)
        ml[m] = min(ml[m], pin_p - 1.0)
        opt["p_ml"] = ml.reshape(hs)
    w0 = np.inf if c["win"][0] == "inf" else c["win"][0]
    opt.update(ITER_START_WETTING=w0, ITER_STOP_WETTING=c["win"][1])
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    n = c["n"]
    what = f"omega/{eosname}/{interp}/{form} diagnostics of {n} iterations"
    res = [call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=k, diags=k == n, **opt) for k in range(n + 1)]
    d = res[n][3]
    surf = [tuple(as_array(x, hs, nm).reshape(-1) for x, nm in zip(r[:3], "stp")) for r in res]
    require(set(KEYS) <= set(d), lambda: f"{what}: missing {sorted(set(KEYS) - set(d))}")
    d = {k: np.asarray(d[k]) for k in KEYS}
    for k in KEYS:
        require(d[k].shape == (n + 1,), lambda: f"{what}: {k} has shape {d[k].shape}")
        if k.startswith("timer"):
            require(np.all((d[k] >= 0) & (d[k] < 3600)), lambda: f"{what}: {k} = {d[k]}")
    fst = ref_eos_s_t(eosname)
    i0 = np.array([x.ok and x.A <= y <= x.B for x, y in zip(casts, q)])
    if c["start"] != "pin":
        require(np.array_equal(np.isfinite(surf[0][2]), i0) and np.array_equal(surf[0][2][i0], q[i0]), f"{what}: ITER_MAX = 0 does not give the initial surface")
    quiet = 0
    for k in range(n + 1):
        s, t, p = surf[k]
        same_nan(s, t, p, what)
        require(p[m] == pin_p, f"{what}: pinned cast moved")
        require(d["n_wet"][k] == np.isfinite(p).sum(), lambda: f"{what}: n_wet[{k}] = {d['n_wet'][k]}, the surface has {np.isfinite(p).sum()}")
        r, v_ = norms_ref(eps_ref(s, t, p, a, b, fst), dist, distperp)
        for nm, x in (("e_RMS", r), ("e_MAV", v_)):
            sl = 1e-7 * abs(x) + 1e3 * noise_of(eosname) / max(1e-3, float(np.min(dist, initial=1.0)))
            require(np.isclose(d[nm][k], x, rtol=0, atol=sl, equal_nan=True), lambda: f"{what}: {nm}[{k}] = {d[nm][k]!r}, the surface has {x!r}")
        if k == 0:
            continue
        s0, t0, p0 = surf[k - 1]
        keep = np.isfinite(p0) & ~((p0 < ml) if k > 1 else np.zeros(N, bool))
        comp = component(adj, m, keep)
        isc = np.zeros(N, bool)
        isc[comp] = True
        win = w0 <= k <= c["win"][1]
        new = int(d["n_newly_wet"][k])
        seen = int((np.isfinite(p) & ~isc).sum())
        room = len(component(adj, m, np.array([x.ok for x in casts]))) - len(comp)
        require(seen <= new <= (room if win else 0), lambda: f"{what}: n_newly_wet[{k}] = {new}; {seen} casts joined and stayed, {room} could have joined, wetting {win}")
        if new:
            ctx.label("newly-wet")
            continue
        dp = np.abs(p - p0)[comp]
        dp = dp[np.isfinite(dp)]
        for nm, x in (("Δp_MAV", dp.mean()), ("Δp_RMS", np.sqrt((dp**2).mean())), ("Δp_Linf", dp.max())):
            require(abs(d[nm][k] - x) <= 1e-9 * (1 + x), lambda: f"{what}: {nm}[{k}] = {d[nm][k]!r}, the surface moved by {x!r}")
        ph, sc = lsq_phi(s0, t0, p0, a, b, dist, distperp, comp, m, fst)
        x = float(np.mean(np.abs(ph[comp])))
        sl = (1e-9 if form == "poisson" else 1e-3) * sc + 4 * noise_of(eosname)
        require(abs(d["ϕ_MAV"][k] - x) <= sl, lambda: f"{what}: ϕ_MAV[{k}] = {d['ϕ_MAV'][k]!r}, the least-squares step has {x!r}")
        quiet += len(comp) > 2
    # a tolerance ends the iterations at the first one, from ITER_MIN on, that meets it, wetting or not
    if n:
        key, tl, unit = [("ϕ_MAV", "TOL_LRPD_MAV", 1e6 if eosname == "gsw" else 1.0), ("Δp_RMS", "TOL_P_CHANGE_RMS", 1.0)][c["ns"] % 2]
        tol = 1.001 * float(d[key][1 + c["ns"] // 2 % n])
        lo = 1 + c["ns"] // 7 % 3
        if tol > 0 and np.all(np.isfinite(d[key][1:])) and np.all(np.abs(d[key][1:] / tol - 1) > 1e-5):
            exp = next((k for k in range(lo, n + 1) if d[key][k] < tol), n)
            s, t, p, d2 = call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=n, ITER_MIN=lo, diags=True, **dict(opt, **{tl: tol * unit}))
            got = len(d2["e_RMS"]) - 1
            require(got == exp, lambda: f"{what}: with {tl}={tol * unit!r}, ITER_MIN={lo} stopped after {got} iterations; {key} per iteration is {d[key][1:]}")
            require(all(np.array_equal(np.reshape(x, -1), y, equal_nan=True) for x, y in zip((s, t, p), surf[exp])), f"{what}: stopping at a tolerance changed the surface of iteration {exp}")
            ctx.label(f"stopped{exp}")
    ctx.label(f"n{n}")
    ctx.nontrivial(quiet > 0 or (n > 0 and d["n_newly_wet"][1:].any()))


CONF = [["jmd95", "linear", 2, "poisson"], ["gsw", "pchip", 2, "poisson"], ["gsw", "linear", 1, "poisson"], ["jmd95", "linear", 2, "gradient"], ["gsw", "pchip", 2, "gradient"], ["custom", "linear", 2, "poisson"]]
HIST = [["jmd95", "linear", 2, "poisson"], ["gsw", "pchip", 2, "gradient"], ["gsw", "linear", 1, "poisson"], ["jmdfwg06", "pchip", 2, "poisson"]]
SUBS = [Sub("converge", case, check, CONF, n=(500, 8000), cap=(75, 700)), Sub("history", hist_case, hist_check, HIST, n=(250, 5000), cap=(40, 400))]
