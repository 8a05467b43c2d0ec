"""C12: whatever the ocean, grid and options, an omega surface is a well-formed surface through the pinned bottle."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Sub, call, call_raises, require
from harness.gen import F, I, build, eos_arg, noise, ocean
from harness.omegaref import adjacency, component, graph, grid_of
from harness.oracle import RefCast, as_array, same_nan, same_point
from neutralocean.surface import omega_surf

RULE = (
    "A case is an ocean (1-D or 2-D horizontally, stable to rough, masked casts), a grid graph with or without distances, "
    "a pinned cast and pressure, a start (a pressure, an isobar, a tilted or partly missing surface, an integer array), a "
    "formulation, a mixed layer (none, array, dict), wetting windows, iteration limits and tolerances; or an invalid "
    "call.  Non-trivial: at least two casts end up wet and at least one iteration moved the surface."
)
ASSUMPTIONS = ["the pinned bottle lies inside its cast and below the mixed layer"]


@st.composite
def case(draw, cfg):
    nd = cfg[2]
    o = draw(ocean(hdims=(nd,), nmax=(14, 5)[nd - 1], nk=(2, 10), stable=draw(I(0, 2)) > 0, mask_max=4))
    c = dict(cfg=cfg, o=o, g=draw(graph()), pin=draw(I(0, 10**4)), fr=draw(F(0.0, 1.0)), ns=draw(I(0, 9000)))
    c["init"] = draw(st.sampled_from(["pin", "pin", "iso", "iso", "tilt", "holes", "int", "fill"]))
    c["form"] = draw(st.sampled_from(["poisson", "poisson", "gradient", "Poisson"]))
    c["ml"] = draw(st.sampled_from(["none", "none", "array", "dict"]))
    c["mlv"] = draw(F(0.0, 1.0))
    c["itmax"] = draw(st.sampled_from([1, 2, 3, 5, 10]))
    c["itmin"] = draw(I(1, 4))
    c["w0"] = draw(st.sampled_from([1, 2, 3, "inf"]))
    c["w1"] = draw(st.sampled_from([0, 1, 2, 5]))
    c["tol"] = draw(st.sampled_from([1e-4, 1e-7]))
    c["lrpd"] = draw(st.sampled_from([1e-7, 0.0, 1e-3]))
    c["dp"] = draw(st.sampled_from([0.0, 0.0, 1.0]))
    c["diags"] = draw(I(0, 3)) > 0
    c["bad"] = draw(I(0, 19))
    return c


def check(c, ctx):
    eosname, interp, _ = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    cm = casts[m]
    pin_p = float(min(cm.B, cm.A + c["fr"] * (cm.B - cm.A)))
    grid, a, b, dist, distperp = grid_of(c["g"], hs)
    adj = adjacency(a, b, N)
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    u = noise(c["ns"], (N,))
    if c["init"] == "pin":
        init = pin_p
    else:
        q = np.full(N, pin_p)
        if c["init"] == "int":
            pin_p = float(np.floor(pin_p)) if np.floor(pin_p) >= cm.A else float(np.ceil(pin_p))
            if not cm.A <= pin_p <= cm.B:
                return
            q = np.full(N, int(pin_p))
        elif c["init"] == "tilt":
            q = pin_p * (1 + 0.3 * (u - 0.5))
            q[m] = pin_p
        elif c["init"] == "holes":
            q[u < 0.4] = np.nan
            q[m] = pin_p
        elif c["init"] == "fill":  # values that are no pressure of the cast, as in a model's output over land
            q[(u < 0.4) | [not x.ok for x in casts]] = (0.0, -99.0, 1e20)[c["ns"] % 3]
            q[m] = pin_p
        init = q.reshape(hs)
    opt = dict(eos=eos_arg(eosname), interp=interp, output=False, OMEGA_FORMULATION=c["form"], ITER_MAX=c["itmax"], ITER_MIN=c["itmin"], TOL_P_SOLVER=c["tol"], TOL_LRPD_MAV=c["lrpd"], TOL_P_CHANGE_RMS=c["dp"])
    opt["ITER_START_WETTING"] = np.inf if c["w0"] == "inf" else c["w0"]
    opt["ITER_STOP_WETTING"] = c["w1"]
    opt["diags"] = c["diags"]
    wetting = c["w0"] != "inf" and c["w0"] <= min(c["w1"], c["itmax"])
    if c["ml"] == "array":
        ml = (c["mlv"] * pin_p * u * 1.2).reshape(hs)
        ml.reshape(-1)[m] = min(ml.reshape(-1)[m], pin_p - 1.0)
        opt["p_ml"] = ml
    elif c["ml"] == "dict":
        # parameters that keep the mixed layer above the pinned bottle
        opt["p_ml"] = dict(bottle_index=0, ref_p=0.0, pot_dens_diff=1e-9)
    what = f"omega/{eosname}/{interp}/{c['form']}/{c['init']}"
    if c["bad"] == 0:
        call_raises(omega_surf, (ValueError,), S, T, P, grid, pin, init, **dict(opt, OMEGA_FORMULATION="cholesky"))
        ctx.nontrivial()
        return
    if c["bad"] == 1:
        call_raises(omega_surf, (ValueError, TypeError), S, T, P, grid, pin, np.full(tuple(h + 1 for h in hs), pin_p), **opt)
        ctx.nontrivial()
        return
    if c["bad"] == 2:
        call_raises(omega_surf, (RuntimeError,), S, T, P, grid, pin, cm.B + 10.0, **opt)
        ctx.nontrivial()
        return
    if c["ml"] == "dict" and pin_p <= P.reshape(N, -1)[m][np.isfinite(P.reshape(N, -1)[m])][:3].max():
        return
    s, t, p, d = call(omega_surf, S, T, P, grid, pin, init, **opt)
    s, t, p = (as_array(x, hs, nm).reshape(-1) for x, nm in zip((s, t, p), "stp"))
    same_nan(s, t, p, what)
    if c["ml"] != "dict" or np.isfinite(p[m]):
        require(p[m] == pin_p, lambda: f"{what}: pinned cast is at {p[m]!r} instead of {pin_p!r}")
        same_point(cm, s[m], t[m], pin_p, what + " pinned cast")
    usable = np.array([x.ok for x in casts])
    for n in range(N):
        if np.isfinite(p[n]):
            require(usable[n], lambda: f"{what}: surface in cast {n}, which has too few bottles")
            require(casts[n].A - 1e-9 <= p[n] <= casts[n].B + 1e-9, lambda: f"{what}: p={p[n]!r} outside cast {n} [{casts[n].A!r}, {casts[n].B!r}]")
            same_point(casts[n], s[n], t[n], min(max(p[n], casts[n].A), casts[n].B), f"{what} cast {n}")
    reach = set(component(adj, m, usable))
    wet = {n for n in range(N) if np.isfinite(p[n])}
    require(wet <= reach, lambda: f"{what}: wet casts {sorted(wet - reach)} cannot be reached from the pinned cast")
    if not wetting and c["init"] != "pin":
        i0 = np.asarray(init, float).reshape(-1)
        w0 = np.array([x.ok and x.A <= v <= x.B for x, v in zip(casts, i0)])
        comp0 = set(component(adj, m, w0))
        require(wet <= comp0, lambda: f"{what}: casts {sorted(wet - comp0)} became wet though wetting was off")
    if c["diags"]:
        ni = len(d["e_RMS"]) - 1
        require(len(d["e_MAV"]) == ni + 1 and 1 <= ni <= c["itmax"], lambda: f"{what}: {ni} iterations with ITER_MAX={c['itmax']}")
        require(ni >= min(c["itmin"], c["itmax"]), lambda: f"{what}: stopped after {ni} iterations with ITER_MIN={c['itmin']}")
        if c["lrpd"] == 0.0 and c["dp"] == 0.0:
            require(ni == c["itmax"], lambda: f"{what}: stopped after {ni} of {c['itmax']} iterations with all tolerances off")
        require(np.all(np.isfinite(d["e_RMS"])) and np.all(np.asarray(d["e_RMS"]) >= 0), f"{what}: reported errors are not finite")
        moved = True
    else:
        require(d == {}, f"{what}: diagnostics returned with diags=False")
        moved = len(wet) > 1
    ctx.label("init-" + c["init"])
    ctx.label("ml-" + c["ml"])
    ctx.label("wet", len(wet))
    ctx.label("wetting" if wetting else "no-wetting")
    ctx.nontrivial(len(wet) > 1 and moved)


@st.composite
def cut_case(draw, cfg):
    o = draw(ocean(hdims=(2,), nmax=5, nk=(3, 8), stable=True, mask_max=2, min_h=2))
    c = dict(cfg=cfg, o=o, g=draw(graph(("rect", "rect", "rand", "chain"))), pin=draw(I(0, 10**4)), fr=draw(F(0.1, 0.9)), ns=draw(I(0, 9000)))
    c["n"] = draw(st.sampled_from([2, 2, 3, 4]))
    c["tilt"] = draw(F(0.0, 1.5))
    c["mlf"] = draw(F(0.5, 1.5))
    c["form"] = draw(st.sampled_from(["poisson", "poisson", "gradient"]))
    c["win"] = draw(st.sampled_from([["inf", 5], ["inf", 5], [1, 1], [1, 2], [1, 3], [3, 5], [2, 2]]))
    c["rep"] = draw(st.sampled_from([1, 1, 10**6]))
    c["start"] = draw(st.sampled_from(["all", "all", "few", "pin"]))
    return c


def cut_check(c, ctx):
    """Outside the wetting iterations columns are only removed, and those inside the mixed layer always are."""
    eosname, interp, _ = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    cm = casts[m]
    pin_p = float(min(cm.B, cm.A + c["fr"] * (cm.B - cm.A)))
    grid, a, b, _, _ = grid_of(c["g"], hs)
    adj = adjacency(a, b, N)
    u, v = noise(c["ns"], (N,)), noise(c["ns"] + 7, (N,))
    q = np.abs(pin_p * (1 + c["tilt"] * (u - 0.5)))
    q[m] = pin_p
    if c["start"] != "all":
        q[v < 0.6] = np.nan
        q[m] = pin_p
    ml = pin_p * (0.5 + c["mlf"] * (v - 0.5))
    ml[m] = min(ml[m], pin_p - 1.0)
    opt = dict(eos=eos_arg(eosname), interp=interp, output=False, diags=False, OMEGA_FORMULATION=c["form"], TOL_LRPD_MAV=0.0, p_ml=ml.reshape(hs))
    w0 = np.inf if c["win"][0] == "inf" else c["win"][0]
    opt.update(ITER_START_WETTING=w0, ITER_STOP_WETTING=c["win"][1], ITER_WET_PERIM=c["rep"])
    init = pin_p if c["start"] == "pin" else q.reshape(hs)
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    what = f"omega/{eosname}/{interp}/{c['form']} mixed layer, iteration {c['n']}"
    p0, p1 = (as_array(call(omega_surf, S, T, P, grid, pin, init, ITER_MAX=k, **opt)[2], hs, "p").reshape(-1).copy() for k in (c["n"] - 1, c["n"]))
    if w0 <= c["n"] <= c["win"][1]:
        return
    keep = np.isfinite(p0) & ~(p0 < ml)
    may = set(component(adj, m, keep))
    for n in range(N):
        if np.isfinite(p1[n]):
            require(np.isfinite(p0[n]), lambda: f"{what}: cast {n} became wet though wetting was off")
            require(not p0[n] < ml[n], lambda: f"{what}: cast {n} is still wet though the surface was at {p0[n]!r}, inside its mixed layer {ml[n]!r}")
            require(n in may, lambda: f"{what}: cast {n} is cut off from the pinned cast by the mixed layer, but still wet")
    ctx.label("cut", int(np.sum(p0 < ml)))
    dry = any(casts[n].ok and not np.isfinite(p0[n]) and any(x in may for x in adj[n]) for n in range(N))
    ctx.label("could-wet" if dry else "full")
    ctx.nontrivial((bool(np.any(p0 < ml)) or dry) and len(may) > 1)


CUT = [["jmd95", "linear", 2], ["gsw", "pchip", 2]]
CONF = [["jmd95", "linear", 2], ["gsw", "pchip", 2], ["gsw", "linear", 1], ["jmdfwg06", "pchip", 1], ["custom", "linear", 2], ["gswc", "linear", 1]]
SUBS = [Sub("omega", case, check, CONF, n=(500, 8000), cap=(75, 700), parts=(1, 1)), Sub("mixed-layer", cut_case, cut_check, CUT, n=(600, 8000), cap=(50, 500))]


def WARM():
    from harness.gen import warm_surface, custom_eos, custom_eos_s_t

    warm_surface()
    S = np.linspace(34, 35, 6) * np.ones((3, 1))
    T = np.linspace(20, 0, 6) * np.ones((3, 1))
    P = np.linspace(0, 4000, 6) * np.ones((3, 1))
    g = {"edges": (np.array([0, 1]), np.array([1, 2]))}
    for i in ("linear", "pchip"):
        omega_surf(S, T, P, g, 0, 1000.0, eos=(custom_eos, custom_eos_s_t), interp=i, output=False, ITER_MAX=1)
