"""C21: the mixed layer is where potential density exceeds the near-surface value by the given amount."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_arg, eos_fun, logF, ocean, ref_eos
from harness.omegaref import graph, grid_of
from harness.oracle import RefCast, as_array, expect_close, noise_of, valid_block
from neutralocean.mixed_layer import mixed_layer
from neutralocean.surface import omega_surf

RULE = (
    "A case is an ocean (1-3 horizontal dims, any vertical dimension and memory layout; columns with missing tops, bottoms, holes), an equation of state (density or "
    "specific volume, pressure or Boussinesq depth), a threshold, a reference pressure, a near-surface bottle and an "
    "interpolant; the answer is bracketed, column by column, from the published equation of state.  A second check "
    "compares an omega surface given mixed-layer parameters with one given the mixed layer itself.  Non-trivial: the mixed "
    "layer base lies inside at least one column."
)
ASSUMPTIONS = ["claimed for columns whose potential density increases strictly downwards (elsewhere the definition is ambiguous)"]


@st.composite
def case(draw, cfg):
    nd = cfg[2]
    o = draw(ocean(hdims=(nd,), nmax=(8, 4, 3)[nd - 1], nk=(2, 10), stable=draw(I(0, 3)) > 0, mask_max=4))
    c = dict(cfg=cfg, o=o, dd=draw(st.sampled_from([0.03, 0.03, 0.125]) | logF(1e-4, 5.0)), ref=draw(st.sampled_from([100.0, 0.0]) | F(0.0, 6000.0)), bi=draw(st.sampled_from([1, 1, 0, 2, 3])), dflt=draw(I(0, 3)) == 0)
    if draw(I(0, 2)) == 0:
        c["land"] = draw(I(0, 99))
    c["pos"] = draw(F(0.0, 1.0))
    c["vd"] = draw(st.sampled_from([None, None, 0, 1, 2, 3, -1]))
    c["lay"] = draw(st.sampled_from(["C", "F", "strided"]))
    c["p1"] = draw(I(0, 2)) == 0
    c["how"] = draw(st.sampled_from(["fixed", "inside"]))
    return c


def check(c, ctx):
    eosname, interp, nd, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = build(dict(c["o"], p3=0.0) if c["p1"] else c["o"], pnan=not c["p1"])
    hs, nk = S.shape[:-1], S.shape[-1]
    N = int(np.prod(hs))
    f = ref_eos(eosname, grav, rho_c)
    dens = (lambda s, t, p: f(s, t, p)) if float(f(34.5, 3.0, 1000.0)) > 1 else (lambda s, t, p: 1 / f(s, t, p))
    bi, ref, dd = c["bi"], c["ref"], c["dd"]
    kw = dict(eos=eos_fun(eosname) if eosname in ("custom", "gswc") else eosname, grav=grav, rho_c=rho_c, interp=interp)
    if c["dflt"] and nk > 1:
        bi, ref, dd = 1, 100.0, 0.03
    else:
        bi = min(bi, nk - 1)
        if c["how"] == "inside":  # a threshold inside some column
            n = int(c["pos"] * (N - 1))
            D = dens(S.reshape(N, nk)[n], T.reshape(N, nk)[n], ref)
            rng = np.nanmax(D) - D[bi] if np.isfinite(D).any() and np.isfinite(D[bi]) else np.nan
            if np.isfinite(rng) and rng > 1e-3:
                dd = float(rng * (0.05 + 0.9 * c["pos"]))
        kw.update(pot_dens_diff=dd, ref_p=ref, bottle_index=bi)
    # any position of the vertical dimension, memory layout, and full or shared pressures
    args = [S, T, P]
    if c["vd"] is not None:
        kw["vert_dim"] = vd = c["vd"] % (nd + 1) if c["vd"] >= 0 else c["vd"]
        args = [np.moveaxis(x, -1, vd) for x in args]
    args = [{"C": np.ascontiguousarray, "F": np.asfortranarray, "strided": lambda x: np.repeat(x, 2, axis=0)[::2]}[c["lay"]](x) for x in args]
    if c["p1"]:
        args[2] = P.reshape(N, nk)[0].copy()
    keep = [x.copy() for x in args]
    ml = as_array(call(mixed_layer, *args, **kw), hs, "mixed_layer").reshape(-1)
    require(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(keep, args)), "mixed_layer: an input was modified")
    inside = 0
    for n in range(N):
        s, t, p = (X.reshape(N, nk)[n] for X in (S, T, P))
        what = f"mixed_layer/{eosname}/{interp} column {n}"
        if np.isnan(s[bi]):
            require(np.isnan(ml[n]), lambda: f"{what}: {ml[n]!r} though the near-surface bottle is missing")
            continue
        D = dens(s, t, ref) - dens(s[bi], t[bi], ref)
        k, K = valid_block(D, p)
        if K - k < 2:
            require(np.isnan(ml[n]), lambda: f"{what}: {ml[n]!r} from fewer than two bottles")
            continue
        D, q = D[k:K], p[k:K]
        dl = 4 * noise_of(eosname) * (1e6 if float(f(34.5, 3.0, 1000.0)) < 1 else 1) + 1e-12
        if not np.all(np.diff(D) > 50 * dl):
            ctx.label("ambiguous")
            continue
        if dd > D[-1] + dl or dd < D[0] - dl:
            require(np.isnan(ml[n]), lambda: f"{what}: {ml[n]!r} though the density difference {dd} is not reached (max {D[-1]!r})")
            ctx.label("not-reached")
            continue
        if dd > D[-1] - dl or dd < D[0] + dl:
            continue
        g = PchipInterpolator(D, q) if interp == "pchip" and len(q) > 2 else (lambda x: np.interp(x, D, q))
        lo, hi = float(g(dd - dl)), float(g(dd + dl))
        tol = 1e-9 * (1 + abs(hi))
        require(lo - tol <= ml[n] <= hi + tol, lambda: f"{what}: {ml[n]!r}, expected {lo!r} (threshold {dd}, ref_p {ref}, bottle {bi})")
        inside += 1
    ctx.label("inside", inside)
    ctx.nontrivial(inside)


@st.composite
def om_case(draw, cfg):
    nd = 2
    o = draw(ocean(hdims=(nd,), nmax=4, nk=(5, 12), stable=True, mask_max=2, min_h=2))
    return dict(cfg=cfg, o=o, g=draw(graph()), pin=draw(I(0, 10**4)), fr=draw(F(0.1, 0.8)), dd=draw(logF(1e-3, 1.0)), ref=draw(F(0.0, 300.0)), it=draw(I(1, 4)), bi=draw(st.sampled_from([None, 0, 1, 2])), ip=draw(st.sampled_from([None, "linear", "pchip"])))


def check_om(c, ctx):
    eosname, interp, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    casts = [RefCast(*(X.reshape(N, -1)[n] for X in (S, T, P)), interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    pm = float(casts[m].A + c["fr"] * (casts[m].B - casts[m].A))
    par = dict(pot_dens_diff=c["dd"], ref_p=c["ref"])
    if c["bi"] is not None:
        par["bottle_index"] = c["bi"]
    if c["ip"] is not None:
        par["interp"] = c["ip"]
    ml = np.asarray(call(mixed_layer, S, T, P, eos=eos_fun(eosname), grav=grav, rho_c=rho_c, **par))
    if np.isfinite(ml[pin]) and ml[pin] >= pm:
        return
    grid = grid_of(c["g"], hs)[0]
    kw = dict(eos=eos_arg(eosname), interp=interp, output=False, ITER_MAX=c["it"], grav=grav, rho_c=rho_c, TOL_LRPD_MAV=0.0)
    r1 = call(omega_surf, S, T, P, grid, pin, pm, p_ml=dict(par), **kw)
    r2 = call(omega_surf, S, T, P, grid, pin, pm, p_ml=ml.copy(), **kw)
    r0 = call(omega_surf, S, T, P, grid, pin, pm, **kw)
    for x, y, nm in zip(r1, r2, "stp"):
        expect_close(as_array(x, hs, nm), as_array(y, hs, nm), f"omega/{eosname}: mixed layer from parameters {par} and as an array differ: {nm}", rtol=1e-9, atol=1e-9)
    p0, p2 = (as_array(r[2], hs, "p") for r in (r0, r2))
    ctx.label("bites" if not np.array_equal(np.isnan(p0), np.isnan(p2)) else "idle")
    ctx.nontrivial(np.isfinite(ml).any() and np.isfinite(p2).sum() > 1)


BSQ = [9.81, 1027.5]
SUBS = [
    Sub("layer", case, check, [["gsw", "linear", 2, None], ["jmd95", "pchip", 1, None], ["gsw", "pchip", 2, BSQ], ["jmdfwg06", "linear", 3, BSQ], ["custom", "linear", 1, None], ["jmd95", "linear", 2, None]], n=(900, 12000), cap=(50, 400)),
    Sub("omega", om_case, check_om, [["gsw", "linear", None], ["jmd95", "linear", BSQ]], n=(250, 4000), cap=(60, 500)),
]
