"""C11: neutrality errors and their norms, alone and in surface diagnostics."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, custom_eos_s_t, eos_arg, eos_fun, logF, noise, ocean, ref_eos_s_t, warm_surface
from harness.oracle import as_array, norms_ref
from neutralocean.eos import gswc
from neutralocean.eos.tools import make_eos_s_t
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.surface import anomaly_surf, omega_surf, potential_surf

RULE = (
    "A case is a surface (1-40 points, 1-D or 2-D, NaN at some, in C, Fortran or strided order, exactly neutral or flat pairs included), a list of 0-80 "
    "edges between any points (repeats, both directions, self-edges), distances given as arrays, scalars or left out, an "
    "equation of state given by name or function, optionally Boussinesq; or a computed surface whose reported norms are "
    "recomputed.  Non-trivial: at least one edge joins two wet points with a non-zero error."
)
ASSUMPTIONS = ["dist and distperp are positive"]
DIST = ("array", "scalar", "none", "list")


@st.composite
def grid_case(draw, N):
    E = draw(I(0, 2 * N + 4))
    g = dict(E=E, es=draw(I(0, 9000)), d=draw(st.sampled_from(DIST)), p=draw(st.sampled_from(DIST)), d0=draw(logF(1e-3, 1e5)), p0=draw(logF(1e-3, 1e5)), form=draw(st.sampled_from(["tuple", "lists", "int32"])))
    return g


def make_grid(g, N):
    E = g["E"]
    a = np.floor(noise(g["es"], (E,)) * N).astype(int)
    b = np.floor(noise(g["es"] + 1, (E,)) * N).astype(int)
    grid = {}
    ed = dict(tuple=(a, b), lists=(list(map(int, a)), list(map(int, b))), int32=(a.astype(np.int32), b.astype(np.int32)))[g["form"]]
    if E == 0:
        ed = (a, b)
    grid["edges"] = ed
    out = []
    for key, kind, x0, k in (("dist", g["d"], g["d0"], 2), ("distperp", g["p"], g["p0"], 3)):
        v = x0 * (0.2 + noise(g["es"] + k, (E,)))
        if kind == "array":
            grid[key] = v
        elif kind == "list":
            grid[key] = list(map(float, v)) if key == "distperp" and E else v
        elif kind == "scalar":
            grid[key] = v = x0
        else:
            v = 1.0
        out.append(np.broadcast_to(v, (E,)))
    return grid, a, b, out[0], out[1]


@st.composite
def case(draw, cfg):
    shape = [draw(I(1, 6)), draw(I(1, 6))] if draw(st.booleans()) else [draw(I(1, 30))]
    N = int(np.prod(shape))
    c = dict(cfg=cfg, shape=shape, ns=draw(I(0, 9000)), nan=draw(F(0.0, 0.6)), g=draw(grid_case(N)), xr=draw(st.booleans()), flat=draw(st.booleans()))
    c["sc"] = [draw(F(0.0, 6.0)), draw(F(0.0, 20.0)), draw(F(0.0, 5000.0))]
    c["how"] = draw(st.sampled_from(["fn", "arg"]))
    c["lay"] = [draw(I(0, 2)) for _ in range(3)]
    c["ints"] = draw(I(0, 7)) == 0  # whole salinities held as integers
    return c


def laid(x, how):
    """The same array: C order, Fortran order, or a strided view."""
    if how == 1:
        return np.asfortranarray(x)
    if how == 2:
        big = np.full(tuple(2 * k for k in x.shape), 7, x.dtype)
        big[tuple([slice(None, None, 2)] * x.ndim)] = x
        return big[tuple([slice(None, None, 2)] * x.ndim)]
    return x


def check(c, ctx):
    name, bsq = c["cfg"]
    shape, ns = tuple(c["shape"]), c["ns"]
    N = int(np.prod(shape))
    s = 34.0 + c["sc"][0] * (noise(ns, (N,)) - 0.5)
    t = 8.0 + c["sc"][1] * (noise(ns + 1, (N,)) - 0.5)
    p = 20.0 + c["sc"][2] * noise(ns + 2, (N,))
    if c["flat"]:
        s = np.round(s)
        t = np.round(t / 5) * 5
    dry = noise(ns + 3, (N,)) < c["nan"]
    if c["ints"]:
        s, dry = np.round(s).astype(int), np.zeros(N, bool)
    if dry.any():
        s[dry] = t[dry] = p[dry] = np.nan
    grid, a, b, dist, distperp = make_grid(c["g"], N)
    grav, rho_c = bsq or (None, None)
    f = ref_eos_s_t(name, grav, rho_c)
    rs, rt = f(*(0.5 * (x[a] + x[b]) for x in (s, t, p)))
    e1 = rs * (s[b] - s[a]) + rt * (t[b] - t[a])
    tol = 1e-10 * (abs(rs * (s[b] - s[a])) + abs(rt * (t[b] - t[a]))) + 1e-30
    args = [laid(x.reshape(shape), how) for x, how in zip((s, t, p), c["lay"])]
    keep = [x.copy() for x in args]
    if c["xr"]:
        args = [xr.DataArray(x, dims=["y", "x"][: len(shape)]) for x in args]
    e_arg = dict(custom=custom_eos_s_t, gswc=gswc.rho_s_t).get(name, name)
    kw = dict(eos_s_t=e_arg, grav=grav, rho_c=rho_c)
    if c["how"] == "fn" and name != "gswc":
        kw = dict(eos_s_t=make_eos_s_t(e_arg, grav, rho_c))

    def cmp(got, exp, tl, what):
        got = as_array(got, exp.shape, what)
        require(np.array_equal(np.isnan(got), np.isnan(exp)), f"{what}: NaN at other edges than those touching a dry point")
        ok = ~np.isnan(exp)
        bad = np.flatnonzero(abs(got[ok] - exp[ok]) > tl[ok])
        require(bad.size == 0, lambda: f"{what}: {got[ok][bad[0]]!r} instead of {exp[ok][bad[0]]!r}")

    cmp(call(ntp_epsilon_errors, *args, grid, **kw), e1 / dist, tol / dist, f"errors/{name}")
    if isinstance(grid["edges"], tuple):
        cmp(call(ntp_epsilon_errors, *args, tuple(grid["edges"]), **kw), e1, tol, f"errors/{name} (edges only)")
    cmp(call(ntp_epsilon_errors, *args, {"edges": (b, a), "dist": dist}, **kw), -e1 / dist, tol / dist, f"errors/{name} reversed edges")
    rms, mav = call(ntp_epsilon_errors_norms, *args, grid, **kw)
    r0, m0 = norms_ref(e1, dist, distperp)
    scale = np.nanmax(np.append(tol / dist, 0.0)) * 10 + 1e-30
    require(np.isfinite(rms) and abs(float(rms) - r0) <= 1e-9 * r0 + scale, lambda: f"RMS/{name}: {float(rms)!r} instead of {r0!r}")
    require(np.isfinite(mav) and abs(float(mav) - m0) <= 1e-9 * m0 + scale, lambda: f"MAV/{name}: {float(mav)!r} instead of {m0!r}")
    require(mav <= rms * (1 + 1e-9) + scale, "MAV exceeds RMS")
    require(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(keep, args)), "the errors changed their arguments")
    ctx.label("edges", len(a))
    ctx.label("dist-" + c["g"]["d"])
    ctx.label("distperp-" + c["g"]["p"])
    ctx.nontrivial(bool(np.any(np.nan_to_num(e1) != 0)))


@st.composite
def surf_case(draw, cfg):
    stable = draw(I(0, 3)) > 0
    o = draw(ocean(hdims=(cfg[3],), nmax=(12, 4)[cfg[3] - 1], nk=(3, 10), stable=stable, mask_max=3))
    N = int(np.prod(o["hs"]))
    return dict(cfg=cfg, o=o, g=draw(grid_case(N)), pin=draw(I(0, 10**4)), fr=draw(F(0.05, 0.95)), it=draw(I(1, 4)), form=draw(st.sampled_from(["poisson", "gradient"])))


def check_surf(c, ctx):
    kind, name, interp, _, bsq = c["cfg"]
    grav, rho_c = bsq or (None, None)
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    ok = [n for n in range(N) if np.isfinite((S + P).reshape(N, -1)[n]).sum() >= 2 and np.isfinite((S + P).reshape(N, -1)[n][:2]).all()]
    if not ok:
        return
    n = ok[c["pin"] % len(ok)]
    col = P.reshape(N, -1)[n]
    v = np.isfinite((S + P).reshape(N, -1)[n])
    K = int(np.argmin(np.append(v, False)))
    pin_p = float(col[0] + c["fr"] * (col[K - 1] - col[0]))
    g = dict(c["g"])
    if kind == "omega":  # a chain of neighbours keeps the graph simple
        grid, a, b, dist, distperp = make_grid(dict(g, E=max(N - 1, 0), form="tuple"), N)
        a, b = np.arange(N - 1), np.arange(1, N)
        grid["edges"] = (a, b)
    else:
        grid, a, b, dist, distperp = make_grid(g, N)
    kw = dict(grid=grid, eos=eos_arg(name), interp=interp, grav=grav, rho_c=rho_c, output=False)
    pin = tuple(int(i) for i in np.unravel_index(n, hs))
    if kind == "omega":
        s, t, p, d = call(omega_surf, S, T, P, kw.pop("grid"), pin, pin_p, ITER_MAX=c["it"], OMEGA_FORMULATION=c["form"], **kw)
    else:
        fn = potential_surf if kind == "potential" else anomaly_surf
        s, t, p, d = call(fn, S, T, P, pin_cast=pin, pin_p=pin_p, **kw)
    s, t, p = (as_array(x, hs, nm).reshape(-1) for x, nm in zip((s, t, p), "stp"))
    f = ref_eos_s_t(name, grav, rho_c)
    rs, rt = f(*(0.5 * (x[a] + x[b]) for x in (s, t, p)))
    e1 = rs * (s[b] - s[a]) + rt * (t[b] - t[a])
    sc = np.nanmax(np.append((abs(rs * (s[b] - s[a])) + abs(rt * (t[b] - t[a]))) / dist, 0.0)) * 1e-9 + 1e-30
    r0, m0 = norms_ref(e1, dist, distperp)
    for key, val in (("e_RMS", r0), ("e_MAV", m0)):
        got = float(np.asarray(d[key]).reshape(-1)[-1])
        require(abs(got - val) <= 1e-9 * val + sc, lambda: f"{kind}/{name}: reported {key} {got!r}, recomputed from the surface {val!r}")
    ctx.label(kind)
    ctx.nontrivial(r0 > 0)


BSQ = [9.81, 1027.5]
SUBS = [
    Sub("errors", case, check, [["jmd95", None], ["gsw", None], ["jmdfwg06", None], ["custom", None], ["gswc", None], ["gsw", BSQ], ["jmd95", BSQ]], n=(1200, 12000), cap=(40, 400)),
    Sub("diagnostics", surf_case, check_surf, [["potential", "jmd95", "linear", 2, None], ["anomaly", "gsw", "linear", 1, None], ["potential", "gsw", "pchip", 1, BSQ], ["omega", "gsw", "linear", 2, None], ["omega", "jmd95", "pchip", 1, BSQ]], n=(350, 5000), cap=(50, 400)),
]
WARM = warm_surface
