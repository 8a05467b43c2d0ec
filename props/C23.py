"""C23: stabilising hydrography makes every column stable with the smallest weighted change."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness.core import Sub, Violation, call, require
from harness.gen import F, I, build, logF, noise, ocean, ref_eos, ref_eos_s_t
from harness.oracle import PchipInterpolator, RefCast, noise_of, valid_block
from neutralocean.eos.tools import make_eos, make_eos_s_t, vectorize_eos
from neutralocean.ppinterp import make_pp
from neutralocean.stability import count_unstable, stabilize_ST

RULE = (
    "An ocean of 1-16 casts (2-8 bottles, casts land / single-bottle / NaN above or below) around a stable profile, made unstable in part by noise; "
    "threshold default, 0, a number (also negative) or an array per interval; weight 0.1-300; any vertical dimension, memory layout and ndarray or DataArray. "
    "Non-trivial: at least one cast is below the threshold beyond round-off (stabilize), or at least one unstable bottle pair (count)."
)
ASSUMPTIONS = [
    "the optimiser meets its constraints to 2e-10 kg m-3 dbar-1 (its own tolerance is 1e-10); optimality is compared to 10%",
    "a RuntimeError of the optimiser (documented failure) is inconclusive; none was met while this check was built",
    "count_unstable with an interpolant: whether the last bottle of a full cast is inspected is left open",
]
_E = {}


def eos_of(name, bsq):
    key = (name, str(bsq))
    if key not in _E:
        _E[key] = vectorize_eos(make_eos(name, *(bsq or (None, None))))
    return _E[key]


@st.composite
def case(draw, cfg):
    nd = draw(I(1, 2))
    p1 = draw(st.booleans())
    o = draw(ocean(hdims=(nd,), nmax=(4, 2)[nd - 1], nk=(2, 8), stable=True, mask_max=2, p3=not p1))
    amp = draw(I(0, 8)) / 8 * draw(st.sampled_from([1.0, 1.0, 3.0]))
    if draw(I(0, 3)) == 0:
        amp = 0.0
    o["rS"] = 0.5 * amp * draw(st.sampled_from([1.0, 1.0, 0.0]))
    o["rT"] = 6.0 * amp
    c = dict(cfg=cfg, o=o, p1=p1, vd=draw(I(0, nd)), lay=draw(st.sampled_from(["C", "F", "strided"])), xr=draw(st.booleans()), w=draw(st.sampled_from([10.0, 10.0, 1.0, 0.1, 100.0, 300.0])), thr=draw(st.sampled_from(["default", "zero", "num", "array", "rel", "rel", "neg"])), t=draw(logF(1e-8, 1e-4)), ns=draw(I(0, 9000)))
    return c


def grad(S, T, P, f):
    pm = 0.5 * (P[1:] + P[:-1])
    return (f(S[1:], T[1:], pm) - f(S[:-1], T[:-1], pm)) / np.diff(P)


def lay(x, how):
    if how == "F":
        return np.array(x, order="F")
    if how == "strided":
        big = np.full(tuple(2 * n for n in x.shape), -9.0)
        sl = tuple(slice(1, None, 2) for _ in x.shape)
        big[sl] = x
        return big[sl]
    return x.copy()


def check(c, ctx):
    name, bsq = c["cfg"]
    S, T, P = build(c["o"], pnan=False)
    hs, nk = S.shape[:-1], S.shape[-1]
    nd = len(hs)
    N = int(np.prod(hs))
    f = ref_eos(name, *(bsq or (None, None)))
    eos = eos_of(name, bsq)
    v = c["vd"]
    thr = {"default": 1e-6, "zero": 0.0, "num": c["t"]}.get(c["thr"])
    kw = dict(verbose=False, weight=c["w"])
    if c["thr"] == "array":
        thr = c["t"] * noise(c["ns"], (nk - 1,))
        kw["min_dLRPDdp"] = thr.copy()
    elif c["thr"] == "rel":
        # between the gradients found in the data, so that weakly stable bottles fall short of it
        g = np.concatenate([grad(s[k:K], t[k:K], p[k:K], f) for s, t, p in zip(*(X.reshape(N, nk) for X in (S, T, P))) for k, K in [valid_block(s)] if K - k > 1] or [[]])
        g = np.sort(g[g > 0])
        thr = float(1.2 * g[int(0.4 * noise(c["ns"], (1,))[0] * len(g))]) if len(g) else 1e-6
        kw["min_dLRPDdp"] = thr
    elif c["thr"] == "neg":
        # a negative threshold leaves weak instabilities alone
        thr = -c["t"] * 10
        kw["min_dLRPDdp"] = thr
    elif c["thr"] != "default":
        kw["min_dLRPDdp"] = thr
    thr = np.broadcast_to(thr, (nk - 1,))
    A = lay(np.moveaxis(S, -1, v), c["lay"])
    B = lay(np.moveaxis(T, -1, v), c["lay"] if c["ns"] % 3 else "CF"[c["lay"] == "C"])  # sometimes S and T lie in memory differently
    Q = P.reshape(N, nk)[0].copy() if c["p1"] else np.moveaxis(P, -1, v).copy()
    kw["vert_dim"] = v
    args = [A, B, Q]
    if c["xr"]:
        dims = ["y", "x"][:nd]
        dims.insert(v, "k")
        args = [xr.DataArray(A, dims=dims), xr.DataArray(B, dims=dims), Q]
        kw["vert_dim"] = "k"
    Q0 = Q.copy()
    try:
        stabilize_ST(*args, eos, **kw)
    except RuntimeError:
        ctx.label("no-solution")
        return
    S1, T1 = (np.moveaxis(np.asarray(getattr(x, "values", x)), v, -1).reshape(N, nk) for x in args[:2])
    require(np.array_equal(Q, Q0), "stabilize_ST changed P")
    S0, T0, P0 = (X.reshape(N, nk) for X in (S, T, P))
    fixed = 0
    for n in range(N):
        what = f"stabilize_ST/{name} column {n} of {N} (vert_dim={kw['vert_dim']!r}, {c['lay']})"
        k, K = valid_block(S0[n])
        out = np.ones(nk, bool)
        out[k:K] = False
        require(np.array_equal(S1[n][out], S0[n][out], equal_nan=True) and np.array_equal(T1[n][out], T0[n][out], equal_nan=True), f"{what}: data outside the valid bottles changed")
        if K - k < 2:
            require(np.array_equal(S1[n], S0[n], equal_nan=True), f"{what}: a column with a single bottle changed")
            continue
        s0, t0, s1, t1, p = S0[n][k:K], T0[n][k:K], S1[n][k:K], T1[n][k:K], P0[n][k:K]
        th = thr[k : K - 1]
        g0, g1 = grad(s0, t0, p, f), grad(s1, t1, p, f)
        dl = 4 * noise_of(name) / np.diff(p)
        if np.all(g0 > th + dl):
            require(np.array_equal(s0, s1) and np.array_equal(t0, t1), f"{what}: changed though stable already")
            continue
        if not np.any(g0 < th - dl):
            continue
        fixed += 1
        require(np.all(np.isfinite(s1) & np.isfinite(t1)), f"{what}: NaN after stabilisation")
        # the optimiser meets its constraints to 1e-10 in total, in units of the gradient
        worst = float(np.min(g1 - th + 2e-10 + dl))
        require(worst >= 0, lambda: f"{what}: gradient {g1} after stabilisation, required {th}")
        # smallest weighted change: compare with an independent solution
        obj = lambda x: float(np.sum(c["w"] * x[: K - k] ** 2 + x[K - k :] ** 2))
        got = obj(np.append(s1 - s0, t1 - t0))
        jac = lambda x: 2 * x * np.append(np.full(K - k, c["w"]), np.ones(K - k))
        ref = minimize(obj, np.zeros(2 * (K - k)), jac=jac, method="SLSQP", tol=1e-12, options={"maxiter": 500}, constraints=dict(type="ineq", fun=lambda x: (grad(s0 + x[: K - k], t0 + x[K - k :], p, f) - th) * np.diff(p)))
        if ref.success:
            ctx.label(f"opt{np.round(np.log10(got/ref.fun),1):.1f}")
            require(got <= 1.1 * ref.fun + 1e-8, lambda: f"{what}: weighted change {got}, but {ref.fun} suffices")
    ctx.label("fixed", fixed)
    ctx.nontrivial(fixed)



@st.composite
def cu_case(draw, cfg):
    c = dict(cfg=cfg, **{k: v for k, v in draw(case(cfg[:2])).items() if k != "cfg"})
    c["eq"] = draw(st.booleans())
    return c


def cu_check(c, ctx):
    name, bsq, how = c["cfg"]
    S, T, P = build(c["o"], pnan=False)
    nk = S.shape[-1]
    nd = S.ndim - 1
    f = ref_eos(name, *(bsq or (None, None)))
    v = c["vd"]
    if c["eq"] and how == "fd":  # identical neighbours are not stable
        S[..., nk // 2], T[..., nk // 2] = S[..., nk // 2 - 1], T[..., nk // 2 - 1]
    A, B = (lay(np.moveaxis(X, -1, v), c["lay"]) for X in (S, T))
    Q = P.reshape(-1, nk)[0].copy() if c["p1"] else np.moveaxis(P, -1, v).copy()
    if how == "fd":
        got = call(count_unstable, A, B, Q, vert_dim=v, eos=eos_of(name, bsq))
        pm = 0.5 * (P[..., 1:] + P[..., :-1])
        d = f(S[..., 1:], T[..., 1:], pm) - f(S[..., :-1], T[..., :-1], pm)
        tol = 4 * noise_of(name)
        same = (S[..., 1:] == S[..., :-1]) & (T[..., 1:] == T[..., :-1])
        lo = int(np.sum((d < -tol) | same))
        hi = int(np.sum((d <= tol) | same))
    else:
        if how not in _E:
            _E[how] = make_pp("pchip", kind="u", out="interp", num_dep_vars=2)
            _E["st"] = make_eos_s_t(name, *(bsq or (None, None)))
        got = call(count_unstable, A, B, Q, vert_dim=v, interp_two=_E[how], eos_s_t=_E["st"])
        g = ref_eos_s_t(name, *(bsq or (None, None)))
        lo = hi = 0
        N = int(np.prod(S.shape[:-1]))
        for s, t, p in zip(S.reshape(N, nk), T.reshape(N, nk), P.reshape(N, nk)):
            k, K = valid_block(s)
            if K - k < 2:
                continue
            ds, dt = (PchipInterpolator(p[k:K], x[k:K]).derivative()(p[k:K]) for x in (s, t))
            rs, rt = g(s[k:K], t[k:K], p[k:K])
            z = rs * ds + rt * dt
            tol = 1e-9 * (np.abs(rs * ds) + np.abs(rt * dt)) + 1e-13
            lo += int(np.sum(z[: min(K - k, nk - 1 - k)] < -tol[: min(K - k, nk - 1 - k)]))
            hi += int(np.sum(z < tol))  # whether the last of nk bottles is inspected is left open
    ctx.label("unstable", lo)
    ctx.nontrivial(lo > 0)
    require(lo <= int(got) <= hi, lambda: f"count_unstable/{name}/{how} (vert_dim={v}): {got}, recounted {lo}..{hi}")


SUBS = [
    Sub("stabilize", case, check, [["jmd95", None], ["jmdfwg06", None], ["jmd95", [9.81, 1027.5]]], n=(110, 3000), cap=(60, 500), parts=(2, 2)),
    Sub("count", cu_case, cu_check, [["jmd95", None, "fd"], ["jmdfwg06", [9.81, 1027.5], "fd"], ["jmd95", None, "pchip"]], n=(300, 4000), cap=(60, 500), parts=(1, 1)),
]
