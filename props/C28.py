"""C28: requests that do not describe one problem are refused, and ones that do are answered."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness.core import Sub, Violation, call, quiet, require
from harness.gen import I, build, ocean
from harness.oracle import RefCast
from neutralocean.eos import make_eos, make_eos_s_t
from neutralocean.grid import rectilinear, xgcm
from neutralocean.label import veronis
from neutralocean.lib import val_at
from neutralocean.mixed_layer import mixed_layer
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.ppinterp import make_pp
from neutralocean.stability import stabilize_ST
from neutralocean.surface import anomaly_surf, omega_surf, potential_surf
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
import warnings

RULE = (
    "A case is an ocean, an entry point, a well-formed request to it, and either one equivalent re-spelling of that request or "
    "one or two mistakes from the list of that entry point, made in it.  Non-trivial: every case."
)
ASSUMPTIONS = [
    "any exception counts as a refusal (which type it has is left to the code, except where C02, C07, C10, C12 and C18 say)",
]


def mistakes(**k):
    return k


def refused(fn, what, *a, **k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                out = fn(*a, **k)
    except MemoryError:
        raise
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{what}: accepted, returning {str(out)[:200]}")


NOT_EOS = ["nosuch", "GSW ", 3.5, None]
NOT_INTERP = ["cubic", "Linear", "", None, 1]


def same(x, y, what):
    for u, v in zip(x, y):
        if isinstance(u, dict):
            continue
        u, v = np.asarray(u), np.asarray(v)
        require(u.shape == v.shape and np.allclose(u, v, rtol=0, atol=1e-9, equal_nan=True), f"{what}: differs from the answer to the same request spelled otherwise")


# Each mistake is (what must hold of the request for it to be one, what it changes): functions of the request's
# dict `r` and of three integers drawn for it.
def wrong_shape(X, k):
    """An array that does not match the ocean X came from, in one of several ways."""
    opts = [X[1:], X[..., 1:], X[..., :-1], np.concatenate((X, X)), np.repeat(X, 2, axis=-1), X[:, None]]
    return opts[k % len(opts)]


def m_T(r, k):
    r["T"] = wrong_shape(r["T"], k)


def m_P(r, k):
    P = r["P"]
    r["P"] = P[:-1] if P.ndim == 1 else [P[1:], P[..., 1:], np.concatenate((P, P)), P[0, 0, 1:] if P.ndim == 3 else P[0, 1:]][k % 4] if len(P) != 2 else P[..., 1:]


def m_eos(r, k):
    r["eos"] = NOT_EOS[k % len(NOT_EOS)]


def m_interp(r, k):
    r["interp"] = NOT_INTERP[k % len(NOT_INTERP)]


def m_pin_cast(r, k):
    n = len(r["hs"])
    pc = r["pin_cast"]
    r["pin_cast"] = [tuple(int(h) for h in r["hs"]), (10**6,) + tuple(pc[1:]), tuple(float(i) + 0.5 for i in pc), "x" * n, (-(10**6),) + tuple(pc[1:]), tuple(pc[:-1]) if n > 1 else "y"][k % 6]


def m_pin_p(r, k):
    r["pin_p"] = [str(r["pin_p"]), [r["pin_p"]], {}, (r["pin_p"],)][k % 4]


def m_select(r, k):
    """Leave the surface undetermined."""
    for key in (("ref", "pin_cast"), ("ref", "pin_p"), ("isoval", "pin_cast"), ("isoval", "pin_p"), ("ref", "pin_cast", "pin_p"), ("isoval", "pin_cast", "pin_p"))[k % 6]:
        r[key] = None


def m_ref(r, k):
    if r["kind"] == "potential":
        r["ref"] = ["0", (0.0,), [1000.0], {}, (35.0, 5.0)][k % 5]
    else:
        r["ref"] = [35.0, (35.0,), (35.0, 5.0, 0.0), [35.0], "ab"][k % 5]


def m_grid(r, k):
    r["grid"] = [None, {}, {"dist": 1.0}, 7][k % 4]
    r["diags"] = True


def m_edges(r, k):
    a, b = r["grid"]["edges"]
    N = int(np.prod(r["hs"]))
    far = N + k % 3
    r["grid"] = {"edges": [(np.append(a, far), np.append(b, 0)), (np.append(a, 0), np.append(b, far)), (a, np.append(b, 0)), (np.append(a, 0), b)][(k // 3) % 4]}
    r["diags"] = True


def m_dist(r, k):
    n = len(r["grid"]["edges"][0])
    r["grid"] = dict(r["grid"], **{["dist", "distperp"][k % 2]: np.ones(n + [1, 2, -1, 5][(k // 2) % 4] if n > 2 else n + 3)})
    r["diags"] = True


def m_vert(r, k):
    if k % 2:
        r["vert_dim"] = "depth"  # of arrays without named dimensions
    else:
        dims = ["x", "y"][: len(r["hs"])] + ["z"]
        r["S"], r["T"] = (xr.DataArray(r[q], dims=dims) for q in "ST")
        if r["P"].ndim == r["S"].ndim:
            r["P"] = xr.DataArray(r["P"], dims=dims)
        r["vert_dim"] = "depth"


SURF = [m_T, m_P, m_eos, m_interp, m_pin_cast, m_pin_p, m_select, m_ref, m_grid, m_edges, m_dist, m_vert]


def m_form(r, k):
    r["OMEGA_FORMULATION"] = ["cholesky", "", "poisson ", "grad", 3][k % 5]


def m_init_shape(r, k):
    hs = tuple(r["hs"])
    opts = [(hs[0] + 1,) + hs[1:], hs + (1,), (1,) + hs, (int(np.prod(hs)) + 1,)] + ([hs[::-1]] if hs[::-1] != hs else []) + ([(int(np.prod(hs)),)] if len(hs) > 1 else [])
    r["p_init"] = np.full(opts[k % len(opts)], r["pin_p"])


def m_init_type(r, k):
    r["p_init"] = [None, "mid", [r["pin_p"]], {}][k % 4]


def m_init_dry(r, k):
    """The pinning cast has no water at the pinned pressure."""
    r["p_init"] = [np.nan, r["deep"] + 50.0, -50.0, np.full(r["hs"], r["deep"] + 50.0), np.full(r["hs"], np.nan), np.full(r["hs"], -50.0)][k % 6]


def m_ml(r, k):
    hs = tuple(r["hs"])
    r["p_ml"] = np.zeros([(hs[0] + 1,) + hs[1:], (int(np.prod(hs)) + 2,)][k % 2])


def m_nogrid(r, k):
    r["grid"] = [None, {}, {"dist": 1.0}, 7][k % 4]


def m_omega_eos(r, k):
    r["eos"] = ["nosuch", 3.5, None, r["fns"][0], (r["fns"][0],), (r["fns"][0], 3), (3, r["fns"][1])][k % 7]


OMEGA = [m_T, m_P, m_interp, m_pin_cast, m_form, m_init_shape, m_init_type, m_init_dry, m_ml, m_nogrid, m_edges, m_dist, m_vert, m_omega_eos]
SETS = dict(surf=SURF, omega=OMEGA)


@st.composite
def surf_case(draw, cfg):
    which, nd = cfg
    c = dict(cfg=cfg, o=draw(ocean(hdims=(nd,), nmax=(7, 3)[nd - 1], nk=(3, 8), masks=False, stable=True)))
    c["kind"] = draw(st.sampled_from(["potential", "anomaly"]))
    c["mode"] = draw(I(0, 2))
    c["cast"] = draw(I(0, 1000))
    c["fr"] = draw(I(5, 95)) / 100
    c["p1d"] = draw(st.booleans())
    c["diags"] = draw(st.booleans())
    c["bad"] = draw(st.lists(st.tuples(I(0, len(SETS[which]) - 1), I(0, 59)).map(list), max_size=2))
    c["alt"] = draw(I(0, 5))
    return c


def run(which, r):
    if which == "omega":
        kw = {k: r[k] for k in ("interp", "eos", "vert_dim", "OMEGA_FORMULATION", "p_ml") if k in r}
        return omega_surf, (r["S"], r["T"], r["P"], r["grid"], r["pin_cast"], r["p_init"]), dict(kw, ITER_MAX=2, output=False, diags=r["diags"])
    kw = {k: r[k] for k in ("interp", "eos", "vert_dim", "grid", "ref", "isoval", "pin_cast", "pin_p", "diags") if k in r}
    return (potential_surf if r["kind"] == "potential" else anomaly_surf), (r["S"], r["T"], r["P"]), dict(kw, output=False)


def surf_check(c, ctx):
    which, nd = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    if c["p1d"]:
        P = P.reshape(N, -1)[0].copy()
    m = c["cast"] % N
    cm = RefCast(S.reshape(N, -1)[m], T.reshape(N, -1)[m], np.broadcast_to(P, S.shape).reshape(N, -1)[m], "linear")
    pin_p = float(cm.A + c["fr"] * (cm.B - cm.A))
    pin = tuple(int(i) for i in np.unravel_index(m, hs))
    fns = make_eos("jmd95"), make_eos_s_t("jmd95")
    ref = 1000.0 if c["kind"] == "potential" else (35.0, 5.0)
    s0, t0 = (float(v) for v in cm.st(pin_p))
    iso = float(fns[0](s0, t0, ref) if c["kind"] == "potential" else fns[0](s0, t0, pin_p) - fns[0](*ref, pin_p))
    a = np.arange(N - 1)
    r = dict(S=S, T=T, P=P, hs=hs, kind=c["kind"], eos="jmd95", interp="linear", grid={"edges": (a, a + 1)}, diags=bool(c["diags"]), ref=ref, isoval=iso, pin_cast=pin, pin_p=pin_p, p_init=pin_p, deep=float(np.max(P)), fns=fns)
    if which == "surf":
        if c["mode"] == 0:
            r["pin_cast"] = r["pin_p"] = None
        elif c["mode"] == 1:
            r["isoval"] = None
        else:
            r["ref"] = r["isoval"] = None
    what = f"{which} {r['kind']} mode {c['mode']}"
    done = []
    for i, k in c["bad"]:
        f = SETS[which][i % len(SETS[which])]
        # a mistake in an argument that the request makes no use of is none; two in the same argument may cancel
        if which == "surf" and c["mode"] == 0 and f in (m_pin_cast, m_pin_p):
            continue
        if which == "surf" and c["mode"] == 2 and f is m_ref:
            continue
        if f is m_pin_cast and which == "surf" and (m_select in done):
            continue
        if N < 3 and f in (m_edges, m_dist, m_ml) or f is m_T and f in done:
            continue
        if any(g in done for g in (f, m_vert, m_grid, m_edges, m_dist, m_nogrid, m_select, m_init_shape, m_init_type, m_init_dry)):
            continue
        f(r, k)
        done.append(f)
    if done:
        fn, a_, k_ = run(which, r)
        refused(fn, f"{what} with mistakes {[(f.__name__, k) for f, (_, k) in zip(done, c['bad'])]} (shapes {S.shape}, {T.shape})", *a_, **k_)
        ctx.label("refused")
        for f in done:
            ctx.label(f.__name__)
    else:
        fn, a_, k_ = run(which, r)
        x = call(fn, *a_, **k_)
        require(np.isfinite(np.asarray(x[2])[pin]), f"{what}: not answered at the pinning cast")
        q = dict(r)
        alt = c["alt"]
        if alt == 0:
            q["eos"] = fns if which == "omega" or c["diags"] else fns[0]
        elif alt == 1:
            q["pin_cast"] = list(pin) if q["pin_cast"] is not None else None
        elif alt == 2:
            q["P"] = np.broadcast_to(P, S.shape).copy()
        elif alt == 3:
            q["OMEGA_FORMULATION"] = "POISSON"
            q["grid"] = dict(q["grid"], dist=1.0, distperp=1.0)
        elif alt == 4:
            q["ref"] = list(ref) if isinstance(q["ref"], tuple) else q["ref"]
            q["vert_dim"] = S.ndim - 1
        else:
            q["S"], q["T"] = (xr.DataArray(X, dims=["x", "y", "z"][-S.ndim :]) for X in (S, T))
            q["vert_dim"] = "z"
        fn, a_, k_ = run(which, q)
        same(x[:3], call(fn, *a_, **k_)[:3], f"{what} respelled ({alt})")
        ctx.label("answered")
    ctx.nontrivial()


# ---------------------------------------------------------------- everything else
OTHER = ["link", "traj", "veronis", "mixed_layer", "stabilize", "errors", "norms", "make_eos", "make_eos_s_t", "make_pp", "rectilinear", "xgcm", "val_at"]


@st.composite
def other_case(draw, cfg):
    c = dict(o=draw(ocean(hdims=(1,), nmax=5, min_h=2, nk=(4, 8), masks=False, stable=True)))
    c["fn"] = draw(st.sampled_from(OTHER))
    c["k"] = draw(st.sampled_from([-1]) | I(0, 59))
    c["fr"] = draw(I(5, 95)) / 100
    c["ns"] = draw(I(0, 9999))
    return c


def other_check(c, ctx):
    S, T, P = build(c["o"])
    n, nk = S.shape
    k, fr, ns = c["k"], c["fr"], c["ns"]
    p = float(P[0, 0] + fr * (P[0, -1] - P[0, 0]))
    kw = dict(eos="jmd95", interp="linear")
    bad = k >= 0
    fn, a = None, ()
    w = k % 6
    if c["fn"] in ("link", "veronis"):
        S, T, P = S[0], T[0], P[0]
        if w == 0:
            T = T[1:]
        elif w == 1:
            P = P[1:]
        elif w == 2:
            S = S[:-1]
        elif w == 3:
            T = np.append(T, T[-1])
        elif w == 4:
            kw["interp"] = NOT_INTERP[(k // 6) % 5]
        else:
            kw["eos"] = NOT_EOS[(k // 6) % 4]
        if not bad:
            S, T, P, kw = build(c["o"])[0][0], build(c["o"])[1][0], build(c["o"])[2][0], dict(eos="jmd95", interp="linear")
        if c["fn"] == "link":
            fn, a = ntp_bottle_to_cast, (35.0, 5.0, p, S, T, P)
        else:
            fn, a = veronis, (p, S, T, P)
    elif c["fn"] in ("traj", "mixed_layer"):
        if bad:
            if w in (0, 1):
                T = wrong_shape(T, k // 6)
            elif w == 2:
                P = [P[0, 1:], P[:, 1:], np.repeat(P, 2, axis=0), np.repeat(P, 2, axis=-1)][(k // 6) % 4]
            elif w == 3:
                kw["interp"] = NOT_INTERP[(k // 6) % 5]
            elif w == 4:
                kw["eos"] = NOT_EOS[(k // 6) % 4]
            else:
                kw["vert_dim"] = "depth"
        fn, a = (neutral_trajectory, (S, T, P, p)) if c["fn"] == "traj" else (mixed_layer, (S, T, P))
    elif c["fn"] == "stabilize":
        eos = make_eos("jmd95")
        if bad:
            if w in (0, 1, 2):
                T = wrong_shape(T, k // 6)
            elif w in (3, 4):
                P = [P[0, 1:], P[:, 1:], np.repeat(P, 2, axis=0), np.repeat(P, 2, axis=-1)][(k // 6) % 4]
            else:
                eos = [None, 3.0, "nosuch"][(k // 6) % 3]
        kw = dict(verbose=False)
        fn, a = stabilize_ST, (S.copy(), T.copy(), P, eos)
    elif c["fn"] in ("errors", "norms"):
        N = n
        e1 = np.arange(N - 1)
        ed = [e1, e1 + 1]
        s, t, q = S[:, 0].copy(), T[:, 0].copy(), P[:, 0].copy()
        kw = dict(eos_s_t="jmd95")
        if bad:
            far = N + (k // 6) % 3
            if w == 0:
                ed[0] = np.append(ed[0], far)
                ed[1] = np.append(ed[1], 0)
            elif w == 1:
                ed[0] = np.append(ed[0], 0)
                ed[1] = np.append(ed[1], far)
            elif w == 2:
                t = t[1:]
            elif w == 3:
                q = np.append(q, q)[: N - 1 if k // 6 % 2 else 2 * N]
            elif w == 4:
                kw["eos_s_t"] = NOT_EOS[(k // 6) % 4]
            else:
                ed[k // 6 % 2] = np.append(ed[k // 6 % 2], 0)
        grid = {"edges": tuple(ed)}
        if bad and w == 5 and k // 12 % 2 and n > 2:
            grid = {"edges": (e1, e1 + 1), "dist": np.ones(N + 1), "distperp": np.ones(N + 1)}
        fn, a = (ntp_epsilon_errors if c["fn"] == "errors" else ntp_epsilon_errors_norms), (s, t, q, grid)
    elif c["fn"] in ("make_eos", "make_eos_s_t"):
        kw = {}
        fn, a = (make_eos if c["fn"] == "make_eos" else make_eos_s_t), ((NOT_EOS + ["gsw_", "", "jmdfwg", 1, ("gsw",)])[k % 9] if bad else ["gsw", "jmd95", "jmdfwg06"][ns % 3],)
    elif c["fn"] == "make_pp":
        kw = {}
        good = ("linear", "u", "interp", True, 1)
        j = k % 5
        wrong = [NOT_INTERP[(k // 5) % 5], ["v", "2", None, 1][(k // 5) % 4], ["coeff", "", None, "values"][(k // 5) % 4], None, [0, 3, "1", None][(k // 5) % 4]][j]
        args = list(good)
        if bad and j == 3:
            args = [["linear", "pchip"][k // 5 % 2]] + [["u", "interp", False, 1], ["1", "interp", False, 1], ["u", "coeffs", False, 1], ["u", "coeffs", True, 2]][(k // 10) % 4]
        elif bad:
            args[j] = wrong
        fn, a = make_pp, tuple(args)
    elif c["fn"] == "rectilinear":
        dims, per, kw = (n, 3), (True, False), {}
        if bad:
            if w == 0:
                per = (True,)
            elif w == 1:
                per = (True, False, True)
            elif w == 2:
                dims, per = (n, 3, 2), (True, False, False)
            elif w == 3:
                dims, per = (n,), (True,)
            else:
                kw = {["dxC", "dyC", "dyG", "dxG"][(k // 6) % 4]: np.ones([(n + 1, 3), (n, 4), (n, 3, 2)][(k // 24) % 3])}
        fn, a = rectilinear.build_grid, (dims, per)
    elif c["fn"] == "xgcm":
        fc = {"tile": {0: {"X": (None, None), "Y": (None, None)}}}
        dims, xsh, ysh, kw = ["tile", "j", "i"], "left", "left", {}
        if bad:
            if w == 0:
                dims = ["face", "j", "i"]
            elif w == 1:
                dims = ["tile", "y", "i"]
            elif w == 2:
                dims = ["tile", "j", "x"]
            elif w == 3:
                xsh = ["center", "up", "outer"][k // 6 % 3]
            elif w == 4:
                ysh = ["center", "up", "outer"][k // 6 % 3]
            else:
                kw = {["dxC", "dyC", "dyG", "dxG"][(k // 6) % 4]: np.ones((1, n + 1, n))}
        fn, a = xgcm.build_grid, (n, fc, tuple(dims), xsh, ysh)
    else:
        kw = {}
        kk = np.zeros(n, int)
        if bad:
            kk = [np.zeros((n, nk), int), np.zeros((n, 1, 1), int), np.zeros(n + 1, int), np.full(n, nk)][k % 4]
        fn, a = val_at, (S, kk)
    what = f"{c['fn']} ({k})"
    if bad:
        refused(fn, what, *a, **kw)
        ctx.label("refused " + c["fn"])
    else:
        call(fn, *a, **kw)
        ctx.label("answered " + c["fn"])
    ctx.nontrivial()


SUBS = [
    Sub("surfaces", surf_case, surf_check, [("surf", 1), ("surf", 2), ("omega", 1), ("omega", 2)], n=(300, 6000), cap=(70, 900), parts=(1, 2)),
    Sub("others", other_case, other_check, [None], n=(500, 10000), cap=(70, 900), parts=(2, 4)),
]
