"""C20: a surface depends on the physics only: not on numbering, padding, remote columns or unreachable water."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_arg, noise, ocean, ref_eos
from harness.omegaref import adjacency, component, graph, grid_of
from harness.oracle import RefCast, as_array, expect_close
from neutralocean.surface import anomaly_surf, omega_surf, potential_surf
from neutralocean.traj import ntp_bottle_to_cast

RULE = (
    "A case is an ocean, a surface in it, and a transformation that leaves the physics alone: permuting the columns (and "
    "the edges with them), reversing or reordering edges, changing other or unreachable columns, padding with missing "
    "levels at the top or bottom (with or without pressures), inserting bottles that lie on the linear interpolant, "
    "scaling all distances.  Non-trivial: the surface exists in two or more columns."
)
ASSUMPTIONS = [
    "omega: tolerance 1e-3 dbar at tight solver tolerances (the sums are reordered); start given as an array and wetting off, "
    "since wetting depends on the order of casts",
    "inserted bottles: stable casts (one root)",
]


def perm_of(ns, n):
    return np.argsort(noise(ns, (n,)), kind="stable")


def pad(X, top, bot, mode):
    """Pad levels with NaN (S, T) or with continued pressures / NaN (P)."""
    if mode == "nan":
        return np.concatenate((np.full((*X.shape[:-1], top), np.nan), X, np.full((*X.shape[:-1], bot), np.nan)), -1)
    lo = X[..., :1] - 10.0 * np.arange(top, 0, -1)
    hi = X[..., -1:] + 10.0 * np.arange(1, bot + 1)
    return np.concatenate((lo, X, hi), -1)


@st.composite
def iso_case(draw, cfg):
    o = draw(ocean(hdims=(1,), nmax=10, nk=(2, 9), stable=draw(st.booleans()), mask_max=4))
    c = dict(cfg=cfg, o=o, ns=draw(I(0, 9000)), pin=draw(I(0, 10**4)), fr=draw(F(0.0, 1.0)), top=draw(I(0, 3)), bot=draw(I(0, 3)), pmode=draw(st.sampled_from(["nan", "cont"])), ref=draw(F(0.0, 3000.0)))
    return c


def check_iso(c, ctx):
    kind, eosname, interp = c["cfg"]
    S, T, P = build(c["o"])
    N = S.shape[0]
    casts = [RefCast(S[n], T[n], P[n], interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    pm = casts[m].A + c["fr"] * (casts[m].B - casts[m].A)
    s0, t0 = (float(x) for x in casts[m].st(min(pm, casts[m].B)))
    f = ref_eos(eosname)
    if kind == "potential":
        ref, iso = c["ref"], float(f(s0, t0, c["ref"]))
        fn = potential_surf
    elif kind == "anomaly":
        ref = (34.7, 3.0)
        iso = float(f(s0, t0, pm) - f(*ref, pm))
        fn = anomaly_surf
    kw = dict(eos=eos_arg(eosname), interp=interp, ref=ref, isoval=iso, diags=False, output=False, TOL_P_SOLVER=1e-6)

    def run(S, T, P):
        return [as_array(x, S.shape[:-1], "surface") for x in call(fn, S, T, P, **kw)[:3]]

    base = run(S, T, P)
    what = f"{kind}/{eosname}/{interp}"
    # permuted columns
    q = perm_of(c["ns"], N)
    for x, y in zip(base, run(S[q], T[q], P[q])):
        expect_close(y, x[q], f"{what}: permuted columns", rtol=1e-12)
    # one column alone, and after the others are replaced
    n = int(noise(c["ns"] + 1, (1,))[0] * N)
    for x, y in zip(base, run(S[n : n + 1], T[n : n + 1], P[n : n + 1])):
        expect_close(y, x[n : n + 1], f"{what}: column {n} alone", rtol=1e-12)
    S2, T2, P2 = S.copy(), T.copy(), P.copy()
    for k in range(N):
        if k != n:
            S2[k], T2[k], P2[k] = S[(k + 1) % N] + 0.3, T[(k + 1) % N] - 0.2, P[(k + 1) % N] * 1.1
    for x, y in zip(base, run(S2, T2, P2)):
        expect_close(y[n], x[n], f"{what}: column {n} after the others changed", rtol=1e-12)
    # missing levels
    fin = np.isfinite(P).all()
    mode = c["pmode"] if fin else "nan"
    Sp, Tp = (pad(X, c["top"], c["bot"], "nan") for X in (S, T))
    for x, y in zip(base, run(Sp, Tp, pad(P, c["top"], c["bot"], mode))):
        expect_close(y, x, f"{what}: padded with {c['top']} missing levels above and {c['bot']} below ({mode})", rtol=1e-10, atol=1e-9)
    # the same for a neutral link and a trajectory
    lk = lambda S, T, P: [float(x) for x in call(ntp_bottle_to_cast, s0, t0, float(pm), S, T, P, tol_p=1e-6, eos=eos_arg(eosname) if isinstance(eos_arg(eosname), str) else eos_arg(eosname)[0], interp=interp)]
    r1, r2 = lk(S[n], T[n], P[n]), lk(Sp[n], Tp[n], pad(P, c["top"], c["bot"], mode)[n])
    expect_close(np.array(r2), np.array(r1), f"{what}: neutral link to a padded cast", rtol=1e-10, atol=1e-9)
    ctx.label(f"pad-{mode}")
    ctx.nontrivial(np.isfinite(base[2]).sum() >= 2)


@st.composite
def om_case(draw, cfg):
    o = draw(ocean(hdims=(1,), nmax=12, nk=(3, 9), stable=True, mask_max=3, min_h=3))
    g = draw(graph(kinds=("tree", "rand", "rand", "chain", "star")))
    g["s"] = [draw(st.sampled_from([1.0, 30.0])), draw(st.sampled_from([1.0, 30.0]))]
    return dict(cfg=cfg, o=o, g=g, ns=draw(I(0, 9000)), pin=draw(I(0, 10**4)), fr=draw(F(0.2, 0.8)), top=draw(I(0, 2)), bot=draw(I(0, 3)), pmode=draw(st.sampled_from(["nan", "cont"])), sc=[draw(st.sampled_from([0.25, 8.0])), draw(st.sampled_from([0.25, 8.0, 200.0]))], same=draw(st.booleans()), holes=draw(st.booleans()))


def check_om(c, ctx):
    eosname, interp = c["cfg"]
    S, T, P = build(c["o"])
    N, nk = S.shape
    casts = [RefCast(S[n], T[n], P[n], interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    m = ok[c["pin"] % len(ok)]
    pm = float(casts[m].A + c["fr"] * (casts[m].B - casts[m].A))
    grid, a, b, dist, distperp = grid_of(c["g"], (N,))
    init = pm * (1 + 0.1 * (noise(c["ns"] + 2, (N,)) - 0.5))
    if c["holes"]:
        init[noise(c["ns"] + 3, (N,)) < 0.3] = np.nan
    init[m] = pm
    kw = dict(eos=eos_arg(eosname), interp=interp, output=False, ITER_MAX=3, TOL_P_SOLVER=1e-9, TOL_LRPD_MAV=0.0, ITER_START_WETTING=np.inf)

    def run(S, T, P, a, b, d, q, pin, init, grid=None):
        s, t, p, D = call(omega_surf, S, T, P, grid or {"edges": (a, b), "dist": d, "distperp": q}, int(pin), init, **kw)
        return [as_array(x, S.shape[:-1], "omega") for x in (s, t, p)] + [np.asarray(D["e_RMS"], float)]

    base = run(S, T, P, a, b, dist, distperp, m, init)
    wetn = np.isfinite(base[2])
    if wetn.sum() < 2:
        return
    # columns close to losing the surface could go either way
    what = f"omega/{eosname}/{interp}"
    close_call = any(not np.isfinite(base[2][n]) and casts[n].ok and np.isfinite(init[n]) for n in component(adjacency(a, b, N), m, np.array([x.ok for x in casts])))
    edge = any(min(base[2][n] - casts[n].A, casts[n].B - base[2][n]) < 1e-3 * (casts[n].B - casts[n].A) for n in range(N) if wetn[n])
    if close_call or edge:
        ctx.label("outcrop")
        exact_only = True
    else:
        exact_only = False

    def cmp(y, x, why, tol=1e-3):
        for nm, u, v, tl in (("p", y[2], x[2], tol), ("s", y[0], x[0], 1e-5), ("t", y[1], x[1], 1e-4)):
            expect_close(u, v, f"{what}: {why}: {nm}", rtol=0, atol=tl)
        sc = float(np.max(np.abs(x[3]), initial=0.0))
        expect_close(y[3], x[3], f"{what}: {why}: e_RMS", rtol=1e-5, atol=1e-6 * sc + 1e-15)

    # padding and unreachable water: the computation is the same
    fin = np.isfinite(P).all()
    mode = c["pmode"] if fin else "nan"
    Sp, Tp = (pad(X, c["top"], c["bot"], "nan") for X in (S, T))
    cmp(run(Sp, Tp, pad(P, c["top"], c["bot"], mode), a, b, dist, distperp, m, init), base, f"padded levels ({mode})")
    far = lambda X: np.concatenate((X, X[:1], X[-1:]), 0)
    got = run(far(S) + 0.0, far(T), far(P), np.append(a, N), np.append(b, N + 1), np.append(dist, 1.0), np.append(distperp, 1.0), m, np.append(init, [pm, pm]))
    for i in range(3):
        require(np.isnan(got[i][N:]).all(), f"{what}: columns that cannot be reached from the pinned cast are wet")
    cmp([g[:N] for g in got[:3]] + [got[3][:0]], base[:3] + [base[3][:0]], "with an unreachable pair of columns added")
    if not exact_only:
        q = perm_of(c["ns"], N)  # new label k holds old column q[k]
        inv = np.argsort(q)
        got = run(S[q], T[q], P[q], inv[a], inv[b], dist, distperp, inv[m], init[q])
        cmp([x[inv] for x in got[:3]] + [got[3]], base, "relabelled columns")
        e = perm_of(c["ns"] + 5, len(a))
        fl = noise(c["ns"] + 6, (len(a),)) < 0.5
        got = run(S, T, P, np.where(fl, b, a)[e], np.where(fl, a, b)[e], dist[e], distperp[e], m, init)
        cmp(got, base, "reordered and reversed edges")
        # distances in the form they were drawn in (arrays, numbers, or left out: one), along and across the edges
        # scaled alike or each by its own factor: neither changes the minimiser
        k, k2 = c["sc"]
        k2 = k if c["same"] else k2
        got = run(S, T, P, a, b, None, None, m, init, {"edges": (a, b), "dist": k * grid.get("dist", 1.0), "distperp": k2 * grid.get("distperp", 1.0)})
        cmp(got[:3] + [got[3] * k], base, f"all distances scaled by {k}, {k2}")
    if interp == "linear" and nk >= 3 and not exact_only:
        # insert a bottle on the interpolant of every column
        j = 1 + int(noise(c["ns"] + 7, (1,))[0] * (nk - 1))
        w = 0.3
        ins = lambda X: np.concatenate((X[:, :j], (1 - w) * X[:, j - 1 : j] + w * X[:, j : j + 1], X[:, j:]), 1)
        S3, T3, P3 = ins(S), ins(T), ins(P)
        same = all(np.isfinite(X[:, j - 1]).all() == True and np.isfinite(X[:, j]).all() for X in (S, P))  # noqa: E712
        if same:
            cmp(run(S3, T3, P3, a, b, dist, distperp, m, init), base, "bottle inserted on the interpolant")
            ctx.label("inserted")
    ctx.nontrivial(wetn.sum() >= 2)


SUBS = [
    Sub("isopycnal", iso_case, check_iso, [["potential", "jmd95", "linear"], ["potential", "gsw", "pchip"], ["anomaly", "jmdfwg06", "linear"], ["anomaly", "gsw", "pchip"]], n=(500, 8000), cap=(60, 500)),
    Sub("omega", om_case, check_om, [["jmd95", "linear"], ["gsw", "pchip"], ["gsw", "linear"]], n=(350, 5000), cap=(70, 600)),
]
