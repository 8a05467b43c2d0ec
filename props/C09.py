"""C09: the partial derivatives supplied with each equation of state are its derivatives."""
import numpy as np
from hypothesis import strategies as st

from harness import eosref
from harness.core import Sub, call, require
from harness.gen import I
from neutralocean.eos import gsw, gswc, jmd95, jmdfwg06
from neutralocean.eos.tools import make_eos_p, make_eos_s_t, vectorize_eos
from props.C08 import cloud, point

RULE = (
    "A case is a batch of points over the oceanographic range and one equation of state; every derivative function the "
    "package offers (first order for all, second and third order and the combined forms for TEOS-10) is compared with the "
    "complex-step derivative of the published formula, or with the differentiated coefficient table, and with finite "
    "differences of the package's own function.  Non-trivial: as in C08."
)
ASSUMPTIONS = ["0.001 <= S <= 42 (the formulae contain sqrt(S)), -2.5 <= T <= 40, 0 <= P <= 11000"]
MOD = dict(
    jmd95=(jmd95.rho, jmd95.rho_s_t, jmd95.rho_p),
    jmdfwg06=(jmdfwg06.rho, jmdfwg06.rho_s_t, jmdfwg06.rho_p),
    gsw=(gsw.specvol, gsw.specvol_s_t, gsw.specvol_p),
    gswc=(gswc.rho, gswc.rho_s_t, gswc.rho_p),
)
SC = dict(jmd95=(0.8, 0.3, 4.5e-3), jmdfwg06=(0.8, 0.3, 4.5e-3), gswc=(0.8, 0.3, 4.5e-3))
MULTI = {
    "specvol_first_derivs": "s t p",
    "specvol_second_derivs": "ss st tt sp tp pp",
    "specvol_third_derivs": "sss sst stt ttt ssp stp ttp spp tpp ppp",
    "specvol_s_t": "s t",
    "specvol_p": "p",
    "specvol_s_t_ss_st_tt_sp_tp": "s t ss st tt sp tp",
    "specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp": "s t ss st tt sp tp sss sst stt ttt ssp stp ttp spp tpp",
}


@st.composite
def case(draw, cfg):
    return dict(eos=cfg[0], pts=draw(st.lists(point, min_size=1, max_size=5)), ns=draw(I(0, 9000)), m=draw(I(0, 12)))


def cmp(v, ref, tol, X, what):
    v = np.asarray(v, float)
    require(v.shape == ref.shape, lambda: f"{what}: shape {v.shape}")
    bad = np.flatnonzero(~(abs(v - ref) <= tol))
    require(bad.size == 0, lambda: f"{what} at (S, T, P)={tuple(X[bad[0]])}: {v[bad[0]]!r}, expected {ref[bad[0]]!r}")


def check(c, ctx):
    name = c["eos"]
    X = cloud(c)
    X[:, 0] = np.maximum(X[:, 0], 1e-3)
    s, t, p = X.T
    f, f_s_t, f_p = MOD[name]
    ref = eosref.first(name, s, t, p)
    if name == "gsw":
        tol = [2e-14 * eosref.gsw_scale(k, s, t, p) for k in "stp"]
    else:
        tol = [2e-12 * sc + 0 * s for sc in SC[name]]
        if name == "gswc":
            tol = [1e-11 * sc + 0 * s for sc in SC[name]]
    st_ = np.array([[float(u) for u in call(f_s_t, *map(float, x))] for x in X])
    pp = np.array([float(call(f_p, *map(float, x))) for x in X])
    cmp(st_[:, 0], ref[0], tol[0], X, f"{name} S-derivative")
    cmp(st_[:, 1], ref[1], tol[1], X, f"{name} T-derivative")
    cmp(pp, ref[2], tol[2], X, f"{name} P-derivative")
    g = make_eos_s_t(name if name != "gswc" else f_s_t)
    h = make_eos_p(name if name != "gswc" else f_p)
    st2 = np.array([[float(u) for u in call(g, *map(float, x))] for x in X])
    pp2 = np.array([float(call(h, *map(float, x))) for x in X])
    cmp(st2[:, 0], ref[0], tol[0], X, f"{name} S-derivative via make_eos_s_t")
    cmp(st2[:, 1], ref[1], tol[1], X, f"{name} T-derivative via make_eos_s_t")
    cmp(pp2, ref[2], tol[2], X, f"{name} P-derivative via make_eos_p")
    # array arguments
    a, b = call(f_s_t, s, t, p)
    cmp(a, ref[0], tol[0], X, f"{name} S-derivative of arrays")
    cmp(b, ref[1], tol[1], X, f"{name} T-derivative of arrays")
    if name != "gswc":
        cmp(call(vectorize_eos(f_p), s, t, p), ref[2], tol[2], X, f"{name} vectorized P-derivative")
    # the package's own function: central differences
    k = len(X)
    for i, hstep in enumerate((1e-2, 1e-2, 5.0)):
        q = X.copy()
        q[:, i] = np.maximum(q[:, i], 2 * hstep if i != 1 else -2.5)
        lo, hi = q.copy(), q.copy()
        lo[:, i] -= hstep
        hi[:, i] += hstep
        if i == 0:
            q[:, 0] = np.maximum(q[:, 0], 5.0)
            lo[:, 0], hi[:, 0] = q[:, 0] - hstep, q[:, 0] + hstep
        d = np.array([(float(call(f, *map(float, hi[j]))) - float(call(f, *map(float, lo[j])))) / (2 * hstep) for j in range(k)])
        v = np.array([float(call(f_s_t, *map(float, q[j]))[i]) if i < 2 else float(call(f_p, *map(float, q[j]))) for j in range(k)])
        sc = (7e-7, 2e-7, 4e-9)[i] if name == "gsw" else SC["jmd95"][i]
        cmp(v, d, 2e-4 * sc, q, f"{name} derivative {'STP'[i]} against finite differences of the function")
    if name == "gsw":
        for fn, outs in MULTI.items():
            fun = getattr(gsw, fn)
            outs = outs.split()
            res = [call(fun, *map(float, x)) for x in X]
            if outs == ["p"]:
                res = [(r,) for r in res]
            for r in res:
                require(len(r) == len(outs), lambda: f"{fn} returns {len(r)} values instead of {len(outs)}")
            for j, o in enumerate(outs):
                cmp([float(r[j]) for r in res], eosref.gsw_deriv(o, s, t, p), 5e-14 * eosref.gsw_scale(o, s, t, p), X, f"{fn}: v_{o}")
    ctx.label("points", k)
    ctx.nontrivial(k > 1 or c["pts"][0][0] not in (0.0, 35.0, 42.0))


SUBS = [Sub("derivs", case, check, [[e] for e in MOD], n=(1500, 12000), cap=(60, 600), parts=(2, 2))]


def WARM():
    for e in MOD:
        check(dict(eos=e, pts=[[35.0, 1.0, 10.0]], ns=1, m=3), type("x", (), dict(label=lambda *a: 0, nontrivial=lambda *a: 0))())
