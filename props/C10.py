"""C10: function factories (Boussinesq, vectorised, by name) are right whatever was requested before."""
import numba as nb
import numpy as np
from hypothesis import strategies as st

from harness import eosref
from harness.core import Sub, call, call_raises, require
from harness.gen import F, I, custom_eos, custom_eos_s_t, ocean, warm_surface
from neutralocean.eos import gsw, jmd95, jmdfwg06
from neutralocean.eos.tools import make_bsq, make_eos, make_eos_p, make_eos_s_t, vectorize_eos
from neutralocean.traj import ntp_bottle_to_cast
from props import C01

RULE = (
    "A case is a history of 1-24 requests to the factories (name or function; compiled or plain Python; with both, one or "
    "neither of grav and rho_c, whose values come from a small or a continuous pool or differ slightly from those of other requests, so that requests repeat and also "
    "exceed every cache), or a history of 2-6 surface computations with different equations of state, interpolants and "
    "Boussinesq constants; each result is judged on its own.  Non-trivial: at least two requests differ only in the "
    "constants or the derivative."
)
ASSUMPTIONS = ["grav > 0, rho_c > 0"]


# user functions, not compiled
def py_a(s, t, p):
    return 1000.0 + 0.7 * s - 0.2 * t - 0.004 * t * t + 0.004 * p + 1e-8 * p * p


def py_a_s_t(s, t, p):
    return 0.7 + 0 * p, -0.2 - 0.008 * t + 1e-6 * p


def py_a_p(s, t, p):
    return 0.004 + 2e-8 * p


def py_b(s, t, p):
    return 1e-3 - 7e-7 * s + 2e-7 * t - 4e-9 * p + 1e-13 * p * t


def _namesakes():
    """Other functions with the names of the ones above."""

    def py_a(s, t, p):
        return 1010.0 + 0.5 * s - 0.1 * t + 0.005 * p

    @nb.njit
    def custom_eos(s, t, p):
        return 1005.0 + 0.6 * s - 0.15 * t + 0.0045 * p - 1e-8 * t * p

    return py_a, custom_eos


py_a2, custom2 = _namesakes()


@nb.njit
def custom_p(s, t, p):
    return 4.5e-3 - 3e-5 * t + 1e-6 * s


def ref_custom_s_t(s, t, p):
    return eosref.first("custom", s, t, p)[:2]


# (object passed, reference by kind of request)
FUNS = {
    "py_a": (py_a, py_a),
    "py_a_s_t": (py_a_s_t, py_a_s_t),
    "py_a_p": (py_a_p, py_a_p),
    "py_b": (py_b, py_b),
    "py_a2": (py_a2, py_a2),
    "custom2": (custom2, custom2.py_func),
    "custom": (custom_eos, eosref.custom),
    "custom_s_t": (custom_eos_s_t, ref_custom_s_t),
    "custom_p": (custom_p, lambda s, t, p: eosref.first("custom", s, t, p)[2]),
}
# functions to vectorise (two of them called rho, two custom_eos)
VEC = [FUNS["custom"], FUNS["custom2"], (jmd95.rho, eosref.FUN["jmd95"]), (jmdfwg06.rho, eosref.FUN["jmdfwg06"]), FUNS["custom_p"], (gsw.specvol, eosref.FUN["gsw"])]
PY = ["py_a", "py_a_s_t", "py_a_p", "py_b", "py_a2"]
NAMES = ["jmd95", "jmdfwg06", "gsw"]
PAIRS = [[9.81, 1027.5], [9.81, 1035.0], [9.8, 1027.5], [1027.5, 9.81], [10.0, 1000.0]]
NEAR = [0.0, 1e-7, 1e-6, -1e-5, 1e-4, -1e-3]
PTS = [(35.0, 10.0, 1500.0), (30.0, -1.0, 4000.0), (38.0, 25.0, 10.0), (0.5, 3.0, 0.0)]


@st.composite
def op(draw):
    what = draw(st.sampled_from(["eos", "eos_s_t", "eos_p", "bsq", "vec", "bad"]))
    heavy = draw(I(0, 11)) == 0
    name = draw(st.sampled_from(NAMES + ["custom", "custom_s_t", "custom_p"])) if heavy else draw(st.sampled_from(PY + PY + NAMES))
    if name in NAMES and not heavy:
        pair = draw(st.sampled_from([[None, None], [9.81, None], [None, 1027.5]]))
    elif heavy:
        pair = draw(st.sampled_from(PAIRS[:3]))
    else:
        pair = draw(st.sampled_from(PAIRS + [[None, None], [9.81, None], [None, 1027.5]]) | st.tuples(F(0.1, 30.0), F(500.0, 1500.0)).map(list))
        if pair[0] and pair[1] and draw(I(0, 2)) == 0:  # constants that differ only slightly from others
            pair = [pair[0] * (1 + draw(st.sampled_from(NEAR))), pair[1] * (1 + draw(st.sampled_from(NEAR)))]
    if what == "vec":
        return dict(w=what, f=name, g=9.81, r=draw(st.sampled_from([1027.5, 1100.0])), v=draw(I(0, len(VEC) - 1)), h=draw(I(0, 7)) == 0)
    return dict(w=what, f=name, g=pair[0], r=pair[1], k=draw(I(0, 2)))


@st.composite
def hist(draw, cfg):
    return dict(h=draw(st.lists(op(), min_size=1, max_size=24)))


def values(out):
    return [float(v) for v in out] if isinstance(out, tuple) else [float(out)]


def check_hist(c, ctx):
    seen = set()
    nt = False
    for o in c["h"]:
        w, name, g, r = o["w"], o["f"], o["g"], o["r"]
        k = 0
        what = f"{w}({name}, {g}, {r})"
        if w == "bad":
            call_raises(make_eos, (ValueError, TypeError), ["nosuch", 3.5, None][o["k"]])
            continue
        if w == "vec":
            fn = VEC[o["v"]]
            z = 1.0
            if o["v"] < 4 and g is not None and r is not None and o["h"]:
                fn = (call(make_bsq, fn[0], g, r), fn[1])
                z = 1e-4 * g * r
            v = np.asarray(call(call(vectorize_eos, fn[0]), np.array([[35.0], [30.0]]), np.array([1.0, 20.0, 5.0]), 2000.0))
            e = fn[1](*np.broadcast_arrays(np.array([[35.0], [30.0]]), np.array([1.0, 20.0, 5.0]), 2000.0 * z))
            require(v.shape == e.shape and np.allclose(v, e, rtol=1e-12, atol=0), lambda: f"vectorize_eos of {fn[0]}: {v} instead of {e} (after {len(seen)} other requests)")
            ctx.label("req-vec")
            continue
        if name in NAMES:
            if w == "bsq":
                w = "eos"
            mk = dict(eos=make_eos, eos_s_t=make_eos_s_t, eos_p=make_eos_p)[w]
            k = 1 if w == "eos_p" else 0
            fn = call(mk, name, g, r)
            if w == "eos":
                ref = eosref.FUN[name]
            elif w == "eos_s_t":
                ref = lambda s, t, p: eosref.first(name, s, t, p)[:2]  # noqa: E731
            else:
                ref = lambda s, t, p: eosref.first(name, s, t, p)[2]  # noqa: E731
        else:
            obj, ref = FUNS[name]
            if w == "bsq":
                if g is None or r is None:
                    continue
                k = o["k"] if not name.endswith("_s_t") else 0
                fn = call(make_bsq, obj, g, r, k) if k or o["k"] == 0 else call(make_bsq, obj, g, r)
            else:
                mk = dict(eos=make_eos, eos_s_t=make_eos_s_t, eos_p=make_eos_p)[w]
                k = 1 if w == "eos_p" else 0
                if k and name.endswith("_s_t"):
                    continue
                fn = call(mk, obj, g, r)
        z2p = 1.0 if g is None or r is None else 1e-4 * g * r
        for s, t, z in PTS:
            got = values(call(fn, s, t, z))
            exp = ref(s, t, z * z2p)
            exp = [float(v) * z2p**k for v in (exp if isinstance(exp, tuple) else (exp,))]
            require(len(got) == len(exp), lambda: f"{what}: {len(got)} outputs")
            for a, b in zip(got, exp):
                require(abs(a - b) <= 2e-10 * abs(b) + 1e-22, lambda: f"{what} at {(s, t, z)}: {a!r}, expected {b!r} (after {len(seen)} other requests)")
        key = (name,)
        nt |= any(x[0] == name and x[1:] != (w, g, r, k) for x in seen)
        seen.add((name, w, g, r, k))
        ctx.label("req-" + w)
    ctx.label("len", len(c["h"]))
    ctx.nontrivial(nt)


# -- the same for whole computations
POOL = [
    ["jmd95", "linear", "potential", 1, None],
    ["jmd95", "linear", "potential", 1, [9.81, 1027.5]],
    ["jmd95", "linear", "potential", 1, [9.7, 1050.0]],
    ["jmd95", "pchip", "potential", 1, [9.81, 1027.5]],
    ["jmd95", "linear", "anomaly", 1, [9.81, 1027.5]],
    ["jmd95", "linear", "anomaly", 1, None],
    ["jmd95", "linear", "anomaly", 1, [9.81, None]],
    ["jmd95", "linear", "anomaly", 1, [None, 1027.5]],
    ["jmdfwg06", "linear", "potential", 1, None],
    ["gsw", "linear", "potential", 1, None],
    ["gsw", "pchip", "anomaly", 1, None],
    ["custom", "linear", "potential", 1, None],
    ["custom", "linear", "anomaly", 1, None],
]


@st.composite
def surfs(draw, cfg):
    n = draw(I(2, 6))
    lo, hi = cfg
    return dict(h=[draw(C01.case(POOL[draw(I(lo, hi))])) for _ in range(n)])


def check_surfs(c, ctx):
    keys = []
    for x in c["h"]:
        C01.check(x, ctx)
        keys.append(tuple(x["cfg"][:3]))
    ctx.nontrivial(len(set(keys)) > 1)


SUBS = [
    Sub("factories", hist, check_hist, [[i] for i in range(5)], n=(400, 4000), cap=(45, 500)),
    Sub("surfaces", surfs, check_surfs, [[0, 7], [3, 10], [5, 12]], n=(110, 1500), cap=(60, 600)),
]
WARM = warm_surface
