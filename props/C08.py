"""C08: the equations of state return the published density / specific volume."""
import numpy as np
from hypothesis import strategies as st

from harness import eosref
from harness.core import Sub, call, require
from harness.gen import F, I, noise
from neutralocean.eos import gsw, gswc, jmd95, jmdfwg06
from neutralocean.eos.tools import make_eos, vectorize_eos

RULE = (
    "A case is a batch of 1-64 points over the oceanographic range (0-42 g/kg, -2.5 to 40 degC, 0-11000 dbar; corners, "
    "fresh and surface water over-sampled), as scalars, arrays or broadcastable arrays, possibly with NaN.  Non-trivial: "
    "the batch has a point off the corners of the range."
)
ASSUMPTIONS = ["0 <= S <= 42, -2.5 <= T <= 40, 0 <= P <= 11000"]
FN = dict(jmd95=jmd95.rho, jmdfwg06=jmdfwg06.rho, gsw=gsw.specvol, gswc=gswc.rho)
S_, T_, P_ = (0.0, 42.0), (-2.5, 40.0), (0.0, 11000.0)

point = st.tuples(
    st.sampled_from([0.0, 35.0, 42.0]) | F(*S_) | F(0.0, 0.1) | F(30.0, 38.0),
    st.sampled_from([-2.0, 0.0, 40.0]) | F(*T_) | F(-2.0, 5.0),
    st.sampled_from([0.0, 10000.0]) | F(*P_) | F(0.0, 20.0),
).map(list)


@st.composite
def case(draw, cfg):
    return dict(eos=cfg[0], pts=draw(st.lists(point, min_size=1, max_size=5)), ns=draw(I(0, 9000)), m=draw(I(0, 40)), shape=draw(I(0, 3)))


def cloud(c):
    m = c["m"]
    u = noise(c["ns"], (m, 3))
    A = np.array(c["pts"]).reshape(-1, 3)
    B = np.column_stack([lo + (hi - lo) * u[:, i] for i, (lo, hi) in enumerate((S_, T_, P_))])
    return np.vstack((A, B))


def scal(x):
    return float(x)


def check(c, ctx):
    name = c["eos"]
    X = cloud(c)
    s, t, p = X.T
    f = FN[name]
    ref = eosref.FUN[name](s, t, p)
    rt = 2e-14 if name != "jmdfwg06" else 5e-14
    lab = make_eos(name) if name != "gswc" else make_eos(gswc.rho)
    got = [("scalar", np.array([scal(call(f, *map(float, x))) for x in X])), ("make_eos", np.array([scal(call(lab, *map(float, x))) for x in X]))]
    if name != "gswc":
        got.append(("array", np.asarray(call(f, s, t, p))))
    vec = vectorize_eos(f)
    got.append(("vectorized", np.asarray(call(vec, s, t, p))))
    for nm, v in got:
        require(v.shape == ref.shape, lambda: f"{name} {nm}: shape {v.shape}")
        bad = np.flatnonzero(~(abs(v - ref) <= rt * abs(ref)))
        require(bad.size == 0, lambda: f"{name} {nm} at (S, T, P)={tuple(X[bad[0]])}: {v[bad[0]]!r}, published formula gives {ref[bad[0]]!r}")
    # broadcasting of the vectorised form
    if c["shape"]:
        a = {1: (s[:, None], t[None, :3], 500.0), 2: (35.0, t, p), 3: (s[:, None, None], t[:2, None], p[:2])}[c["shape"]]
        v = np.asarray(call(vec, *a))
        e = eosref.FUN[name](*np.broadcast_arrays(*a))
        require(v.shape == e.shape and np.all(abs(v - e) <= rt * abs(e)), lambda: f"{name} vectorized: broadcasting {[np.shape(x) for x in a]} is wrong")
    for i in range(3):
        y = [35.0, 10.0, 1000.0]
        y[i] = float("nan")
        require(np.isnan(scal(call(f, *y))), lambda: f"{name}{tuple(y)} is not NaN")
    ctx.label("points", len(X))
    corner = np.isin(s, (0.0, 35.0, 42.0)) & np.isin(t, (-2.0, 0.0, 40.0)) & np.isin(p, (0.0, 10000.0))
    ctx.nontrivial(not corner.all())


CONF = [[e] for e in FN]
SUBS = [Sub("value", case, check, CONF, n=(3000, 30000), cap=(60, 600), parts=(2, 2))]


def WARM():
    for e in FN:
        check(dict(eos=e, pts=[[35.0, 1.0, 10.0]], ns=1, m=3, shape=3), type("x", (), dict(label=lambda *a: 0, nontrivial=lambda *a: 0))())
