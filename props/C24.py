"""C24: no computation reads or writes outside its arrays (runs with numba's bounds checking on; see run.py)."""
import os

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, Violation, call, require
from harness.gen import F, I, build, eos_arg, eos_fun, noise, ocean
from harness.omegaref import edges_of, graph
from harness.ppref import site, sites, table, xy
from neutralocean.bfs import bfs_conncomp1
from neutralocean.grid.graph import edges_to_csr
from neutralocean.label import veronis
from neutralocean.lib import aggsum, find_first_nan, take_fill, val_at
from neutralocean.mixed_layer import mixed_layer
from neutralocean.ppinterp import make_pp, ppval, ppval_1, ppval_1_two, ppval_two, valid_range, valid_range_1
from neutralocean.surface import potential_surf
from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
from props import C01, C04, C06, C07, C12, C15, C21, C22, C23

assert os.environ.get("NUMBA_BOUNDSCHECK") == "1"

RULE = (
    "(a) The generated cases of C01, C04, C06, C07, C12, C15, C21, C22 and C23 (hostile shapes: one or two bottles, all or "
    "partly missing, sites outside, empty and disconnected graphs) are run with every array index of the compiled code "
    "checked; (b) the one-dimensional and universal routines get arrays cut out of larger buffers, once surrounded by NaN "
    "and once by large numbers: results must be identical and the surroundings untouched.  Non-trivial: as in those "
    "properties / a finite result."
)
ASSUMPTIONS = ["negative indices that wrap around within an array are not out of bounds (their effect on values is left to the other properties)"]


def cause_is_index(v):
    e = v
    while e is not None:
        if isinstance(e, IndexError):
            return True
        e = e.__cause__ or e.__context__
    return "IndexError" in str(v)


def borrow(check):
    def f(spec, ctx):
        try:
            check(spec, ctx)
        except Violation as v:
            if cause_is_index(v):
                raise Violation(f"access outside an array: {v}") from v
            ctx.label("other")  # the business of the property it was borrowed from

    return f


class Guarded:
    """Arrays cut from buffers filled with a poison value."""

    def __init__(self, poison):
        self.poison, self.made = poison, []

    def __call__(self, a, pad=3):
        a = np.asarray(a)
        if a.dtype.kind == "f":
            v = self.poison
        else:
            v = {True: 0, False: 1}[np.isnan(self.poison)]
        big = np.full(a.shape[:-1] + (a.shape[-1] + 2 * pad,), v, a.dtype)
        big[..., pad : pad + a.shape[-1]] = a
        self.made.append((big, pad, a.copy()))
        return big[..., pad : pad + a.shape[-1]]

    def intact(self, what):
        for big, pad, a in self.made:
            n = a.shape[-1]
            g = np.concatenate((big[..., :pad], big[..., pad + n :]), -1)
            v = self.poison if a.dtype.kind == "f" else {True: 0, False: 1}[np.isnan(self.poison)]
            require(np.all(np.isnan(g)) if (a.dtype.kind == "f" and np.isnan(v)) else np.all(g == v), f"{what}: wrote outside an argument")


@st.composite
def case(draw, cfg):
    o = draw(ocean(hdims=(1,), nmax=3, nk=(2, 8), mask_max=3))
    return dict(cfg=cfg, o=o, t=draw(table(nmax=7)), x=draw(sites(3)), d=draw(I(0, 3)), fr=draw(F(0.0, 1.0)), fr2=draw(F(0.0, 1.0)), ns=draw(I(0, 9000)), g=draw(graph()), f=draw(F(0.2, 1.0)))


def check(c, ctx):
    it, eosname = c["cfg"]
    X, Y = xy(c["t"])
    Z = np.where(np.isnan(Y), np.nan, 1.0 - 0.5 * Y)
    S, T, P = build(c["o"])
    N, nk = S.shape
    q = [np.isfinite(S[n]) & np.isfinite(P[n]) for n in range(N)]
    n0 = max(range(N), key=lambda n: q[n].sum())
    pv = P[n0][q[n0]]
    p0 = float(pv[0] + c["fr"] * (pv[-1] - pv[0])) if pv.size else 100.0
    p1 = float(pv[0] + c["fr2"] * (pv[-1] - pv[0])) if pv.size else 200.0
    a, b = edges_of(c["g"], (N, 2))
    indptr, indices = edges_to_csr((a, b), 2 * N)
    good = noise(c["ns"], (2 * N,)) < c["f"]
    good[0] = True
    idx = (noise(c["ns"] + 1, (nk,)) * (nk + 1)).astype(int) - 1
    i1, i1b = make_pp(it, "1", "interp"), make_pp(it, "1", "interp", num_dep_vars=2)
    iu, iub = make_pp(it, "u", "interp"), make_pp(it, "u", "interp", num_dep_vars=2)
    c1, cu = make_pp(it, "1", "coeffs"), make_pp(it, "u", "coeffs")
    outs = []
    for poison in (np.nan, 1e6):
        G = Guarded(poison)
        res = []

        def put(nm, r):
            for k, v in enumerate(r if isinstance(r, tuple) else (r,)):
                res.append((f"{nm}[{k}]", np.array(v)))

        x_, y_, z_ = G(X), G(Y), G(Z)
        C, D = call(c1, x_, y_), call(c1, x_, z_)
        put("coeffs_1", (C, D))
        put("coeffs", call(cu, x_, y_))
        put("valid_range_1", call(valid_range_1, y_))
        put("valid_range", call(valid_range, y_))
        for s in c["x"]:
            v, d = site(s, X, Y), c["d"]
            put("interp_1", call(i1, v, x_, y_, d))
            put("interp_1_two", call(i1b, v, x_, y_, z_, d))
            put("interp", call(iu, v, x_, y_, d))
            put("interp_two", call(iub, v, x_, y_, z_, d))
            put("ppval_1", call(ppval_1, v, x_, C, d))
            put("ppval_1_two", call(ppval_1_two, v, x_, C, D, d))
            put("ppval", call(ppval, v, x_, C, d))
            put("ppval_two", call(ppval_two, v, x_, C, D, d))
        s_, t_, p_ = G(S), G(T), G(P)
        put("link", call(ntp_bottle_to_cast, 35.0, 6.0, p0, s_[n0], t_[n0], p_[n0], eos=eos_fun(eosname), interp=it))
        put("trajectory", call(neutral_trajectory, s_[n0:], t_[n0:], p_[n0:], p0, eos=eos_fun(eosname), interp=it, vert_dim=-1))
        if q[n0].all():
            put("veronis", call(veronis, p1, s_[n0], t_[n0], p_[n0], p0=p0, dp=30.0, eos=eos_arg(eosname), interp=it))
        put("mixed_layer", call(mixed_layer, s_, t_, p_, eos=eos_fun(eosname), interp=it))
        put("potential_surf", tuple(call(potential_surf, s_, t_, p_, eos=eos_fun(eosname), interp=it, ref=0.0, isoval=1027.0, diags=False, output=False)[:3]))
        put("find_first_nan", call(find_first_nan, s_))
        put("val_at", call(val_at, s_, np.minimum(call(find_first_nan, s_), nk) - 1))
        put("take_fill", call(take_fill, G(P[n0]), G(idx)))
        put("aggsum", call(aggsum, G(np.arange(float(nk))), G(idx), nk))
        put("bfs", call(bfs_conncomp1, G(indptr), G(indices), 0, G(good)))
        G.intact(f"{it}/{eosname}")
        outs.append(res)
    fin = 0
    for (nm, u), (_, v) in zip(*outs):
        require(u.shape == v.shape and np.array_equal(u, v, equal_nan=u.dtype.kind == "f"), lambda: f"{it} {nm}: the result depends on memory outside the arguments: {u} or {v}")
        fin += int(u.dtype.kind == "f" and np.isfinite(u).any())
    ctx.nontrivial(fin > 0)


SUBS = [
    Sub("poison", case, check, [["linear", "custom"], ["pchip", "custom"]], n=(400, 5000), cap=(60, 400)),
    Sub("omega", C12.case, borrow(C12.check), [["custom", "linear", 2], ["custom", "pchip", 1]], n=(300, 5000), cap=(60, 500)),
    Sub("surface", C01.case, borrow(C01.check), [c for c in C01.CONFIGS if "custom" in map(str, c)][:2] or C01.CONFIGS[:2], n=(200, 4000), cap=(50, 400)),
    Sub("chain", C04.case, borrow(C04.check), C04.CONFIGS[:1], n=(300, 5000), cap=(50, 400)),
    Sub("interp", C06.case, borrow(C06.check), [["linear"], ["pchip"]], n=(1200, 20000), cap=(50, 400)),
    Sub("multi", C07.multi, borrow(C07.check_multi), [["linear"], ["pchip"]], n=(300, 5000), cap=(50, 400)),
    Sub("wetting", C15.wet_case, borrow(C15.check_wet), C15.WET[:4], n=(250, 4000), cap=(50, 400)),
    Sub("layer", C21.case, borrow(C21.check), [["custom", "linear", 1, None]], n=(300, 4000), cap=(50, 400)),
    Sub("veronis", C22.case, borrow(C22.check), [["custom", "pchip", None], ["custom", "linear", None]], n=(400, 6000), cap=(50, 400)),
    Sub("stabilize", C23.case, borrow(C23.check), [["jmd95", None]], n=(40, 800), cap=(50, 400)),
]
