"""C18: graphs of water columns convert between representations without losing, adding or moving an edge."""
import numba as nb
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from harness.core import Sub, call, call_raises, require
from harness.gen import F, I, logF, noise
from harness.oracle import as_array
from neutralocean.grid import graph as G
from neutralocean.grid.tools import divergence
from props.C16 import compare

RULE = (
    "A case is a set of edges on 1-14 nodes (with or without isolated nodes; repeated and self edges where they are "
    "meaningful) with positive distances, given as edge lists, symmetric or one-sided matrices, dense or sparse (csr, csc, "
    "coo, with explicit zeros), or a dict of matrices.  Non-trivial: at least three edges."
)
ASSUMPTIONS = ["distances are positive", "a matrix is symmetric, symmetric in structure (adjacency only), or has each edge on one side only"]


@nb.njit
def f_diff(x, y):
    return y - 2.0 * x


@nb.njit
def f_mean(x, y):
    return 0.5 * (x + y)


@nb.njit
def f_max(x, y):
    return max(x, y)


@st.composite
def case(draw, cfg):
    N = draw(I(1, 14))
    pairs = draw(st.lists(st.tuples(I(0, N - 1), I(0, N - 1)).map(list), max_size=30))
    c = dict(N=N, pairs=pairs, ns=draw(I(0, 9000)), sc=draw(logF(1e-6, 1e6)), fmt=draw(st.sampled_from(["dense", "csr", "csc", "coo", "csr0", "array"])), side=draw(st.sampled_from(["sym", "upper", "lower", "mixed", "symstruct"])), form=draw(st.sampled_from(["tuple", "array", "int32"])), giveN=draw(I(0, 2)))
    c["area"] = draw(st.sampled_from(["num", "array"]))
    c["break"] = draw(I(0, 4))
    return c


def mat(M, fmt, ns):
    if fmt == "dense":
        return M
    r, c = np.nonzero(M)
    v = M[r, c]
    if fmt == "csr0":  # explicit zeros are not edges
        N = len(M)
        k = (noise(ns + 77, (6, 2)) * N).astype(int)
        k = np.array([x for x in k.tolist() if M[x[0], x[1]] == 0], dtype=int).reshape(-1, 2)
        r, c, v = np.append(r, k[:, 0]), np.append(c, k[:, 1]), np.append(v, np.zeros(len(k)))
        order = np.lexsort((c, r))
        return sp.csr_matrix((v[order], (r[order], c[order])), shape=M.shape)
    A = sp.coo_matrix((v, (r, c)), shape=M.shape)
    return dict(csr=A.tocsr, csc=A.tocsc, coo=lambda: A, array=lambda: sp.csr_array(A))[fmt]()


def check(c, ctx):
    N, ns = c["N"], c["ns"]
    P = np.array(c["pairs"], dtype=int).reshape(-1, 2)
    a, b = P[:, 0].copy(), P[:, 1].copy()
    E = len(a)
    cvt = dict(tuple=lambda x, y: (x, y), array=lambda x, y: np.array([x, y]), int32=lambda x, y: (x.astype(np.int32), y.astype(np.int32)))[c["form"]]
    # ---- adjacency in the order given, any multigraph
    if E:
        top = int(max(a.max(), b.max())) + 1
        Nn = {0: N, 1: top, 2: N + 2}[c["giveN"]]
        kw = {} if c["giveN"] == 1 else {"N": Nn}
        indptr, indices = call(G.edges_to_csr, cvt(a, b), **kw)
        adj = [[] for _ in range(Nn)]
        for x, y in P.tolist():
            adj[x].append(y)
            adj[y].append(x)
        require(len(indptr) == Nn + 1 and indptr[0] == 0 and indptr[-1] == len(indices) == 2 * E, f"edges_to_csr: {len(indptr) - 1} nodes and {len(indices)} entries for {Nn} nodes and {E} edges")
        for m in range(Nn):
            got = list(map(int, indices[indptr[m] : indptr[m + 1]]))
            require(sorted(got) == sorted(adj[m]), lambda: f"edges_to_csr: neighbours of {m} are {got}, expected {adj[m]}")
            require(got == adj[m], lambda: f"edges_to_csr: neighbours of {m} in the order {got}, the edges give {adj[m]}")
        # ---- binary functions over edges
        vals = noise(ns, (Nn,)) * 10 - 5
        vals[noise(ns + 1, (Nn,)) < 0.2] = np.nan
        rows = max(k for k in (1, 2, 3, 4) if Nn % k == 0)  # nodes as a map
        for f in (f_diff, f_max):
            ev = as_array(call(G.graph_binary_fcn, (a, b), vals if c["form"] != "array" else vals.reshape(rows, -1), f), (E,), "graph_binary_fcn")
            want = np.array([f(vals[x], vals[y]) for x, y in P.tolist()])
            require(np.array_equal(ev, want, equal_nan=True), lambda: f"graph_binary_fcn: {ev} instead of {want}")
        whole = np.arange(Nn)[::-1] ** 2  # integers: the values on the edges need not be
        ev = np.asarray(call(G.graph_binary_fcn, (a, b), whole, f_mean))
        want = np.array([f_mean(whole[x], whole[y]) for x, y in P.tolist()])
        require(ev.shape == (E,) and np.array_equal(ev, want), lambda: f"graph_binary_fcn of integers: {ev} instead of {want}")
        # ---- divergence
        vec = noise(ns + 2, (E,)) - 0.4
        dp = c["sc"] * (0.1 + noise(ns + 3, (E,)))
        area = np.float64(2.5) if c["area"] == "num" else 0.5 + noise(ns + 4, (top,))
        dv = as_array(call(divergence, vec, (a, b), dp, area), (top,), "divergence")
        want = np.zeros(top)
        mag = np.zeros(top)
        for k, (x, y) in enumerate(P.tolist()):
            want[x] += vec[k] * dp[k]
            want[y] -= vec[k] * dp[k]
            mag[x] += abs(vec[k] * dp[k])
            mag[y] += abs(vec[k] * dp[k])
        bad = np.abs(dv - want / area) > 1e-11 * mag / area
        require(not bad.any(), lambda: f"divergence: {dv} instead of {want / area}")
        dv1 = call(divergence, vec, (a, b))
        w1 = np.bincount(a, vec, top) - np.bincount(b, vec, top)
        require(np.allclose(dv1, w1, rtol=0, atol=1e-11 * (1 + E)), lambda: f"divergence with default geometry: {dv1} instead of {w1}")
    # ---- matrices: simple graphs
    simple = sorted({(min(x, y), max(x, y)) for x, y in P.tolist() if x != y})
    n = len(simple)
    u = noise(ns + 5, (n,)) < 0.5
    ed = [(y, x) if f else (x, y) for (x, y), f in zip(simple, u)]
    dist = c["sc"] * (0.1 + noise(ns + 6, (n,)))
    perp = c["sc"] * (0.1 + noise(ns + 7, (n,)))
    if n:
        ea, eb = (np.array(x) for x in zip(*ed))
        top = int(max(ea.max(), eb.max())) + 1
        kw = {} if c["giveN"] == 1 else {"N": N}
        Nn = top if c["giveN"] == 1 else N
        for w in (None, dist, dist * np.where(noise(ns + 8, (n,)) < 0.5, -1.0, 1.0), 1 + np.arange(n)):
            A = call(G.edges_to_graph, cvt(ea, eb), weights=w, **kw)
            want = np.zeros((Nn, Nn))
            for k, (x, y) in enumerate(ed):
                want[x, y] = want[y, x] = 1 if w is None else w[k]
            require(sp.issparse(A) and A.shape == (Nn, Nn), f"edges_to_graph: shape {A.shape}, expected {(Nn, Nn)}")
            require(np.array_equal(A.toarray(), want), "edges_to_graph: wrong matrix")
            compare(call(G.build_grid, A), [(x, y, 1.0, 1.0, 0) for x, y in ed], Nn, "build_grid(edges_to_graph(edges))")
    ML, MP = np.zeros((N, N)), np.zeros((N, N))
    for k, (x, y) in enumerate(simple):
        side = c["side"]
        if side in ("sym", "symstruct"):
            put = [(x, y), (y, x)]
        elif side == "upper":
            put = [(x, y)]
        elif side == "lower":
            put = [(y, x)]
        else:
            put = [ed[k]]
        for q in put:
            ML[q], MP[q] = dist[k], perp[k]
    args = lambda M: mat(M, c["fmt"], ns)
    exp = [(x, y, dist[k], perp[k], 0) for k, (x, y) in enumerate(simple)]
    if c["side"] == "symstruct":
        skew = ML * (1 + np.triu(np.ones((N, N))))
        compare(call(G.build_grid, args(skew)), [(x, y, 1.0, 1.0, 0) for x, y in simple], N, f"build_grid({c['fmt']} {c['side']})")
    else:
        compare(call(G.build_grid, args(ML)), [(x, y, 1.0, 1.0, 0) for x, y in simple], N, f"build_grid({c['fmt']} {c['side']})")
        compare(call(G.build_grid, {"dist": args(ML), "distperp": args(MP)}), exp, N, f"build_grid(dict of {c['fmt']} {c['side']})")
        # ---- invalid requests
        if c["break"] == 1:
            call_raises(G.build_grid, (ValueError,), {"dist": args(ML)})
        if c["break"] == 2 and n >= 2:
            M2 = MP.copy()
            x, y = simple[0]
            M2[x, y] = M2[y, x] = 0
            call_raises(G.build_grid, (ValueError,), {"dist": args(ML), "distperp": args(M2)})
        if c["break"] == 3 and n >= 2:
            M2 = ML.copy()
            x, y = simple[-1]
            M2[x, y] = M2[y, x] = 0
            call_raises(G.build_grid, (ValueError,), {"dist": args(M2), "distperp": args(MP)})
        if c["break"] == 4 and n >= 1:  # as many edges in each row (or column), one of them elsewhere
            x, y = simple[ns % n]
            had = (MP != 0) | (MP.T != 0)
            for other in range(N):
                if other not in (x, y) and not had[x, other]:
                    M2 = MP.copy()
                    M2[x, other], M2[other, x] = MP[x, y], MP[y, x]
                    M2[x, y] = M2[y, x] = 0
                    call_raises(G.build_grid, (ValueError,), {"dist": args(ML), "distperp": args(M2)})
                    call_raises(G.build_grid, (ValueError,), {"dist": args(M2), "distperp": args(MP)})
    ctx.label(c["fmt"] + "-" + c["side"])
    ctx.nontrivial(n >= 3)


SUBS = [Sub("graph", case, check, [[k] for k in range(6)], n=(1500, 20000), cap=(60, 400))]
