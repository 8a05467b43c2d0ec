"""Graphs of water columns, and the reference for one omega iteration."""
import numpy as np
from hypothesis import strategies as st

from .gen import F, I, logF, noise


@st.composite
def graph(draw, kinds=("rect", "rect", "tree", "chain", "rand", "star", "hub", "dense")):
    g = dict(k=draw(st.sampled_from(kinds)), ns=draw(I(0, 9000)), w=[draw(I(0, 1)), draw(I(0, 1))], x=draw(I(0, 6)))
    g["d"] = draw(st.sampled_from(["none", "array", "array", "scalar"]))
    g["p"] = draw(st.sampled_from(["none", "array", "array", "scalar"]))
    g["s"] = [draw(st.sampled_from([1.0, 1e5]) | logF(1e-2, 1e5)), draw(st.sampled_from([1.0, 1e5]) | logF(1e-2, 1e5))]
    g["v"] = draw(F(0.0, 0.9))
    return g


def edges_of(g, hs):
    """-> (a, b) arrays; nodes are linear (C order) indices of the horizontal shape hs."""
    N = int(np.prod(hs))
    k, ns = g["k"], g["ns"]
    a, b = [], []
    if k == "rect" and len(hs) == 2:
        ni, nj = hs
        for i in range(ni):
            for j in range(nj):
                if i > 0 or (g["w"][0] and ni > 2):
                    a.append(i * nj + j)
                    b.append((i - 1) % ni * nj + j)
        for i in range(ni):
            for j in range(nj):
                if j > 0 or (g["w"][1] and nj > 2):
                    a.append(i * nj + j)
                    b.append(i * nj + (j - 1) % nj)
    elif k == "star":
        a, b = [0] * (N - 1), list(range(1, N))
    elif k in ("hub", "dense"):  # nodes with many neighbours
        h = int(noise(ns, (1,))[0] * N) % N if N else 0
        u = noise(ns + 1, (N, N))
        for x in range(N):
            for y in range(x):
                near = x == y + 1 and u[x, y] < 0.8
                if (x == h or y == h) if k == "hub" else u[x, y] < 0.6:
                    near = True
                if near:
                    a.append(x)
                    b.append(y)
    elif k == "tree" or k == "rand":
        u = noise(ns, (N,))
        for n in range(1, N):
            a.append(n)
            b.append(int(u[n] * n))
        if k == "rand":
            v = noise(ns + 1, (g["x"], 2))
            have = {(min(x, y), max(x, y)) for x, y in zip(a, b)}
            for x, y in v:
                e = (int(x * N), int(y * N))
                e = (min(e), max(e))
                if e[0] != e[1] and e not in have:
                    have.add(e)
                    a.append(e[0])
                    b.append(e[1])
    else:  # chain
        a, b = list(range(N - 1)), list(range(1, N))
        if g["w"][0] and N > 2:
            a.append(N - 1)
            b.append(0)
    a, b = np.array(a, dtype=int), np.array(b, dtype=int)
    flip = noise(ns + 2, (len(a),)) < 0.5 if g["x"] % 2 else np.zeros(len(a), bool)
    a, b = np.where(flip, b, a), np.where(flip, a, b)
    return a, b


def grid_of(g, hs):
    a, b = edges_of(g, hs)
    E = len(a)
    grid = {"edges": (a, b)}
    out = []
    for key, kind, sc, q in (("dist", g["d"], g["s"][0], 3), ("distperp", g["p"], g["s"][1], 4)):
        v = sc * (1 + g["v"] * (2 * noise(g["ns"] + q, (E,)) - 1))
        if kind == "array":
            grid[key] = v
        elif kind == "scalar":
            grid[key] = sc
            v = np.full(E, sc)
        else:
            v = np.ones(E)
        out.append(v)
    return grid, a, b, out[0], out[1]


def adjacency(a, b, N):
    adj = [[] for _ in range(N)]
    for x, y in zip(a, b):
        adj[int(x)].append(int(y))
        adj[int(y)].append(int(x))
    return adj


def component(adj, root, good):
    if not good[root]:
        return []
    seen, st_ = {root}, [root]
    while st_:
        m = st_.pop()
        for n in adj[m]:
            if good[n] and n not in seen:
                seen.add(n)
                st_.append(n)
    return sorted(seen)


def distances(adj, roots):
    d = {r: 0 for r in roots}
    q = list(roots)
    for m in q:
        for n in adj[m]:
            if n not in d:
                d[n] = d[m] + 1
                q.append(n)
    return d


def lsq_phi(s, t, p, a, b, dist, distperp, comp, pin, eos_s_t):
    """Minimise sum_e (distperp/dist) (eps_e + phi_b - phi_a)^2 with phi = 0 at pin, over the component."""
    N = len(p)
    phi = np.full(N, np.nan)
    idx = {n: i for i, n in enumerate(comp)}
    ge = [i for i in range(len(a)) if int(a[i]) in idx and int(b[i]) in idx]
    phi[pin] = 0.0
    if len(comp) <= 1:
        return phi, 0.0
    ga, gb = a[ge], b[ge]
    rs, rt = eos_s_t(0.5 * (s[ga] + s[gb]), 0.5 * (t[ga] + t[gb]), 0.5 * (p[ga] + p[gb]))
    e = rs * (s[gb] - s[ga]) + rt * (t[gb] - t[ga])
    w = np.sqrt(distperp[ge] / dist[ge])
    M = np.zeros((len(ge), len(comp)))
    for r, (x, y) in enumerate(zip(ga, gb)):
        M[r, idx[int(y)]] += w[r]
        M[r, idx[int(x)]] -= w[r]
    cols = [i for n, i in idx.items() if n != pin]
    sol = np.linalg.lstsq(M[:, cols], -e * w, rcond=None)[0]
    phi[comp] = 0.0
    phi[[n for n in comp if n != pin]] = sol
    cond = np.linalg.cond(M[:, cols]) if len(cols) else 1.0
    return phi, float(np.max(np.abs(e), initial=0.0)) * max(1.0, cond)
