"""C15: connected components and wetting of the surface's perimeter."""
import itertools

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, build, eos_fun, noise, ocean, ref_eos
from harness.omegaref import adjacency, component, distances, edges_of, graph
from harness.oracle import RefCast, check_root, must_exist, noise_of, same_point
from neutralocean.bfs import bfs_conncomp1, bfs_conncomp1_wet, bfs_conncomp1_wet_perim
from neutralocean.eos.tools import make_eos
from neutralocean.grid.graph import edges_to_csr, edges_to_graph
from neutralocean.ppinterp import make_pp
from neutralocean.traj import ntp_bottle_to_cast

RULE = (
    "A case is a graph (1-40 nodes; rectilinear, tree, chain, star, random with repeated and self edges), a mask and a "
    "root; or an ocean on such a graph with a partially wet surface, a mixed layer, a solver tolerance and a number of "
    "repetitions.  Non-trivial: the component is neither empty nor everything / at least one cast was newly wetted."
)
ASSUMPTIONS = ["the surface is finite in s, t, p at the same casts; S, T share their missing values"]


@st.composite
def comp_case(draw, cfg):
    hs = [draw(I(1, 6)), draw(I(1, 6))]
    return dict(hs=hs, g=draw(graph()), ns=draw(I(0, 9000)), f=draw(F(0.2, 1.0)), root=draw(I(0, 10**4)), bad=draw(I(0, 8)) == 0, csr=draw(st.booleans()), extra=draw(st.lists(st.tuples(I(0, 99), I(0, 99)).map(list), max_size=5)))


def csr_of(a, b, N, ordered=True):
    if ordered:
        return call(edges_to_csr, (a, b), N)
    G = call(edges_to_graph, (a, b), N)
    return G.indptr, G.indices


def check_comp(c, ctx):
    hs = tuple(c["hs"])
    N = int(np.prod(hs))
    a, b = edges_of(c["g"], hs)
    x = np.array(c["extra"], dtype=int).reshape(-1, 2) % N
    a, b = np.append(a, x[:, 0]), np.append(b, x[:, 1])
    good = noise(c["ns"], (N,)) < c["f"]
    root = c["root"] % N
    good[root] = not c["bad"]
    adj = adjacency(a, b, N)
    exp = component(adj, root, good)
    indptr, indices = csr_of(a, b, N, c["csr"])
    qu = np.asarray(call(bfs_conncomp1, indptr, indices, root, good.copy()))
    require(sorted(qu.tolist()) == exp, lambda: f"component of {root} in {N} nodes: {sorted(qu.tolist())} instead of {exp}")
    if len(qu):
        require(qu[0] == root, lambda: f"queue starts at {qu[0]}, not at the root {root}")
        sub = [[n for n in adj[m] if good[n]] for m in range(N)]
        d = distances(sub, [root])
        ds = [d[int(m)] for m in qu]
        require(all(u <= v for u, v in zip(ds, ds[1:])), "queue is not in breadth-first order")
    ctx.label("empty" if not exp else "found")
    ctx.nontrivial(0 < len(exp) < good.sum())


# ---------------------------------------------------------------- wetting
@st.composite
def wet_case(draw, cfg):
    stable = draw(I(0, 2)) > 0
    o = draw(ocean(hdims=(2,), nmax=5, nk=(2, 9), stable=stable, mask_max=5))
    c = dict(cfg=cfg, o=o, g=draw(graph()), root=draw(I(0, 10**4)), fr=draw(F(0.02, 0.98)), f=draw(st.sampled_from([0.0]) | F(0.0, 1.0)), ns=draw(I(0, 9000)))
    c["tol"] = draw(st.sampled_from([1e-4, 1e-7]))
    c["ml"] = draw(st.sampled_from(["none", "none", "const", "noise"]))
    c["mlv"] = draw(F(0.0, 1500.0))
    c["rep"] = draw(st.sampled_from(["max", "max", 0, 1, 2, 3]))
    c["csr"] = draw(st.booleans())
    return c


def check_wet(c, ctx):
    which, eosname, interp = c["cfg"]
    S, T, P = build(c["o"])
    hs = S.shape[:-1]
    N = int(np.prod(hs))
    S, T, P = (np.ascontiguousarray(X.reshape(N, -1)) for X in (S, T, P))
    casts = [RefCast(S[n], T[n], P[n], interp) for n in range(N)]
    ok = [n for n in range(N) if casts[n].ok]
    if not ok:
        return
    root = ok[c["root"] % len(ok)]
    a, b = edges_of(c["g"], hs)
    adj = adjacency(a, b, N)
    indptr, indices = csr_of(a, b, N, c["csr"])
    # a partially wet surface, at relative height fr (varying a little) in some casts
    s, t, p = (np.full(N, np.nan) for _ in range(3))
    u, v = noise(c["ns"], (N,)), noise(c["ns"] + 1, (N,))
    for n in ok:
        if n == root or u[n] < c["f"]:
            x = casts[n]
            p[n] = x.A + min(1.0, max(0.0, c["fr"] + 0.1 * (v[n] - 0.5))) * (x.B - x.A)
            p[n] = min(max(p[n], x.A), x.B)
            s[n], t[n] = x.st(p[n])
    f = ref_eos(eosname)
    eos = make_eos(eos_fun(eosname))
    ppc = make_pp(interp, kind="1", out="coeffs", nans=False)
    ml = dict(none=np.full(N, -np.inf), const=np.full(N, c["mlv"]), noise=2 * c["mlv"] * noise(c["ns"] + 2, (N,)))[c["ml"]]
    tol = c["tol"]
    delta = 2 * noise_of(eosname)
    s0, t0, p0 = s.copy(), t.copy(), p.copy()
    comp = component(adj, root, np.isfinite(p0))
    args = (s, t, p, indptr, indices, root, S, T, P, tol, eos, ppc, ml)
    if which == "wet":
        qu, nnew = call(bfs_conncomp1_wet, *args)
        qu = [int(m) for m in np.asarray(qu)]
        reps = None
    else:
        reps = np.iinfo(np.int64).max if c["rep"] == "max" else c["rep"]
        nnew = call(bfs_conncomp1_wet_perim, *args, reps)
        qu = None
    nnew = int(nnew)
    new = [n for n in range(N) if np.isfinite(p[n]) and not np.isfinite(p0[n])]
    require(nnew == len(new), lambda: f"{which}: reports {nnew} newly wet casts, there are {len(new)}")
    cset = set(comp)
    for n in range(N):
        if n in cset:
            require(p[n] == p0[n] and s[n] == s0[n] and t[n] == t0[n], lambda: f"{which}: the surface moved at cast {n}, which was wet already")
        elif n not in new:
            if which == "perim":
                require(np.isnan(p[n]), lambda: f"{which}: cast {n} is disconnected from the root but still wet")
            elif np.isfinite(p0[n]):
                require(p[n] == p0[n], lambda: f"{which}: the surface moved at cast {n}")
    wet = cset | set(new)
    if which == "wet":
        # original wet casts beyond the component may be joined through new ones
        full = component(adj, root, np.isfinite(p))
        require(sorted(qu) == full and len(set(qu)) == len(qu), lambda: f"wet: queue {sorted(qu)} is not the wet component {full}")
        require(qu[0] == root, "wet: queue does not start at the root")
        pos = {m: i for i, m in enumerate(qu)}
    else:
        full = component(adj, root, np.isfinite(p))
        require(full == sorted(n for n in range(N) if np.isfinite(p[n])), "perim: wet casts are not connected to the root")
    memo = {}

    def link(src, dst):
        """p of the neutral link from the wet cast src to the cast dst (NaN if none), and validated."""
        if (src, dst) not in memo:
            r = [float(x) for x in call(ntp_bottle_to_cast, float(s[src]), float(t[src]), float(p[src]), S[dst], T[dst], P[dst], tol_p=tol, eos=eos_fun(eosname), interp=interp)]
            x = casts[dst]
            bs, bt, bp = float(s[src]), float(t[src]), float(p[src])

            def G(q):
                ss, tt = x.st(q)
                return f(bs, bt, 0.5 * (bp + q)) - f(ss, tt, 0.5 * (bp + q))

            if np.isfinite(r[2]):
                check_root(G, r[2], x.A, x.B, tol, delta, x.X, f"link {src}->{dst}")
            else:
                require(not must_exist(G, x.A, x.B, delta), lambda: f"link {src}->{dst} exists but was not found")
            memo[src, dst] = r[2]
        return memo[src, dst]

    slack = 5 * tol + 1e-6
    for m in new:
        x = casts[m]
        require(x.ok, lambda: f"{which}: cast {m} has too few bottles, but was wetted")
        require(x.A - 1e-9 <= p[m] <= x.B + 1e-9, lambda: f"{which}: p={p[m]!r} outside cast {m}")
        same_point(x, s[m], t[m], min(max(p[m], x.A), x.B), f"{which}: newly wet cast {m}")
        require(p[m] > ml[m] - 1e-9, lambda: f"{which}: cast {m} wetted at {p[m]!r}, inside its mixed layer ({ml[m]!r})")
        if which == "wet":
            src = [n for n in set(adj[m]) if n in pos and pos[n] < pos[m]]
            L = {n: link(n, m) for n in src}
            require(any(abs(L[n] - p[m]) <= slack for n in src if np.isfinite(L[n])), lambda: f"wet: cast {m} is at {p[m]!r}, but neutral links from earlier neighbours are {L}")
            # the first neighbour in queue order whose link is clearly acceptable is the one used
            for n in sorted(src, key=pos.get):
                if np.isfinite(L[n]) and L[n] > ml[m] + slack:
                    require(any(abs(L[k] - p[m]) <= slack for k in src if pos[k] <= pos[n] and np.isfinite(L[k])), lambda: f"wet: cast {m} was reachable from {n} first")
                    break
        else:
            must, may = [], []
            for n in adj[m]:
                if n == m or n not in wet:
                    continue
                l = link(n, m)
                if not np.isfinite(l) or l < ml[m] - slack:
                    continue
                (must if n in cset and l > ml[m] + slack else may).append(l)
            require(must or may, lambda: f"perim: cast {m} was wetted without a neutral link")
            if len(may) <= 10:
                found = any(
                    abs(np.mean(must + list(sub)) - p[m]) <= slack
                    for k in range(len(may) + 1)
                    for sub in itertools.combinations(may, k)
                    if must or sub
                )
                require(found, lambda: f"perim: cast {m} is at {p[m]!r}, not the mean of its neutral links (required {must}, optional {may})")
    if which == "perim":
        d = distances([[n for n in adj[m] if n in wet] for m in range(N)], comp)
        for m in new:
            require(reps >= d[m], lambda: f"perim: cast {m} at distance {d[m]} from the wet region was wetted with n_rep={reps}")
    # completeness
    for m in range(N):
        if m in wet or not casts[m].ok or (which == "wet" and np.isfinite(p0[m])):
            continue
        if which == "wet":
            src = [n for n in set(adj[m]) if n in pos]
            for n in src:
                l = link(n, m)
                require(not (np.isfinite(l) and l > ml[m] + slack), lambda: f"wet: dry cast {m} can be linked neutrally from wet cast {n} (at {l!r})")
        elif np.isnan(p0[m]) and reps > 0:
            for n in set(adj[m]) & cset:
                l = link(n, m)
                require(not (np.isfinite(l) and l > ml[m] + slack), lambda: f"perim: dry cast {m} can be linked neutrally from wet cast {n} (at {l!r})")
            nb = [n for n in set(adj[m]) if n in wet]
            if any(d[n] < reps for n in nb):
                L = [link(n, m) for n in nb]
                require(not all(np.isfinite(l) and l > ml[m] + slack for l in L), lambda: f"perim: dry cast {m} has neutral links from all its wet neighbours {nb}")
    ctx.label("new", len(new))
    ctx.label("ml-" + c["ml"])
    ctx.label(f"rep-{c['rep']}")
    ctx.nontrivial(new)


WET = [[w, e, i] for w in ("wet", "perim") for e, i in (("jmd95", "linear"), ("gsw", "pchip"), ("custom", "linear"))]
SUBS = [
    Sub("component", comp_case, check_comp, [[0], [1]], n=(1500, 40000), cap=(40, 300)),
    Sub("wetting", wet_case, check_wet, WET, n=(600, 6000), cap=(60, 500)),
]


def WARM():
    x = np.linspace(0, 100, 6)
    from harness.gen import custom_eos

    for i in ("linear", "pchip"):
        ntp_bottle_to_cast(35.0, 5.0, 50.0, 34 + x / 100, 20 - x / 10, x, eos=custom_eos, interp=i)
    ip, ix = edges_to_csr((np.array([0]), np.array([1])), 2)
    bfs_conncomp1(ip, ix, 0, np.array([True, True]))
