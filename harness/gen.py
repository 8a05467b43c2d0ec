"""Generators of oceans, and the deterministic builders from specs to arrays."""
import functools
import math

import numba as nb
import numpy as np
from hypothesis import strategies as st

from . import eosref


def F(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def I(lo, hi):
    return st.integers(lo, hi)


def logF(lo, hi):
    """Floats spread over orders of magnitude."""
    return F(math.log10(lo), math.log10(hi)).map(lambda e: float(f"{10.0 ** e:.6g}"))


def noise(seed, shape):
    """Deterministic noise in [0, 1): a hash of (seed, index), no RNG."""
    n = int(np.prod(shape))
    x = np.sin(np.arange(1, n + 1) * 12.9898 + (seed % 9973) * 78.233) * 43758.5453
    return (x - np.floor(x)).reshape(shape)


# ---------------------------------------------------------------- oceans
MASKS = ("land", "bottom", "top", "one", "two", "hole", "pnan", "bottop")


@st.composite
def ocean(draw, hdims=(1, 2), nmax=5, nk=(2, 10), rough=True, masks=True, stable=False, p3=True, mask_max=4, min_h=1):
    nd = draw(st.sampled_from(hdims))
    hs = [draw(I(min_h, nmax)) for _ in range(nd)]
    o = dict(hs=hs, nk=draw(I(*nk)))
    o["p0"] = draw(st.sampled_from([0.0, 5.0]) | F(0.0, 60.0))
    o["pb"] = draw(F(80.0, 6000.0))
    o["pe"] = draw(st.sampled_from([1.0, 2.0, 3.0]) | F(0.5, 3.0))
    o["pj"] = draw(st.sampled_from([0.0]) | F(0.0, 0.7))
    o["p3"] = draw(st.sampled_from([0.0]) | F(0.0, 0.3)) if p3 else 0.0
    if stable:
        o["Ss"], o["Sb"] = draw(F(33.0, 35.5)), draw(F(34.4, 35.6))
        o["Ts"], o["Tb"] = draw(F(14.0, 28.0)), draw(F(-1.5, 6.0))
        o["aS"], o["aT"] = draw(F(0.0, 0.4)), draw(F(0.0, 4.0))
        o["rS"], o["rT"] = 0.0, 0.0
        o["ab"] = draw(F(0.0, 0.2))
        o["ve"] = draw(F(0.3, 4.0))
    else:
        o["Ss"], o["Sb"] = draw(F(22.0, 38.0)), draw(F(30.0, 38.0))
        o["Ts"], o["Tb"] = draw(F(-1.0, 29.0)), draw(F(-1.5, 12.0))
        o["aS"], o["aT"] = draw(F(0.0, 2.0)), draw(F(0.0, 6.0))
        o["rS"] = draw(st.sampled_from([0.0]) | F(0.0, 1.5)) if rough else 0.0
        o["rT"] = draw(st.sampled_from([0.0]) | F(0.0, 4.0)) if rough else 0.0
        o["ab"] = draw(F(0.0, 1.0))
        o["ve"] = draw(F(0.0, 4.0))
    o["kw"] = [draw(I(0, 3)), draw(I(0, 3))]
    o["ph"] = draw(F(0.0, 6.28))
    o["ns"] = draw(I(0, 9000))
    if masks:
        m = st.tuples(I(0, 10**4), st.sampled_from(MASKS), I(0, 50), I(0, 50)).map(list)
        o["mask"] = draw(st.lists(m, max_size=mask_max))
    else:
        o["mask"] = []
    return o


def build(o, pnan=True):
    """spec -> S, T, P, all of shape (*hs, nk), P always full-dimensional."""
    hs, nk = tuple(o["hs"]), o["nk"]
    N = int(np.prod(hs))
    z = np.linspace(0.0, 1.0, nk) ** o["pe"]
    if nk > 2 and o["pj"] > 0:
        dz = np.diff(z)
        w = 1.0 + o["pj"] * (2 * noise(o["ns"] + 1, (nk - 1,)) - 1)
        z = np.concatenate(([0.0], np.cumsum(dz * w)))
        z /= z[-1]
    # keep levels apart, so interpolation is well conditioned
    z = z + np.arange(nk) * 1e-3
    z /= z[-1]
    P = o["p0"] + (o["pb"] - o["p0"]) * z
    P = np.tile(P, (N, 1))
    if o["p3"] > 0:
        P = P * (1 + o["p3"] * (noise(o["ns"] + 2, (N, 1)) - 0.5)) + 3.0 * o["p3"] * noise(o["ns"] + 3, (N, 1))
    if len(hs) == 2:
        x = (np.arange(hs[0])[:, None] + 0.5) / max(hs[0], 1) + np.zeros((1, hs[1]))
        y = (np.arange(hs[1])[None, :] + 0.5) / max(hs[1], 1) + np.zeros((hs[0], 1))
    else:
        x = ((np.arange(N) + 0.5) / N).reshape(hs)
        y = ((np.arange(N) * 7 % max(N, 1)) / N).reshape(hs)
    x, y = x.reshape(-1, 1), y.reshape(-1, 1)
    kx, ky = o["kw"]
    h1 = np.sin(2 * np.pi * (kx * x * 0.5 + ky * y * 0.37) + o["ph"]) + 0.5 * np.cos(3.1 * x + 2.3 * y + 2 * o["ph"])
    h2 = np.cos(2 * np.pi * (ky * x * 0.4 + kx * y * 0.5) + 1.7 * o["ph"]) - 0.4 * np.sin(2.7 * x - 1.9 * y)
    zn = (P - P[:, :1]) / (P[:, -1:] - P[:, :1])
    ve = o["ve"]
    prof = zn if abs(ve) < 1e-6 else (1 - np.exp(-ve * zn)) / (1 - np.exp(-ve))
    amp = 1 - (1 - o["ab"]) * zn
    S = o["Ss"] + (o["Sb"] - o["Ss"]) * prof + o["aS"] * h1 * amp * 0.6
    T = o["Ts"] + (o["Tb"] - o["Ts"]) * prof + o["aT"] * h2 * amp * 0.6
    if o["rS"] > 0:
        S = S + o["rS"] * (noise(o["ns"] + 4, (N, nk)) - 0.5)
    if o["rT"] > 0:
        T = T + o["rT"] * (noise(o["ns"] + 5, (N, nk)) - 0.5)
    S = np.clip(S, 18.0, 41.0)
    T = np.clip(T, -2.0, 33.0)
    for c, kind, a, b in o["mask"]:
        c = c % N
        a, b = a % (nk + 1), b % (nk + 1)
        if kind == "land":
            S[c, :] = np.nan
        elif kind == "bottom":
            S[c, a:] = np.nan
        elif kind == "top":
            S[c, :a] = np.nan
        elif kind == "one":
            S[c, : a % nk] = np.nan
            S[c, a % nk + 1 :] = np.nan
        elif kind == "two":
            S[c, : a % nk] = np.nan
            S[c, a % nk + 2 :] = np.nan
        elif kind == "hole":
            S[c, a % nk] = np.nan
        elif kind == "pnan" and pnan:
            P[c, a:] = np.nan
        elif kind == "bottop":
            lo, hi = min(a, b), max(a, b)
            S[c, :lo] = np.nan
            S[c, hi:] = np.nan
    T[np.isnan(S)] = np.nan
    return S.reshape(*hs, nk), T.reshape(*hs, nk), P.reshape(*hs, nk)


# ---------------------------------------------------------------- equations of state under test
@nb.njit
def custom_eos(s, t, p):
    return 1000.0 + 0.8 * (s - 35.0) - 0.15 * t - 0.005 * t * t + 4.5e-3 * p - 3e-5 * t * p + 1e-6 * s * p


@nb.njit
def custom_eos_s_t(s, t, p):
    return 0.8 + 1e-6 * p, -0.15 - 0.01 * t - 3e-5 * p


@functools.lru_cache(None)
def eos_arg(name):
    """What is passed as `eos=` for a given equation-of-state name."""
    if name == "custom":
        return (custom_eos, custom_eos_s_t)
    if name == "gswc":
        from neutralocean.eos import gswc

        return (gswc.rho, gswc.rho_s_t)
    return name


def eos_fun(name):
    """A single function, as accepted by ntp_bottle_to_cast etc."""
    a = eos_arg(name)
    return a[0] if isinstance(a, tuple) else a


EOS = ("jmd95", "jmdfwg06", "gsw", "gswc", "custom")
INTERPS = ("linear", "pchip")


def ref_eos(name, grav=None, rho_c=None):
    f = eosref.FUN[name]
    if grav is None or rho_c is None:
        return f
    z2p = 1e-4 * grav * rho_c
    return lambda s, t, z: f(s, t, z * z2p)


def ref_eos_s_t(name, grav=None, rho_c=None):
    z2p = 1.0 if grav is None or rho_c is None else 1e-4 * grav * rho_c

    def g(s, t, z):
        return eosref.first(name, s, t, np.asarray(z) * z2p)[:2]

    return g


# ---------------------------------------------------------------- JIT warm-up, shared by forked workers
def warm_surface():
    from neutralocean.surface import potential_surf

    S = np.linspace(34, 35, 6) * np.ones((2, 1))
    T = np.linspace(20, 0, 6) * np.ones((2, 1))
    P = np.linspace(0, 4000, 6) * np.ones((2, 1))
    for interp in INTERPS:
        potential_surf(S, T, P, eos=custom_eos, interp=interp, ref=0.0, isoval=1000.0, diags=False)
