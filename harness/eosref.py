"""Independent reference equations of state.

Written from the published formulae (Jackett & McDougall 1995 in its original
bar-pressure coefficient form; Jackett et al 2006 as a plain rational function;
Roquet et al 2015 / TEOS-10 75-term polynomial as a coefficient table), not
from the optimised code under test.  Derivatives come from the complex-step
method (jmd95, jmdfwg06) or from differentiating the coefficient table (gsw).
The TEOS-10 table is itself checked at import against the GSW C library.
"""
import numpy as np

# ---------------------------------------------------------------- jmd95
_FW = (999.842594, 6.793952e-02, -9.095290e-03, 1.001685e-04, -1.120083e-06, 6.536332e-09)
_SW = (8.244930e-01, -4.089900e-03, 7.643800e-05, -8.246700e-07, 5.387500e-09)
_SW15 = (-5.724660e-03, 1.022700e-04, -1.654600e-06)
_SW2 = 4.831400e-04
_KFW = (1.965933e04, 1.444304e02, -1.706103e00, 9.648704e-03, -4.190253e-05)
_KSW = (5.284855e01, -3.101089e-01, 6.283263e-03, -5.084188e-05)
_KSW15 = (3.886640e-01, 9.085835e-03, -4.619924e-04)
_KP = (3.186519e00, 2.212276e-02, -2.984642e-04, 1.956415e-06)
_KPS = (6.704388e-03, -1.847318e-04, 2.059331e-07)
_KPS15 = 1.480266e-04
_KP2 = (2.102898e-04, -1.202016e-05, 1.394680e-07)
_KP2S = (-2.040237e-06, 6.128773e-08, 6.207323e-10)


def _poly(c, t):
    y = 0.0
    for i, a in enumerate(c):
        y = y + a * t**i
    return y


def jmd95(s, t, p):
    pb = 0.1 * p  # dbar -> bar
    s15 = s * np.sqrt(s)
    r0 = _poly(_FW, t) + s * _poly(_SW, t) + s15 * _poly(_SW15, t) + _SW2 * s * s
    K = (
        _poly(_KFW, t)
        + s * _poly(_KSW, t)
        + s15 * _poly(_KSW15, t)
        + pb * (_poly(_KP, t) + s * _poly(_KPS, t) + _KPS15 * s15)
        + pb * pb * (_poly(_KP2, t) + s * _poly(_KP2S, t))
    )
    return r0 / (1.0 - pb / K)


# ---------------------------------------------------------------- jmdfwg06
def jmdfwg06(s, t, p):
    num = (
        9.9984085444849347e02 + 7.3471625860981584e00 * t - 5.3211231792841769e-02 * t**2
        + 3.6492439109814549e-04 * t**3 + 2.5880571023991390e00 * s - 6.7168282786692355e-03 * s * t
        + 1.9203202055760151e-03 * s**2 + 1.1798263740430364e-02 * p + 9.8920219266399117e-08 * p * t**2
        + 4.6996642771754730e-06 * p * s - 2.5862187075154352e-08 * p**2 - 3.2921414007960662e-12 * p**2 * t**2
    )
    s15 = s * np.sqrt(s)
    den = (
        1.0 + 7.2815210113327091e-03 * t - 4.4787265461983921e-05 * t**2 + 3.3851002965802430e-07 * t**3
        + 1.3651202389758572e-10 * t**4 + 1.7632126669040377e-03 * s - 8.8066583251206474e-06 * s * t
        - 1.8832689434804897e-10 * s * t**3 + 5.7463776745432097e-06 * s15 + 1.4716275472242334e-09 * s15 * t**2
        + 6.7103246285651894e-06 * p - 2.4461698007024582e-17 * p**2 * t**3 - 9.1534417604289062e-18 * p**3 * t
    )
    return num / den


# ---------------------------------------------------------------- TEOS-10, 75 terms
V = {
    (0, 0, 0): 1.0769995862e-3,
    (0, 0, 1): -6.0799143809e-5,
    (0, 0, 2): 9.9856169219e-6,
    (0, 0, 3): -1.1309361437e-6,
    (0, 0, 4): 1.0531153080e-7,
    (0, 0, 5): -1.2647261286e-8,
    (0, 0, 6): 1.9613503930e-9,
    (0, 1, 0): -1.5649734675e-5,
    (0, 1, 1): 1.8505765429e-5,
    (0, 1, 2): -1.1736386731e-6,
    (0, 1, 3): -3.6527006553e-7,
    (0, 1, 4): 3.1454099902e-7,
    (0, 2, 0): 2.7762106484e-5,
    (0, 2, 1): -1.1716606853e-5,
    (0, 2, 2): 2.1305028740e-6,
    (0, 2, 3): 2.8695905159e-7,
    (0, 3, 0): -1.6521159259e-5,
    (0, 3, 1): 7.9279656173e-6,
    (0, 3, 2): -4.6132540037e-7,
    (0, 4, 0): 6.9111322702e-6,
    (0, 4, 1): -3.4102187482e-6,
    (0, 4, 2): -6.3352916514e-8,
    (0, 5, 0): -8.0539615540e-7,
    (0, 5, 1): 5.0736766814e-7,
    (0, 6, 0): 2.0543094268e-7,
    (1, 0, 0): -3.1038981976e-4,
    (1, 0, 1): 2.4262468747e-5,
    (1, 0, 2): -5.8484432984e-7,
    (1, 0, 3): 3.6310188515e-7,
    (1, 0, 4): -1.1147125423e-7,
    (1, 1, 0): 3.5009599764e-5,
    (1, 1, 1): -9.5677088156e-6,
    (1, 1, 2): -5.5699154557e-6,
    (1, 1, 3): -2.7295696237e-7,
    (1, 2, 0): -3.7435842344e-5,
    (1, 2, 1): -2.3678308361e-7,
    (1, 2, 2): 3.9137387080e-7,
    (1, 3, 0): 2.4141479483e-5,
    (1, 3, 1): -3.4558773655e-6,
    (1, 3, 2): 7.7618888092e-9,
    (1, 4, 0): -8.7595873154e-6,
    (1, 4, 1): 1.2956717783e-6,
    (1, 5, 0): -3.3052758900e-7,
    (2, 0, 0): 6.6928067038e-4,
    (2, 0, 1): -3.4792460974e-5,
    (2, 0, 2): -4.8122251597e-6,
    (2, 0, 3): 1.6746303780e-8,
    (2, 1, 0): -4.3592678561e-5,
    (2, 1, 1): 1.1100834765e-5,
    (2, 1, 2): 5.4620748834e-6,
    (2, 2, 0): 3.5907822760e-5,
    (2, 2, 1): 2.9283346295e-6,
    (2, 2, 2): -6.5731104067e-7,
    (2, 3, 0): -1.4353633048e-5,
    (2, 3, 1): 3.1655306078e-7,
    (2, 4, 0): 4.3703680598e-6,
    (3, 0, 0): -8.5047933937e-4,
    (3, 0, 1): 3.7470777305e-5,
    (3, 0, 2): 4.9263106998e-6,
    (3, 1, 0): 3.4532461828e-5,
    (3, 1, 1): -9.8447117844e-6,
    (3, 1, 2): -1.3544185627e-6,
    (3, 2, 0): -1.8698584187e-5,
    (3, 2, 1): -4.8826139200e-7,
    (3, 3, 0): 2.2863324556e-6,
    (4, 0, 0): 5.8086069943e-4,
    (4, 0, 1): -1.7322218612e-5,
    (4, 0, 2): -1.7811974727e-6,
    (4, 1, 0): -1.1959409788e-5,
    (4, 1, 1): 2.5909225260e-6,
    (4, 2, 0): 3.8595339244e-6,
    (5, 0, 0): -2.1092370507e-4,
    (5, 0, 1): 3.0927427253e-6,
    (5, 1, 0): 1.3864594581e-6,
    (6, 0, 0): 3.1932457305e-5,
}
TFAC, PFAC, SFAC, OFFSET = 0.025, 1e-4, 0.0248826675584615, 5.971840214030754e-1


def _tab(d):
    n = len(d)
    ijk = np.array(list(d)).reshape(n, 3)
    return ijk[:, 0], ijk[:, 1], ijk[:, 2], np.array(list(d.values()))


def _dx(d):  # d/dSA acts as (sfac / (2 x)) d/dx; exponents of x may go negative
    out = {}
    for (i, j, k), c in d.items():
        if i != 0:
            out[(i - 2, j, k)] = out.get((i - 2, j, k), 0.0) + c * i * SFAC / 2
    return out


def _dy(d):
    return {(i, j - 1, k): c * j * TFAC for (i, j, k), c in d.items() if j}


def _dz(d):
    return {(i, j, k - 1): c * k * PFAC for (i, j, k), c in d.items() if k}


_cache = {}


def _table(which):
    """which: a string of 's', 't', 'p' -- the derivatives taken."""
    which = "".join(sorted(which))
    if which not in _cache:
        d = V
        for ch in which:
            d = {"s": _dx, "t": _dy, "p": _dz}[ch](d)
        _cache[which] = _tab(d)
    return _cache[which]


def gsw_deriv(which, SA, CT, p):
    SA, CT, p = np.broadcast_arrays(np.asarray(SA, float), np.asarray(CT, float), np.asarray(p, float))
    x = np.sqrt(SFAC * np.maximum(SA, 0.0) + OFFSET)
    y, z = CT * TFAC, p * PFAC
    i, j, k, c = _table(which)
    terms = c * x[..., None] ** i.astype(float) * y[..., None] ** j * z[..., None] ** k
    return terms.sum(-1)


def gsw_scale(which, SA, CT, p):
    """Sum of absolute values of the terms: what round-off is relative to."""
    SA, CT, p = np.broadcast_arrays(np.asarray(SA, float), np.asarray(CT, float), np.asarray(p, float))
    x = np.sqrt(SFAC * np.maximum(SA, 0.0) + OFFSET)
    y, z = CT * TFAC, p * PFAC
    i, j, k, c = _table(which)
    return np.abs(c * x[..., None] ** i.astype(float) * y[..., None] ** j * z[..., None] ** k).sum(-1)


def gsw(SA, CT, p):
    return gsw_deriv("", SA, CT, p)


def gsw_rho(SA, CT, p):
    return 1.0 / gsw(SA, CT, p)


# ---------------------------------------------------------------- first derivatives
def cstep(f, s, t, p):
    """(f_s, f_t, f_p) by the complex-step method (exact to round-off)."""
    h = 1e-30
    s, t, p = (np.asarray(v, float) for v in (s, t, p))
    return (
        np.imag(f(s + 1j * h, t, p)) / h,
        np.imag(f(s, t + 1j * h, p)) / h,
        np.imag(f(s, t, p + 1j * h)) / h,
    )


def first(name, s, t, p):
    if name == "gsw":
        return tuple(gsw_deriv(c, s, t, p) for c in "stp")
    if name == "gswc":
        v = gsw(s, t, p)
        return tuple(-gsw_deriv(c, s, t, p) / v**2 for c in "stp")
    return cstep(FUN[name], s, t, p)


# A smooth, cheap, strongly nonlinear equation of state used as a user-supplied function.
def custom(s, t, p):
    return 1000.0 + 0.8 * (s - 35.0) - 0.15 * t - 0.005 * t * t + 4.5e-3 * p - 3e-5 * t * p + 1e-6 * s * p


FUN = {"jmd95": jmd95, "jmdfwg06": jmdfwg06, "gsw": gsw, "gswc": gsw_rho, "custom": custom}
# typical magnitude of the returned quantity
MAG = {"jmd95": 1000.0, "jmdfwg06": 1000.0, "gsw": 1e-3, "gswc": 1000.0, "custom": 1000.0}


def _selfcheck():
    import gsw as G

    S, T, P = np.meshgrid(np.linspace(0, 42, 8), np.linspace(-2, 40, 8), np.linspace(0, 10000, 8))
    if not np.allclose(gsw(S, T, P), G.specvol(S, T, P), rtol=1e-14, atol=0):
        raise RuntimeError("reference TEOS-10 table disagrees with the GSW library")
    if abs(jmd95(35.5, 3.0, 3000.0) - 1041.83267) > 5.1e-6:
        raise RuntimeError("reference jmd95 misses its published check value")
    if abs(jmdfwg06(40.0, 12.0, 8000.0) - 1062.95279820631) > 1e-10:
        raise RuntimeError("reference jmdfwg06 misses its published check value")


_selfcheck()
