"""Reference models and validity predicates shared by the properties."""
import numpy as np
from scipy.interpolate import PchipInterpolator

from . import eosref
from .core import Violation, require

EPS = np.finfo(float).eps


def valid_block(*arrs):
    """First contiguous block [k, K) where all arrays are finite (plain reading of the documentation)."""
    ok = np.all([np.isfinite(a) for a in arrs], axis=0)
    n = len(ok)
    k = 0
    while k < n and not ok[k]:
        k += 1
    K = k
    while K < n and ok[K]:
        K += 1
    return k, K


class RefCast:
    """The interpolated water column: S(p), T(p) on [A, B]."""

    def __init__(self, S, T, P, interp):
        k, K = valid_block(S, P)
        self.n = K - k
        self.ok = self.n >= 2
        if not self.ok:
            return
        self.X, self.S, self.T = P[k:K], S[k:K], T[k:K]
        self.A, self.B = float(self.X[0]), float(self.X[-1])
        self.interp = interp
        if interp == "pchip" and self.n > 2:
            f, g = PchipInterpolator(self.X, self.S), PchipInterpolator(self.X, self.T)
            self._f, self._g = f, g
        else:
            self._f = lambda x: np.interp(x, self.X, self.S)
            self._g = lambda x: np.interp(x, self.X, self.T)

    def st(self, p):
        p = np.asarray(p, float)
        out = ~((p >= self.A) & (p <= self.B))
        s, t = np.array(self._f(p), float), np.array(self._g(p), float)
        s, t = np.where(out, np.nan, s), np.where(out, np.nan, t)
        return s, t

    def dst(self, p):
        """Derivatives by P strictly inside a piece."""
        if self.interp == "pchip" and self.n > 2:
            return self._f(p, 1), self._g(p, 1)
        i = np.clip(np.searchsorted(self.X, p) - 1, 0, self.n - 2)
        h = np.diff(self.X)
        return (np.diff(self.S) / h)[i], (np.diff(self.T) / h)[i]


def same_point(cast, s, t, p, what):
    """s, t are the interpolants of the cast evaluated at p."""
    s_, t_ = cast.st(p)
    require(np.isfinite(s) and np.isfinite(t), lambda: f"{what}: p={p!r} is finite but s={s!r}, t={t!r}")
    require(
        abs(s - s_) <= 1e-9 * (1 + abs(s_)) and abs(t - t_) <= 1e-9 * (1 + abs(t_)),
        lambda: f"{what}: (s, t)=({s!r}, {t!r}) is not the cast interpolated to p={p!r}, which is ({float(s_)!r}, {float(t_)!r})",
    )


def check_root(G, p, A, B, tol, delta, knots, what):
    """Within the solver's tolerance of p there is a zero of G (vectorised), p in [A, B]."""
    require(np.isfinite(p), lambda: f"{what}: p={p!r}")
    slack = 4 * EPS * max(abs(A), abs(B))
    require(A - slack <= p <= B + slack, lambda: f"{what}: p={p!r} lies outside the cast's range [{A!r}, {B!r}]")
    f0 = float(G(np.array([min(max(p, A), B)]))[0])
    if abs(f0) <= delta:
        return
    W = 2.04 * (2 * EPS * abs(p) + tol) + 2 * EPS * abs(p)
    lo, hi = max(A, p - W), min(B, p + W)
    x = np.concatenate((np.linspace(lo, hi, 41), knots[(knots >= lo) & (knots <= hi)]))
    f = G(x)
    if np.any(f * np.sign(f0) <= delta):
        return
    raise Violation(f"{what}: no root within {W:.3g} of p={p!r}; residual there is {f0!r} (noise {delta:.2g})")


def must_exist(G, A, B, delta):
    fa, fb = (float(v) for v in G(np.array([A, B])))
    return (fa > delta and fb < -delta) or (fa < -delta and fb > delta)


def noise_of(eosname):
    return 4e-14 * eosref.MAG[eosname]


def close(a, b, rtol=1e-10, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    a, b = a[~na], b[~nb]
    with np.errstate(invalid="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


def expect_close(a, b, what, rtol=1e-10, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape} instead of {b.shape}")
    if close(a, b, rtol, atol):
        return
    na, nb = np.isnan(a), np.isnan(b)
    bad = np.flatnonzero(((na != nb) | (np.abs(a - b) > atol + rtol * np.abs(b)) & ~(na & nb)).reshape(-1))
    i = int(bad[0]) if bad.size else 0
    raise Violation(f"{what}: at {i} of {a.size}: got {a.reshape(-1)[i]!r}, expected {b.reshape(-1)[i]!r}")


def as_array(x, shape, what):
    """Output converted to a float ndarray of the expected shape, else a violation."""
    try:
        v = np.asarray(getattr(x, "values", x), dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation(f"{what} is not numeric: {type(x).__name__}") from e
    require(v.shape == tuple(shape), lambda: f"{what} has shape {v.shape}, expected {tuple(shape)}")
    return v


def same_nan(s, t, p, what):
    require(
        np.array_equal(np.isnan(s), np.isnan(p)) and np.array_equal(np.isnan(t), np.isnan(p)),
        lambda: f"{what}: s, t, p are not NaN at the same casts",
    )


def eps_ref(s, t, p, a, b, eos_s_t):
    """Neutrality errors on edges, straight from the definition."""
    rs, rt = eos_s_t(0.5 * (s[a] + s[b]), 0.5 * (t[a] + t[b]), 0.5 * (p[a] + p[b]))
    return rs * (s[b] - s[a]) + rt * (t[b] - t[a])


def norms_ref(e, dist, distperp):
    dist, distperp = np.broadcast_to(dist, e.shape), np.broadcast_to(distperp, e.shape)
    ok = np.isfinite(e)
    if not ok.any():
        return 0.0, 0.0
    w = (dist * distperp)[ok]
    x = e[ok] / dist[ok]
    return float(np.sqrt((w * x * x).sum() / w.sum())), float((w * abs(x)).sum() / w.sum())
