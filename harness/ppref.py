"""Reference piecewise polynomial interpolation and generators of tables."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import PPoly, PchipInterpolator

from .core import require
from .gen import F, I, logF, noise
from .oracle import valid_block

EPS = np.finfo(float).eps
YK = ("rand", "mono", "alt", "plateau", "line", "smooth", "const")


@st.composite
def table(draw, nmax=14, nanmax=3):
    c = dict(n=draw(I(1, nmax)), yk=draw(st.sampled_from(YK)), ns=draw(I(0, 9000)))
    c["x0"] = draw(st.sampled_from([0.0, 5.0]) | F(-2000.0, 2000.0))
    c["h"] = draw(logF(1e-2, 1e3))
    c["hv"] = draw(st.sampled_from([0.0]) | F(0.0, 3.0))  # decades of variation of the spacing
    c["ys"] = draw(logF(1e-6, 1e6)) * draw(st.sampled_from([1.0, -1.0]))
    c["y0"] = draw(st.sampled_from([0.0, 35.0]) | F(-40.0, 40.0))
    if draw(I(0, 15)) == 0:  # slopes whose products underflow or overflow
        c["ys"], c["y0"] = draw(st.sampled_from([1e-180, -1e-170, 1e160])), 0.0
    c["nan"] = draw(st.lists(st.tuples(st.sampled_from(["y", "x", "ytop", "ybot", "xbot", "keep"]), I(0, 40), I(1, 40)).map(list), max_size=nanmax))
    return c


def xy(c, salt=0):
    n = c["n"]
    h = c["h"] * 10 ** (c["hv"] * (noise(c["ns"] + 11 + salt, (n,)) - 0.5))
    X = c["x0"] + np.cumsum(h)
    r = noise(c["ns"] + 12 + salt, (n,))
    k = np.arange(n)
    y = {
        "rand": r - 0.5,
        "mono": np.cumsum(0.01 + r),
        "alt": (-1.0) ** k * (0.2 + r),
        "plateau": np.floor(r * 3),
        "line": (X - c["x0"]) / c["h"],
        "smooth": np.sin(0.7 * k + 6 * r[0]),
        "const": np.ones(n),
    }[c["yk"]]
    Y = c["y0"] + c["ys"] * y
    if c["yk"] == "plateau" and n > 2:
        Y = Y - c["y0"] if c["ns"] % 2 else Y
    for kind, a, b in c["nan"]:
        a %= n
        if kind == "y":
            Y[a] = np.nan
        elif kind == "x":
            X[a] = np.nan
        elif kind == "ytop":
            Y[:a] = np.nan
        elif kind == "ybot":
            Y[a:] = np.nan
        elif kind == "xbot":
            X[a:] = np.nan
        elif kind == "keep":
            Y[:a] = np.nan
            Y[a + b :] = np.nan
    return X, Y


class Ref:
    """The interpolant of the first contiguous valid block of (X, Y)."""

    def __init__(self, X, Y, interp):
        k, K = valid_block(X, Y)
        self.ok = K - k >= 2
        self.interp = interp
        if not self.ok:
            return
        X, Y = X[k:K], Y[k:K]
        self.X, self.Y = X, Y
        self.h = np.diff(X)
        if interp == "pchip" and len(X) > 2:
            self.pp = PchipInterpolator(X, Y)
        else:
            self.pp = PPoly(np.vstack((np.diff(Y) / self.h, Y[:-1])), X)

    def pieces(self, x):
        """Indices of the piece(s) that hold x: two of them at an interior knot."""
        i = int(np.clip(np.searchsorted(self.X, x) - 1, 0, len(self.X) - 2))
        out = [i]
        if x == self.X[i + 1] and i + 2 < len(self.X):
            out.append(i + 1)
        return out

    def value(self, i, x, d):
        c = self.pp.c[:, i]
        p = np.poly1d(c)
        if d:
            p = p.deriv(d)
        return float(p(x - self.X[i]))

    def tol(self, i, d, slack=64.0):
        lo, hi = max(0, i - 1), min(len(self.X), i + 3)
        ym = np.abs(self.Y[lo:hi]).max() + 1e-300
        h = self.h[lo : hi - 1]
        xm = np.abs(self.X[lo:hi]).max()
        # round-off of the table (values) and of the abscissae
        return slack * EPS * ym * (1 + xm / h.min()) * (self.h[i] / h.min()) ** (1 if self.interp == "pchip" else 0) * self.h[i] ** (-d) + 1e-300

    def verify(self, y, x, d, what, slack=64.0):
        y = float(y)
        if not self.ok or not math.isfinite(x) or x < self.X[0] or x > self.X[-1]:
            require(math.isnan(y), lambda: f"{what}: {y!r} at x={x!r}, which is not inside the valid data")
            return False
        c = [(self.value(i, x, d), self.tol(i, d, slack)) for i in self.pieces(x)]
        require(any(abs(y - v) <= t for v, t in c), lambda: f"{what}: got {y!r} at x={x!r} (derivative {d}), expected {c[0][0]!r}")
        if d == 0 and x in self.X:
            e = self.Y[int(np.flatnonzero(self.X == x)[0])]
            require(abs(y - e) <= c[0][1], lambda: f"{what}: data value not reproduced: {y!r} instead of {e!r}")
        return True


@st.composite
def sites(draw, m=4):
    """Evaluation sites relative to a table: (how, a, b)."""
    how = st.sampled_from(["in", "in", "in", "knot", "first", "last", "below", "above", "nan", "inf", "justin", "mid"])
    return draw(st.lists(st.tuples(how, I(0, 40), F(0.0, 1.0)).map(list), min_size=1, max_size=m))


def site(s, X, Y):
    how, a, fr = s
    k, K = valid_block(X, Y)
    if how == "nan":
        return float("nan")
    if how == "inf":
        return math.inf if a % 2 else -math.inf
    if K - k < 1:
        return 1.0 + fr
    x = X[k:K]
    n = len(x)
    if how == "knot":
        return float(x[a % n])
    if how == "first" or n == 1:
        return float(x[0])
    if how == "last":
        return float(x[-1])
    if how == "below":
        return float(np.nextafter(x[0], -math.inf)) if a % 2 else float(x[0] - (fr + 1e-3) * 100)
    if how == "above":
        return float(np.nextafter(x[-1], math.inf)) if a % 2 else float(x[-1] + (fr + 1e-3) * 100)
    if how == "justin":
        return float(np.nextafter(x[a % n], x[-1] if a % n < n - 1 else x[0]))
    i = a % (n - 1)
    if how == "mid":
        return float(0.5 * (x[i] + x[i + 1]))
    return float(min(max(x[i] + fr * (x[i + 1] - x[i]), x[0]), x[-1]))
