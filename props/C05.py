"""C05: the bracketing root finder."""
import math

import numba as nb
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, call, require
from harness.gen import F, I, logF
from neutralocean.fzero import brent, brent_guess, guess_to_bounds

RULE = (
    "A case is a function (11 families: monotone, steep, flat multiple roots, several roots, oscillating, step, plateau "
    "of zeros, constant, zero at an end ...), a range, a guess inside, on or outside the range, and a tolerance from 0 to "
    "a third of the range.  Non-trivial: the function changes sign over the range or between the guess and an end."
)
ASSUMPTIONS = ["the function is finite on the range and |f| is not so small that products of two values underflow"]
EPS = np.finfo(float).eps
NLOG = 6000


@nb.njit
def fam(x, kind, r, w, h, log):
    i = int(log[0])
    if i < log.size - 2:
        log[i + 1] = x
        log[0] = i + 1
    return _fam(x, kind, r, w, h)


@nb.njit
def _fam(x, kind, r, w, h):
    u = (x - r) / w
    if kind == 0:
        return h * (u * u * u + u)
    if kind == 1:
        return h * (-1.0 if x < r else 1.0)
    if kind == 2:
        return h * u * (u - 0.37) * (u + 0.61)
    if kind == 3:
        return h * np.tanh(40.0 * u)
    if kind == 4:
        return h * np.sinh(max(-50.0, min(50.0, 20.0 * u)))
    if kind == 5:
        return h * (np.sin(9.0 * u) + 0.3)
    if kind == 6:
        return h * u * abs(u) ** 4
    if kind == 7:
        return h
    if kind == 8:
        return h * (u - min(max(u, -0.1), 0.1))
    if kind == 9:
        return h * (u * u - 0.04)
    return h * np.arctan(u) * (1.0 if u > 0 else 1e-3)


@nb.njit
def uni(x):
    return x * x * x - 2.0


@st.composite
def case(draw, cfg):
    c = dict(kind=draw(I(0, 10)))
    c["A"] = draw(st.sampled_from([0.0, -1.0, 1000.0]) | F(-5000.0, 5000.0))
    c["L"] = draw(st.sampled_from([0.0, 1.0, 4000.0]) | logF(1e-6, 1e4))
    c["rf"] = draw(st.sampled_from([0.0, 1.0, 0.5, 1e-9]) | F(-0.3, 1.3))
    c["wf"] = draw(logF(0.02, 3.0))
    c["h"] = draw(logF(1e-12, 1e12)) * draw(st.sampled_from([-1.0, 1.0]))
    c["t"] = draw(st.sampled_from([0.0, 1e-4, 1e-8]) | logF(1e-12, 0.3))
    c["g"] = draw(st.sampled_from([0.0, 1.0, 0.5, -0.5, 1.5, 1e-17, 1e-14]) | F(-0.2, 1.2))
    c["x2"] = [draw(F(0.0, 1.0)), draw(F(0.0, 1.0))]
    return c


def near_root(f, x, lo, hi, tol, what):
    """A zero of f, or a change of its sign, within the documented tolerance of x."""
    require(math.isfinite(x), lambda: f"{what}: returned {x!r} though the sign changes")
    require(lo <= x <= hi, lambda: f"{what}: {x!r} is outside [{lo!r}, {hi!r}]")
    fx = f(x)
    if fx == 0.0:
        return
    W = 2.01 * (2 * EPS * abs(x) + tol) + 8 * EPS * max(abs(lo), abs(hi))
    a, b = max(lo, x - W), min(hi, x + W)
    for y in np.concatenate((np.linspace(a, b, 61), [a, b])):
        if f(float(y)) * fx <= 0.0:
            return
    require(False, lambda: f"{what}: no sign change within {W:.3g} of {x!r}, f={fx!r}")


def check(c, ctx):
    A, B = c["A"], c["A"] + c["L"]
    r = A + c["rf"] * c["L"]
    w = max(c["wf"] * c["L"], 1e-9)
    k, h, t = c["kind"], c["h"], c["t"] * (c["L"] if c["t"] not in (1e-4, 1e-8) else 1.0)
    if t == 0.0 and abs(r) < 1e-3:
        t = 1e-12
    log = np.zeros(NLOG)
    args = (k, r, w, h, log)

    def f(x):
        return float(_fam(x, k, r, w, h))

    def inside(lo, hi, what):
        n = int(log[0])
        v = log[1 : n + 1]
        require(n == 0 or (v.min() >= lo and v.max() <= hi), lambda: f"{what}: evaluated the function at {v.min()!r}..{v.max()!r}, outside [{lo!r}, {hi!r}]")
        require(n < 3000, f"{what}: {n} evaluations")
        log[0] = 0

    # brent on sub-ranges
    for fr in ([0.0, 1.0], sorted(c["x2"])):
        a, b = A + fr[0] * (B - A), A + fr[1] * (B - A)
        log[0] = 0
        x = float(call(brent, fam, a, b, t, args))
        inside(a, b, "brent")
        if f(a) * f(b) > 0:
            require(math.isnan(x), lambda: f"brent: {x!r} returned for a range without a sign change")
            ctx.label("nosign")
        else:
            near_root(f, x, a, b, t, "brent")
            ctx.label("sign")
            ctx.nontrivial(a < b)
    for a, b in ((np.nan, B), (A, np.nan), (B + 1.0, B)):
        x = float(call(brent, fam, a, b, t, args))
        require(math.isnan(x), lambda: f"brent: range [{a}, {b}] is unusable but {x!r} was returned")
    log[0] = 0

    # from a guess
    g = A + c["g"] * (B - A)
    gc = min(max(g, A), B)
    sg = {f(A) > 0, f(B) > 0, f(gc) > 0}
    zero = f(A) == 0 or f(B) == 0
    must = zero or len(sg) == 2
    a, b = (float(v) for v in call(guess_to_bounds, fam, g, A, B, args))
    inside(A, B, "guess_to_bounds")
    if math.isnan(a) or math.isnan(b):
        require(math.isnan(a) and math.isnan(b), "guess_to_bounds: only one bound is NaN")
        require(not must, lambda: f"guess_to_bounds: found no bracket, though f(A)={f(A)}, f(guess)={f(gc)}, f(B)={f(B)}")
    else:
        require(A <= a <= b <= B, lambda: f"guess_to_bounds: [{a!r}, {b!r}] not within [{A!r}, {B!r}]")
        require(f(a) * f(b) <= 0, lambda: f"guess_to_bounds: no sign change over [{a!r}, {b!r}]")
        if not zero and f(gc) != 0:
            require(a <= gc <= b, lambda: f"guess_to_bounds: [{a!r}, {b!r}] does not contain the guess {gc!r}")
    x = float(call(brent_guess, fam, g, A, B, t, args))
    inside(A, B, "brent_guess")
    if math.isnan(x):
        require(not must, lambda: f"brent_guess: found nothing, though f(A)={f(A)}, f(guess)={f(gc)}, f(B)={f(B)}")
        ctx.label("absent")
    else:
        near_root(f, x, A, B, t, "brent_guess")
        ctx.label("found")
        if len({f(A) > 0, f(B) > 0}) == 1 and not zero:
            ctx.label("found-by-guess-only")
    # univariate, no extra arguments
    if c["kind"] == 0:
        lo, hi = -3 * c["x2"][0], 2 + c["x2"][1]
        x = float(call(brent, uni, lo, hi, 1e-9))
        require(abs(x - 2 ** (1 / 3)) < 1e-7, lambda: f"brent without args: {x!r}")
        x = float(call(brent_guess, uni, c["g"], lo, hi, 1e-9))
        require(abs(x - 2 ** (1 / 3)) < 1e-7, lambda: f"brent_guess without args: {x!r}")
    ctx.label(f"kind{k}")


SUBS = [Sub("root", case, check, [[i] for i in range(8)], n=(3000, 120000), cap=(50, 700))]


def WARM():
    a = (0, 0.5, 1.0, 1.0, np.zeros(50))
    brent(fam, 0.0, 1.0, 1e-6, a)
    guess_to_bounds(fam, 0.4, 0.0, 1.0, a)
    brent_guess(fam, 0.4, 0.0, 1.0, 1e-6, a)
    brent(uni, 0.0, 3.0, 1e-6)
    brent_guess(uni, 1.0, 0.0, 3.0, 1e-6)
