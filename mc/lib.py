"""Shared oracles and helpers for the property modules (deliberately boring)."""
import math
from fractions import Fraction
from .engine import Fail

INF = float('inf')
REL, ABS = 1e-7, 1e-7


def num(x):
    """Exact-as-possible float of an int/float/Decimal/Fraction."""
    return float(x)


def close(a, b, rel=REL, abs_=ABS):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def expect(kind, got, want, ctx='', rel=REL, abs_=ABS):
    if not close(got, want, rel, abs_):
        raise Fail(kind, '%s: got %s, expected %s' % (ctx, got, want))


def expect_eq(kind, got, want, ctx=''):
    if got != want:
        raise Fail(kind, '%s: got %r, expected %r' % (ctx, got, want))


def check(kind, cond, msg=''):
    if not cond:
        raise Fail(kind, msg)


def expect_map(kind, got, want, ctx='', rel=REL, abs_=ABS):
    """Compares two {number: number} mappings; zero-valued entries are equal to absent ones."""
    g = {round(float(k), 9): float(v) for k, v in got.items()}
    w = {round(float(k), 9): float(v) for k, v in want.items()}
    for k in sorted(set(g) | set(w)):
        if not close(g.get(k, 0.0), w.get(k, 0.0), rel, abs_):
            raise Fail(kind, '%s: at %s got %s, expected %s (%s vs %s)' % (
                ctx, k, g.get(k, 0.0), w.get(k, 0.0), g, w))


def growth(t, rate, nper):
    """A(t): accumulation over t years at nominal rate with nper compoundings (None: continuous)."""
    t, rate = float(t), float(rate)
    if nper is None:
        return math.exp(rate * t)
    return (1.0 + rate / nper) ** (nper * t)


def r9(x):
    """Rounded float for canonical keys."""
    return round(float(x), 9)
