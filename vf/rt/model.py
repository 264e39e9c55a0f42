"""Reference semantics of the statistics, computed on PF models (exact for dyadic data)."""
import math
from fractions import Fraction

from .pf import NAN, PF, isnan


def fin(f):
    """finite defined pieces (length, value)"""
    return [(b - a, v) for a, b, v in f.pieces() if not isnan(v)]


def value_sums(f):
    d = {}
    for l, v in fin(f):
        d[v] = d.get(v, 0) + l
    return dict(sorted(d.items()))


def integral(f):
    return float(sum(Fraction(l) * Fraction(v) for l, v in fin(f)))


def total(f):
    return sum(Fraction(l) for l, v in fin(f))


def _mean(f):
    return sum(Fraction(l) * Fraction(v) for l, v in fin(f)) / total(f)


def mean(f):
    return float(_mean(f)) if fin(f) else NAN


def var(f):
    m = _mean(f)
    return float(sum(Fraction(l) * (Fraction(v) - m) ** 2 for l, v in fin(f)) / total(f))


def std(f):
    return math.sqrt(var(f))


def ecdf(f, y, strict=False):
    t = total(f)
    return float(sum(Fraction(l) for l, v in fin(f) if (v < y if strict else v <= y)) / t)


def cums(f):
    t, c, out = total(f), Fraction(0), []
    for v, l in value_sums(f).items():
        c += Fraction(l) / t
        out.append((c, v))
    return out


def fractile(f, p):
    """midpoint of lower and upper p-quantile; None when p sits on a boundary that floats cannot hit exactly"""
    p = Fraction(p)
    cs = cums(f)
    if p <= 0:
        return cs[0][1]
    if p >= 1:
        return cs[-1][1]
    for c, _ in cs:
        if c == p and (c.denominator & (c.denominator - 1)):
            return None
        if c != p and abs(c - p) < Fraction(1, 10 ** 8):
            return None
    if any(c == p for c, _ in cs) and any(c.denominator & (c.denominator - 1) for c, _ in cs):
        return None
    lo = next(v for c, v in cs if c >= p)
    hi = next(v for c, v in cs if c > p)
    return (lo + hi) / 2


def modes(f):
    vs = value_sums(f)
    m = max(vs.values())
    return [v for v, l in vs.items() if l == m]


def hist(f, breaks, closed, stat):
    vs = value_sums(f)
    raw = []
    for a, b in zip(breaks, breaks[1:]):
        raw.append(sum((Fraction(l) for v, l in vs.items() if (a <= v < b if closed == "left" else a < v <= b)),
                       Fraction(0)))
    t = total(f)
    w = [Fraction(b) - Fraction(a) for a, b in zip(breaks, breaks[1:])]
    if stat == "sum":
        return [float(r) for r in raw]
    if stat == "frequency":
        return [float(r / x) for r, x in zip(raw, w)]
    if stat == "probability":
        return [float(r / t) for r in raw]
    area = sum(r * x for r, x in zip(raw, w))          # density: area 1 over the bins
    return None if area == 0 else [float(r / area) for r in raw]


def unit_breaks(f, closed):
    vs = list(value_sums(f))
    if closed == "left":
        return list(range(math.floor(min(vs)), math.floor(max(vs)) + 2))
    return list(range(math.ceil(min(vs)) - 1, math.ceil(max(vs)) + 1))


def values_in_range(f, lo, hi, closed, fclosed):
    out = set()
    edges = [None] + f.xs + [None]
    for i, v in enumerate([f.init] + f.vs):
        a, b = edges[i], edges[i + 1]
        # piece (a, b) overlaps the open window (lo, hi)
        l = max([x for x in (a, lo) if x is not None], default=None)
        h = min([x for x in (b, hi) if x is not None], default=None)
        if l is None or h is None or l < h:
            out.add(v)
    if closed in ("left", "both") and lo is not None:
        out.add(f.val(lo, fclosed))
    if closed in ("right", "both") and hi is not None:
        out.add(f.val(hi, fclosed))
    return sorted(v for v in out if not isnan(v))


def both_defined(f, g):
    return f.zip(g, lambda a, b: NAN if isnan(b) else a), g.zip(f, lambda a, b: NAN if isnan(b) else a)


def cov(f, g, lo, hi):
    f, g = both_defined(f, g)
    f, g = f.clip(lo, hi), g.clip(lo, hi)
    if not fin(f):
        return None
    fg = f.zip(g, lambda a, b: a * b)
    pts = sorted(set(f.xs) | set(g.xs))
    pcs = [(Fraction(b - a), Fraction(f.at(a)), Fraction(g.at(a))) for a, b in zip(pts, pts[1:]) if not isnan(f.at(a))]
    t = sum(l for l, _, _ in pcs)
    return float(sum(l * x * y for l, x, y in pcs) / t - sum(l * x for l, x, _ in pcs) * sum(l * y for l, _, y in pcs) / t / t)


def corr(f, g, lo, hi):
    c = cov(f, g, lo, hi)
    if c is None:
        return None
    a, b = both_defined(f, g)
    d = math.sqrt(cov(a, a, lo, hi)) * math.sqrt(cov(b, b, lo, hi))
    return NAN if d == 0 else c / d


def ffill(f):
    init, out, last = f.init, [], f.init
    for x, v in zip(f.xs, f.vs):
        if not isnan(v):
            last = v
        out.append((x, last))
    return PF(init, out)


def bfill(f):
    seq = [f.init] + f.vs
    nxt, out = NAN, []
    for v in reversed(seq):
        if not isnan(v):
            nxt = v
        out.append(nxt)
    out.reverse()
    return PF(out[0], zip(f.xs, out[1:]))


def median_(vs):
    s = sorted(vs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _prop(fn):
    return lambda vs: NAN if any(isnan(v) for v in vs) else float(fn(vs))


AGGS = {"sum": _prop(sum), "mean": _prop(lambda vs: sum(vs) / len(vs)), "median": _prop(median_),
        "min": _prop(min), "max": _prop(max),
        "logical_or": _prop(lambda vs: any(v != 0 for v in vs)),
        "logical_and": _prop(lambda vs: all(v != 0 for v in vs))}
