"""Exact model of a step function: the abstract view used by the contracts.

A PF is (init, [(x, v), ...]) with x strictly increasing abstract coordinates and v
float-or-nan; `at(x)` is the right limit and `before(x)` the left limit.  PFs are
always kept minimal, so structural equality is equality of functions.
"""
import math
from bisect import bisect_left, bisect_right

NAN = float("nan")


def isnan(v):
    return v != v


def same(a, b, tol=1e-9):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class PF:
    __slots__ = ("init", "xs", "vs")

    def __init__(self, init, steps=(), exact=False):
        self.init = float(init)
        xs, vs = [], []
        prev = self.init
        for x, v in steps:
            v = float(v)
            if not (v == prev or (v != v and prev != prev)):
                xs.append(x)
                vs.append(v)
                prev = v
        self.xs, self.vs = xs, vs

    def at(self, x):
        i = bisect_right(self.xs, x)
        return self.vs[i - 1] if i else self.init

    def before(self, x):
        i = bisect_left(self.xs, x)
        return self.vs[i - 1] if i else self.init

    def val(self, x, closed):
        return self.at(x) if closed == "left" else self.before(x)

    @property
    def final(self):
        return self.vs[-1] if self.vs else self.init

    def map(self, fn):
        return PF(fn(self.init), [(x, fn(v)) for x, v in zip(self.xs, self.vs)])

    def zip(self, other, fn):
        pts = sorted(set(self.xs) | set(other.xs))
        return PF(fn(self.init, other.init), [(x, fn(self.at(x), other.at(x))) for x in pts])

    @staticmethod
    def zipn(fs, fn):
        pts = sorted(set().union(*[f.xs for f in fs]))
        return PF(fn([f.init for f in fs]), [(x, fn([f.at(x) for f in fs])) for x in pts])

    def shift(self, d):
        return PF(self.init, [(x + d, v) for x, v in zip(self.xs, self.vs)])

    def clip(self, a, b):
        """a/b None = unrestricted"""
        ind = PF.indicator(a, b)
        return self.zip(ind, lambda v, i: v if i == 1 else NAN)

    @staticmethod
    def indicator(a, b, v=1.0, init=0.0):
        if a is None and b is None:
            return PF(init + v)
        if a is None:
            return PF(init + v, [(b, init)])
        if b is None:
            return PF(init, [(a, init + v)])
        if a < b:
            return PF(init, [(a, init + v), (b, init)])
        if a == b:
            return PF(init)
        return PF(init, [(b, init - v), (a, init)])

    def pieces(self):
        """finite pieces (a, b, v)"""
        return [(self.xs[i], self.xs[i + 1], self.vs[i]) for i in range(len(self.xs) - 1)]

    def same(self, other, tol=1e-9):
        """equality of functions up to float noise in values"""
        if self.xs == other.xs:
            return same(self.init, other.init, tol) and all(
                same(a, b, tol) for a, b in zip(self.vs, other.vs))
        pts = sorted(set(self.xs) | set(other.xs))
        return same(self.init, other.init, tol) and all(
            same(self.at(x), other.at(x), tol) for x in pts)

    def defined_everywhere(self):
        return not isnan(self.init) and not any(isnan(v) for v in self.vs)

    def __eq__(self, o):
        return self.same(o)

    def __repr__(self):
        return "PF(%r, %r)" % (self.init, list(zip(self.xs, self.vs)))
