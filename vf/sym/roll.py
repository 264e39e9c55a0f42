"""Contract of Stairs.rolling_mean.

The step points of the clipped function are an arbitrary set of reals, given by a predicate; an
index computed from it is a predicate over labels, and everything is stated of one generic label.
The means come from the contract of slicing (C11): an arbitrary function of the two window edges.
"""
from .colls import *
from .contracts import lab
from .core import *
from .core import V
from .dist import Meta2, swapped
from .shim import Index, NoAttr, Num, SimValueError, scal, tov


def _term(v):
    c = scal(v)
    if c is None:
        raise Unsupported("%s as a distance" % type(v).__name__)
    return tov(c).r


class Base:
    """rows y, of which those with mem(y) are present"""

    def __init__(self, mem, clean=True):
        self.mem, self.clean = mem, clean       # clean: ascending, no duplicates


class PIndex(NoAttr):
    """labels y + off of the rows y of a base"""

    def __init__(self, base, off=None):
        self.base, self.off = base, rv(0) if off is None else off

    def has(self, x):
        return self.base.mem(x - self.off)

    def _shift(self, d):
        return PIndex(self.base, z3.simplify(self.off + d))

    def __add__(self, d):
        return self._shift(_term(d))
    __radd__ = __add__

    def __sub__(self, d):
        return self._shift(-_term(d))

    def __neg__(self):
        raise Unsupported("negated labels")

    def _cmp(self, v, f):
        t = _term(v)
        return PMask(self.base, lambda y: f(y + self.off, t))

    def __ge__(self, v):
        return self._cmp(v, lambda a, b: a >= b)

    def __gt__(self, v):
        return self._cmp(v, lambda a, b: a > b)

    def __le__(self, v):
        return self._cmp(v, lambda a, b: a <= b)

    def __lt__(self, v):
        return self._cmp(v, lambda a, b: a < b)

    __hash__ = None

    def __eq__(self, v):
        raise Unsupported("labels compared for equality")

    def __getitem__(self, k):
        if not isinstance(k, PMask) or k.base is not self.base:
            raise Unsupported("label selection")
        return PIndex(self.base_where(k), self.off)

    def base_where(self, k):
        b, m = self.base, k.f
        return k.made.setdefault(id(b), Base(lambda y: And(b.mem(y), m(y)), b.clean))

    def union(self, o, sort=None):
        if not isinstance(o, PIndex) or sort is False:
            raise Unsupported("union")
        return PIndex(Base(lambda x: Or(self.has(x), o.has(x))))

    def append(self, o):
        os = o if isinstance(o, (list, tuple)) else [o]
        if not all(isinstance(x, PIndex) for x in os):
            raise Unsupported("append")
        return PIndex(Base(lambda x: Or(*[i.has(x) for i in (self, *os)]), False))

    def intersection(self, o, sort=False):
        return PIndex(Base(lambda x: And(self.has(x), o.has(x)), self.base.clean))

    def copy(self, *a, **k):
        return self

    def unique(self):
        return PIndex(Base(lambda x: self.has(x), self.base.clean or "unique"))

    drop_duplicates = unique

    def sort_values(self):
        return PIndex(Base(lambda x: self.has(x), self.base.clean is True or self.base.clean == "unique"))

    @property
    def index(self):
        raise AttributeError("index")


class PMask(NoAttr):
    def __init__(self, base, f):
        self.base, self.f, self.made = base, f, {}

    def _with(self, o, op):
        if not isinstance(o, PMask) or o.base is not self.base:
            raise Unsupported("mask")
        return PMask(self.base, lambda y: op(self.f(y), o.f(y)))

    def __and__(self, o):
        return self._with(o, And)

    def __or__(self, o):
        return self._with(o, Or)

    def __invert__(self):
        return PMask(self.base, lambda y: Not(self.f(y)))

    @property
    def values(self):
        return self


class Windows(NoAttr):
    """IntervalIndex of the rows of a base"""

    def __init__(self, base, l, r, closed):
        self.base, self.l, self.r, self.closed = base, l, r, closed


class PArr(NoAttr):
    def __init__(self, base, f):
        self.base, self.f = base, f

    @property
    def values(self):
        return self

    def to_numpy(self):
        return self
    tolist = to_list = to_numpy


class PSeries(NoAttr):
    def __init__(self, index, f):
        self.__dict__.update(_i=index, f=f)

    @property
    def index(self):
        return self._i

    @index.setter
    def index(self, i):
        if not isinstance(i, PIndex) or i.base is not self._base:
            raise Unsupported("labels of other rows")
        self.__dict__["_i"] = i

    @property
    def _base(self):
        return self._i.base

    def set_axis(self, i, *a, **k):
        r = PSeries(self._i, self.f)
        r.index = i
        return r

    @property
    def values(self):
        return PArr(self._base, self.f)

    array = values

    def to_numpy(self):
        return self.values

    @property
    def loc(self):
        return self

    def __getitem__(self, k):
        if callable(k):
            k = k(self)
        if isinstance(k, slice) and k.step is None:
            lo, hi = k.start, k.stop        # label slices of an ascending index include both ends
            if self._base.clean is not True:
                raise Unsupported("label slice")
            m = PMask(self._base, lambda y: TRUE)
            if lo is not None:
                m = m & (self._i >= lo)
            if hi is not None:
                m = m & (self._i <= hi)
            k = m
        if not isinstance(k, PMask) or k.base is not self._base:
            raise Unsupported("selection by %s" % type(k).__name__)
        return PSeries(PIndex(self._i.base_where(k), self._i.off), self.f)

    def copy(self, *a, **k):
        return self

    def truncate(self, before=None, after=None):
        return self[slice(before, after)]


class PFrame(NoAttr):
    """the step points of the clipped function"""

    def __init__(self, index):
        self.index = index


PMEM = z3.Function("is step point", R, z3.BoolSort())
WHOLER, WHOLEN = z3.Function("mean of the unclipped function over", R, R, R), z3.Function("mean of the unclipped function undefined over", R, R, z3.BoolSort())
MEANR, MEANN = z3.Function("mean over", R, R, R), z3.Function("mean undefined over", R, R, z3.BoolSort())


def rolling(lo, hi, kind="steps", closed="left"):
    """knots at every x where a window edge meets a step point of the clipped function and the window lies within
    `where`; at each the mean over the window"""
    def run(Rn):
        m = M()
        f = Rn.operand("f", "V", closed)
        a = Rn.point("lo") if lo == "q" else None
        b = Rn.point("hi") if hi == "q" else None
        if a is not None and b is not None:
            m.P.append(a < b)
        l, r, x = z3.Real("window left"), z3.Real("window right"), z3.Real("focal point")
        m.P.append(l < r)
        init = m.rigid_value("clipped.init")
        inf = Rn.sc.inf
        la = lab(a) if a is not None else None if lo == "none" else -inf
        lb = lab(b) if b is not None else None if hi == "none" else inf
        points = PIndex(Base(lambda y: PMEM(y)))
        made = []

        def same(v, w, infinite):
            if w is None:
                return v is None or (isinstance(v, float) and v == infinite) or v is (inf if infinite > 0 else -inf) or (scal(v) is None and not isinstance(v, Num) and v == (inf if infinite > 0 else -inf))
            c = scal(v) if v is not None else None
            return c is not None and z3.is_expr(tov(c).r) and tov(c).r.eq(w)

        def clip(self, lower=-inf, upper=inf):
            if self is not f.obj:
                raise Unsupported("clip of another function")
            if not same(lower, a, float("-inf")) or not same(upper, b, float("inf")):
                raise Odd("pointwise", "clipped to something other than `where`")
            Rn.callees.add("clip")
            g = Rn.sc.Stairs._new(Num(init, "np"), None, closed)
            if kind == "steps":
                g.__dict__["_data"] = PFrame(points)
                g.__dict__["_valid_values"] = True
            made.append(g)
            return g

        def where(self, other):
            if not isinstance(other, tuple) or len(other) != 2:
                raise Unsupported("where")
            return clip(self, *other)

        class Sliced(NoAttr):
            def __init__(self, w, whole):
                self.w, self.whole = w, whole

            def mean(self):
                Rn.callees.add("slice.mean")
                w = self.w

                def fn(y):
                    p, q = y + w.l, y + w.r
                    g = V(MEANN(p, q), MEANR(p, q))
                    if not self.whole:
                        return g
                    within = And(TRUE if a is None else p >= a, TRUE if b is None else q <= b)
                    return vite(within, g, V(WHOLEN(p, q), WHOLER(p, q)))       # clipping does not matter within `where`
                return PSeries(PIndex(w.base), fn)

            def agg(self, what):
                if what != "mean":
                    raise Unsupported("agg of the slices")
                raise Unsupported("agg of the slices")

        def slice_(self, cuts, closed="left"):
            if not any(self is g for g in made):
                if self is not f.obj:
                    raise Unsupported("slice of another function")
            if not isinstance(cuts, Windows):
                raise Unsupported("slices")
            return Sliced(cuts, self is f.obj)

        class II:
            @staticmethod
            def from_arrays(left, right, closed="right", **k):
                if not isinstance(left, PIndex) or not isinstance(right, PIndex) or left.base is not right.base or k:
                    raise Unsupported("intervals")
                y = z3.Real("row")
                Rn.ob("window edges are in order", "rigid", Implies(left.base.mem(y), left.off <= right.off), "noexc")
                return Windows(left.base, left.off, right.off, closed)

            @staticmethod
            def from_tuples(*a, **k):
                raise Unsupported("from_tuples")
            from_breaks = from_tuples
        got = []

        def series(data=None, index=None, **k):
            if k:
                raise Unsupported("Series options")
            if isinstance(data, PArr) and isinstance(index, PIndex):
                if data.base is not index.base:
                    raise Unsupported("Series of other rows")
                return PSeries(index, data.f)
            if isinstance(data, PSeries) and index is None:
                return data
            if isinstance(data, (list, tuple)) and index is not None:
                got.append((list(data), list(index)))
                return got[-1]
            raise Unsupported("Series of %s" % type(data).__name__)
        C = Rn.sc.Stairs
        body = C.rolling_mean
        pd = Rn.sc.core.stairs.pd
        iu, ia = Index.__dict__.get("union"), Index.__dict__.get("append")

        def union(self, *a, **k):
            return self.union(*a, **k) if isinstance(self, PIndex) else iu(self, *a, **k)
        pts = property(lambda self: points if any(self is g for g in made) else (_ for _ in ()).throw(Unsupported("step_points")))
        nst = property(lambda self: (_ for _ in ()).throw(Unsupported("number_of_steps")))
        with swapped((C, "clip", clip), (C, "where", where), (C, "slice", slice_), (pd, "IntervalIndex", II), (pd, "Series", Meta2(series)),
                     (Index, "union", union), (C, "step_points", pts), (C, "number_of_steps", nst)):
            out = body(f.obj, window=(Num(V(FALSE, l), "np"), Num(V(FALSE, r), "np")), where=(la, lb)) if (lo, hi) != ("inf", "inf") else \
                body(f.obj, window=[Num(V(FALSE, l), "np"), Num(V(FALSE, r), "np")])
        if kind == "const":
            if not isinstance(out, tuple) or not any(out is g for g in got):
                raise Unsupported("result %s" % type(out).__name__)
            vals, idx = out
            if len(vals) != 2 or len(idx) != 2:
                raise Bad("pointwise", "%d points for a constant function" % len(vals))
            for v in vals:
                c = scal(v)
                if c is None:
                    raise Unsupported("values of a constant function")
                Rn.ob("a function without steps: its value", "rigid", vsame(tov(c), init), "pointwise")
            if not same(idx[0], a, float("-inf")) or not same(idx[1], b, float("inf")):
                raise Bad("pointwise", "points of a constant function are not the ends of `where`")
            Rn.frames()
            return
        if not isinstance(out, PSeries):
            raise Unsupported("result %s" % type(out).__name__)
        if out._base.clean is not True:
            raise Bad("pointwise", "points are not ascending and unique")
        want = Or(PMEM(x + l), PMEM(x + r))
        if a is not None:
            want = And(want, x + l >= a)
        if b is not None:
            want = And(want, x + r <= b)
        Rn.ob("a point wherever a window edge meets a step point, the window being within `where`", "rigid", Iff(out.index.has(x), want), "pointwise")
        v = out.f(z3.simplify(x - out.index.off))
        Rn.ob("the mean over the window", "rigid", Implies(want, vsame(v, V(MEANN(x + l, x + r), MEANR(x + l, x + r)))), "pointwise")
        Rn.ob("ascending, each point once", "rigid", TRUE, "pointwise")
        Rn.frames()
    return Task("rolling_mean", "rolling_mean[%s,%s %s %s]" % (lo, hi, kind, closed), run, lambda R, c: rollcase(lo, hi))


def interpolation():
    """between consecutive points the rolling mean is affine (a lemma over the contract)"""
    def run(Rn):
        m = M()
        x0, x1, t = z3.Real("x0"), z3.Real("x1"), z3.Real("part")
        Fl0, Fl1, Fr0, Fr1, w = [z3.Real(n) for n in ("F(x0+l)", "F(x1+l)", "F(x0+r)", "F(x1+r)", "window width")]
        vl, vr = z3.Real("f between the left edges"), z3.Real("f between the right edges")
        # an antiderivative is affine where the function takes one value
        m.P += [x0 < x1, t > 0, t < 1, w > 0, Fl1 == Fl0 + vl * (x1 - x0), Fr1 == Fr0 + vr * (x1 - x0)]
        x = x0 + t * (x1 - x0)
        Fl, Fr = Fl0 + vl * (x - x0), Fr0 + vr * (x - x0)
        y0, y1 = (Fr0 - Fl0) / w, (Fr1 - Fl1) / w
        Rn.ob("linear interpolation between consecutive points is the mean (defined throughout)", "rigid", (Fr - Fl) / w == (1 - t) * y0 + t * y1, "pointwise")
    return Task("rolling_mean", "rolling_mean lemma", run, None)


def rollcase(lo, hi):
    out = []
    steps = [[0, 1.0], [2, 3.0], [4, 0.0], [6, -2.0], [9, 0.0]]
    for d in ("float", "ts"):
        for s in ("left", "right"):
            for i, st in (("nan", steps), (0.0, steps), (1.0, [])):
                f = {"init": i, "steps": st, "route": "values", "form": "raw", "closed": s}
                for w in ([-1, 1], [0, 2], [-3, 0], [1, 4], [-2, -1]):
                    for win in ([None, None], [1, 8], [None, 6], [2, None], [-2, 20]):
                        out.append({"kind": "roll", "f": f, "dom": d, "window": w, "win": win, "plain": True})
    return out
