"""Contracts of the distribution functions (core/stats/distribution.py, median, mode, var, std).

The distribution of a step function is a step function over *values*: its stream walks the
values in increasing order, one event per value taken.  Callees are replaced by their contracts
(value_sums, limit, ecdf, percentile, mean), each verified against its body elsewhere.
"""
import contextlib

from .contracts import *
from .contracts import V, lab, parts, scal_or
from .core import *
from .prove import Obligation
from .stubs import aliases
from .shim import Arr, DataFrame, Series, accum, e_div, held, hold, seen
from .world import cellv


@contextlib.contextmanager
def swapped(*subst):
    """(object, name, replacement)...; a method of a class of the package is replaced under its module-level names too"""
    done = {(id(o), n) for o, n, _ in subst}
    subst = list(subst)
    for o, n, v in list(subst):
        if isinstance(o, type) and callable(v):
            for m_, n_ in aliases(o.__dict__.get(n)):
                if (id(m_), n_) not in done:
                    subst.append((m_, n_, v))
    old = [(o, n, o.__dict__[n]) for o, n, _ in subst if n in o.__dict__]
    new = [(o, n) for o, n, _ in subst if n not in o.__dict__]
    for o, n, v in subst:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)
        for o, n in new:
            delattr(o, n)


def dmod(R):
    return R.sc.core.stats.distribution


def smod(R):
    return R.sc.core.stats.statistic


def c9case(R, c, **k):
    f = {"init": 0.0, "steps": [[0, 1.0], [2, 3.0], [4, 0.0], [6, -2.0], [10, 3.0], [12, 0.0]], "route": "values", "form": "raw", "closed": "left"}
    g = {"init": "nan", "steps": [[0, 1.0], [2, "nan"], [4, 4.0], [6, 1.0], [10, "nan"]], "route": "values", "form": "raw", "closed": "left"}
    base = {"kind": "c09", "order": ["ecdf", "percentile", "fractile", "median", "mode", "quantiles"], "bins": "unit", "bclosed": "left", "stat": "sum", "win": [None, None]}
    out = [dict(base, dom=d, f=x, order=base["order"][n:] + base["order"][:n]) for x in (f, g) for d in ("float", "ts") for n in (0, 2, 5)]
    return out + [dict(base, dom=d, f=f, order=["hist"], bins=b, bclosed=c, stat=s, form=w, cpass=p) for b in ("unit", [-2, 0, 1, 3, 5]) for c in ("left", "right")
                  for s in ("sum", "frequency", "density", "probability") for w, p in (("list", c), ("ii", "left"), ("ii", "right"))
                  for d in (("float", "ts") if s == "sum" else ("float",))]


class Lengths:
    """what value_sums promises: one row per value taken, with the positive total length at that value"""

    def __init__(self, R):
        m = M()
        self.mem = m.input_bool("value.row")
        self.len = V(FALSE, m.input_real("value.len"))
        m.U.append(Implies(self.mem, self.len.r > 0))
        m.E.append(self.mem)
        self.acc0, self.acc1 = accum(self.mem, self.len)
        self.started = seen(self.mem)[0]
        m.lemmas += [Implies(self.started, self.acc0.r > 0), Implies(Not(self.started), self.acc0.r == 0)]

    def series(self):
        return Series._mk(Index(Rows(self.mem)), Buf(Col(self.len)))


class Source:
    """the step function whose distribution is taken: known through its contracts only"""

    def __init__(self, R, lengths):
        self.R, self.lengths = R, lengths

    def value_sums(self, dropna=True, group=True):
        if not dropna or not group:
            raise Unsupported("value_sums(dropna=%r, group=%r)" % (dropna, group))
        self.R.callees.add("value_sums")
        return self.lengths.series()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("attribute %s of the source function" % k)


def ecdf():
    """value at y of the distribution: (length at values <= y) / (total length)"""
    def run(R):
        m = M()
        m.sumdiv = True
        L = Lengths(R)
        r = dmod(R).ECDF.from_stairs(Source(R, L))
        if not isinstance(r, dmod(R).ECDF):
            raise Bad("pointwise", "not an ECDF")
        # the total of the lengths, whatever it is called
        sums = [v for v, n in m.rigidv if n == "sum"]
        T = sums[0] if sums else m.rigid_value("total", nan=False)
        for v in sums:
            R.ob("divided by the total length", "final", v.r == L.acc0.r, "pointwise")
        if not sums:
            m.P.append(T.r > 0)
            m.FIN.append(T.r == L.acc0.r)
        c = scal(r._denormalize_probability_factor)
        if c is None:
            raise Unsupported("total length of type %s" % type(r._denormalize_probability_factor).__name__)
        R.ob("keeps the total length", "final", vsame(tov(c), V(FALSE, L.acc0.r)), "pointwise")
        F = Fn(num(0), V(FALSE, DIV(L.acc0.r, T.r)), V(FALSE, DIV(L.acc1.r, T.r)))
        out = R.fn_is(r, F, "left", minimal=True)
        m.lemmas.append(out.pre.r == F.pre.r)
        R.ob("step points are the values taken", "event", Iff(r._data.index.rows.mem, L.mem), "pointwise")
        R.ob("reaches 1", "final", out.pre.r == 1, "pointwise")
    return Task("ECDF.from_stairs", "ecdf", run, c9case)


def scaled(v, s):
    return V(v.nan, v.r if s == 1 else s * v.r)


def xtiles(which, form):
    """rows of the percentile / fractile function: (0, v1), (s F(v1), v2), ..., (s F(vn), vn); first value before 0"""
    s = {"Percentiles": 100, "Fractiles": 1}[which]

    def run(R):
        m = M()
        D = dmod(R)
        e = Operand(R.sc, "F", form, "left", cls=D.ECDF)
        m.P.append(And(Not(e.init.nan), e.init.r == 0))
        if form != "D":
            m.U.append(Implies(e.mem, Not(e.new.nan)))
        R.operands.append(e)
        R.know(e.fn)
        r = getattr(D, which).from_ecdf(e.obj)
        if type(r).__name__ != which:
            raise Bad("pointwise", "of type %s" % type(r).__name__)
        df = r._data
        if "literal" not in df.__dict__ or sorted(df.literal) != ["value"]:
            raise Unsupported("frame not built from arrays")
        v, x = parts(df.literal["value"]), parts(df.literal_index)
        if (len(v[0]), len(v[2])) != (0, 1) or (len(x[0]), len(x[2])) != (1, 0):
            raise Unsupported("other layout")
        # i-th row: label x_i of the list [head, rows...], value of the list [rows..., tail]
        R.ob("one row per value and one more", "event", And(Iff(v[1][0], e.mem), Iff(x[1][0], e.mem)), "pointwise")
        R.ob("values are the values taken, in order", "event", Implies(e.mem, vsame(v[1][1], V(FALSE, m.x))), "pointwise")
        R.ob("labels are the scaled cumulative shares", "event", Implies(e.mem, vsame(x[1][1], scaled(e.fn.post, s))), "pointwise")
        R.ob("starts at 0", "rigid", vsame(tov(scal_or(x[0][0])), num(0)), "pointwise")
        top = tov(scal_or(v[2][0]))
        R.ob("ends at the maximum", "event", Implies(e.mem, And(top.fin, m.x <= top.r)), "pointwise")
        R.ob("ends at a value taken", "final", seen(And(e.mem, m.x == top.r))[0], "pointwise")
        started = seen(e.mem)[0]
        i = scal(r.initial_value)
        if i is None:
            raise Unsupported("initial value of type %s" % type(r.initial_value).__name__)
        R.ob("starts at the minimum", "event", Implies(And(e.mem, Not(started)), vsame(tov(i), V(FALSE, m.x))), "pointwise")
        if not (r._valid_values and not r._valid_deltas):
            raise Bad("rep", "validity flags do not match the columns")
        R.frames(r)
    return Task("%s.from_ecdf" % which, "%s.from_ecdf[%s]" % (which, form), run, c9case)


def xsample(which, how):
    """the midpoint of the two one-sided limits"""
    def run(R):
        D = dmod(R)
        cls = getattr(D, which)
        o = Operand(R.sc, "f", "V", "left", cls=cls)
        R.operands.append(o)
        m = M()
        q = R.point("p")
        lims = {s: m.rigid_value("limit_" + s) for s in ("left", "right")}
        arg = lab(q)

        def limit(self, x, side="right", *a, **k):
            if self is not o.obj or a or k or scal(x) is None or not tov(scal(x)).r.eq(q):
                raise Unsupported("limit of something else")
            if side not in lims:
                raise Odd("pointwise", "limit from side %r" % (side,))
            R.callees.add("limit")
            return Num(lims[side], "np")
        with swapped((R.sc.Stairs, "limit", limit)):
            r = o.obj.sample(arg) if how == "sample" else o.obj(arg)
        c = scal(r)
        if c is None:
            raise Unsupported("sample of type %s" % type(r).__name__)
        a, b = lims["left"], lims["right"]
        R.ob("midpoint of the limits", "rigid", vsame(tov(c), V(Or(a.nan, b.nan), (a.r + b.r) / 2)), "pointwise")
        R.frames()
    return Task("Xtiles.sample", "%s.%s" % (which, how), run, c9case)


def median():
    def run(R):
        m = M()
        med = m.rigid_value("percentile50")
        f = R.operand("f", "V")
        asked = []

        class P:
            def __call__(self, p, *a, **k):
                c = scal(p)
                if a or k or c is None:
                    raise Unsupported("percentile of %s" % type(p).__name__)
                asked.append(tov(c))
                same = And(Not(tov(c).nan), tov(c).r == 50)
                return Num(vite(same, med, m.rigid_value("other percentile")), "np")

            sample = __call__

        class Q:
            def __call__(self, p, *a, **k):
                return P()(p * 100, *a, **k)

            sample = __call__

        class DistStub:
            percentile, fractile = P(), Q()
        with swapped((f.obj, "dist", DistStub())):
            r = f.obj.median()
            s = f.obj.agg("median")
        for x, n in ((r, "median"), (s, "agg('median')")):
            c = scal(x)
            if c is None:
                raise Unsupported("median of type %s" % type(x).__name__)
            R.ob("%s is percentile(50)" % n, "rigid", vsame(tov(c), med), "pointwise")
        R.frames()
    return Task("median", "median", run, c9case)


def mode():
    """a value of maximal total length"""
    def run(R):
        m = M()
        L = Lengths(R)
        f = R.operand("f", "S")          # the receiver is only passed on
        got = []

        def vs(self, dropna=True, group=True):
            if self is not f.obj or not dropna or not group:
                raise Unsupported("value_sums of something else")
            got.append(1)
            R.callees.add("value_sums")
            return L.series()
        subst = [(R.sc.Stairs, "value_sums", vs)]
        if "value_sums" in smod(R).__dict__:
            subst.append((smod(R), "value_sums", vs))
        with swapped(*subst):
            r = f.obj.mode()
        c = scal(r)
        if c is None:
            raise Unsupported("mode of type %s" % type(r).__name__)
        c = tov(c)
        best = m.rigid_value("longest", nan=False)
        R.ob("is a number", "rigid", c.fin, "pointwise")
        hit = And(L.mem, m.x == c.r)
        R.ob("is a value taken", "final", seen(hit)[0], "pointwise")
        # whatever length the mode has, no value has a greater one
        at = hold(hit, L.len, num(0), "modelen")[0]
        over = m.rigid_value("someone", nan=False)
        m.FIN.append(best.r == at.r)
        big = seen(And(L.mem, L.len.r > best.r))[0]
        m.lemmas += [Implies(seen(hit)[0], at.r == v.r) for v, n in m.rigidv if n == "idxmax.max"]
        m.lemmas += [Implies(best.r == v.r, Not(big)) for v, n in m.rigidv if n == "idxmax.max"]
        R.ob("no value has a greater total length", "final", Not(big), "pointwise")
        R.frames()
    return Task("mode", "mode", run, c9case)


def quantiles(n):
    def run(R):
        D = dmod(R)

        class Frac:
            def __call__(self, x, *a, **k):
                return ("fractiles", x)

            sample = __call__
        d = D.Dist(object())
        with swapped((D.Dist, "fractile", Frac())):
            r = d.quantiles(n)
        if not (isinstance(r, tuple) and r[0] == "fractiles"):
            raise Unsupported("quantiles not through fractile")
        x = r[1]
        x = list(x) if not isinstance(x, list) else x
        if len(x) != n - 1 or any(scal(v) is None for v in x):
            raise Bad("pointwise", "%d fractiles for quantiles(%d)" % (len(x), n))
        for i, v in enumerate(x):
            R.ob("fractile at i/n", "rigid", vsame(tov(scal(v)), V(FALSE, rv(Fraction(i + 1, n)))), "pointwise")
        R.ob("as many as there are cuts", "rigid", TRUE, "pointwise")
    return Task("Dist.quantiles", "quantiles[%d]" % n, run, c9case)


class Bins:
    """an IntervalIndex: one generic bin (left < right) per event"""

    def __init__(self, closed):
        m = M()
        self.closed = closed
        self.mem = m.input_bool("bin")
        m.E.append(self.mem)
        self.l, self.r = V(FALSE, m.input_real("bin.left")), V(FALSE, m.input_real("bin.right"))
        m.U.append(Implies(self.mem, self.l.r < self.r.r))
        self.rows = Rows(self.mem)
        self.left, self.right = Arr(self.rows, Buf(Col(self.l))), Arr(self.rows, Buf(Col(self.r)))

    def map(self, f):
        from .mods import Gen

        class I:
            left, right = Gen(self.rows, self.l), Gen(self.rows, self.r)
            length = Gen(self.rows, vsub(self.r, self.l))
        g = f(I)
        if not isinstance(g, Gen):
            raise Unsupported("bins.map")
        return Arr(self.rows, Buf(Col(g.cell)))

    @property
    def length(self):
        return Arr(self.rows, Buf(Col(vsub(self.r, self.l))))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("IntervalIndex." + k)


class Whole(Num):
    """a real that can be rounded to a whole number"""

    def __init__(self, v):
        super().__init__(v, "np")

    def _round(self, up):
        m, v = M(), self.v
        if m.branch(v.nan):
            raise Unsupported("rounding of a missing value")
        k = z3.ToReal(z3.Int(m.name("ceil" if up else "floor")))
        m.P.append(And(v.r <= k, k < v.r + 1) if up else And(k <= v.r, v.r < k + 1))
        return Num(V(FALSE, k), "py")

    def __floor__(self):
        return self._round(False)

    def __ceil__(self):
        return self._round(True)


class Ends:
    """the step points of a distribution: the values taken, of which only the least and the greatest are asked for"""

    def __init__(self, lo, hi):
        self.lo, self.hi = Whole(lo), Whole(hi)

    def min(self):
        return self.lo

    def max(self):
        return self.hi

    def __getitem__(self, k):
        if k == 0:
            return self.lo
        if k == -1:
            return self.hi
        raise Unsupported("step points [%r]" % (k,))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("step points: " + k)

    def __iter__(self):
        raise Unsupported("iteration over the step points")


def hist(stat, closed, given):
    """given: 'index' an IntervalIndex (its own side counts), 'breaks' a sequence (the requested side counts), 'unit' whole numbers
    covering the values taken"""
    def run(R):
        m = M()
        D = dmod(R)
        bins = Bins(closed)
        other = {"left": "right", "right": "left"}[closed]
        breaks = [1, 2]          # stands for any sequence
        extra = []
        if given == "unit":
            lo, hi = V(FALSE, z3.Real("least")), V(FALSE, z3.Real("greatest"))
            m.P.append(lo.r <= hi.r)
            ends = Ends(lo, hi)
            first, last = z3.ToReal(z3.Int("first")), z3.ToReal(z3.Int("last"))     # the breaks asked for
            if closed == "left":
                m.P += [first <= lo.r, lo.r < first + 1, last - 1 <= hi.r, hi.r < last]
            else:
                m.P += [first < lo.r, lo.r <= first + 1, last - 1 < hi.r, hi.r <= last]

            def whole(name):
                import builtins
                import math
                return lambda *a, **k: a[0].__getattribute__(name)() if len(a) == 1 and not k and isinstance(a[0], Ends) else getattr(builtins, name)(*a, **k)

            def rng(*a):
                if not any(isinstance(x, Num) for x in a):
                    return range(*a)
                if any(isinstance(x, Num) and x.kind != "py" for x in a):
                    raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
                return arange(*a)

            def arange(*a):
                if len(a) == 1:
                    a = (0,) + a
                if len(a) == 3 and a[2] != 1:
                    raise Odd("pointwise", "unit bins of another width")
                x, y = [tov(scal(q)) for q in a[:2]]
                R.ob("unit bins from the greatest whole number that leaves no value out", "rigid", x.r == first, "pointwise")
                R.ob("unit bins up to the least whole number that leaves no value out", "rigid", y.r == last + 1, "pointwise")
                return breaks
            extra = [(D, "min", whole("min")), (D, "max", whole("max")), (D, "range", rng), (D.np, "arange", arange),
                     (D.np, "floor", lambda x: Num(x.__floor__().v, "np")), (D.np, "ceil", lambda x: Num(x.__ceil__().v, "np")),
                     (R.sc.Stairs, "step_points", property(lambda self: ends))]
        o = Operand(R.sc, "F", "V", "left", cls=D.ECDF)
        R.operands.append(o)
        T = m.rigid_value("total", nan=False)
        m.P.append(T.r > 0)
        o.obj._denormalize_probability_factor = Num(T, "np")
        lims = {(e, s): V(FALSE, m.input_real("F(%s,%s)" % (e, s))) for e in ("l", "r") for s in ("left", "right")}
        made = []

        def limit(self, x, side="right", *a, **k):
            if self is not o.obj or a or k or side not in ("left", "right"):
                raise Unsupported("limit of something else")
            x = x.values if isinstance(x, (Series, Index)) else x
            if not isinstance(x, Arr) or x.rows.mem is not bins.rows.mem and not x.rows.mem.eq(bins.mem):
                raise Unsupported("limit at other points")
            c = tov(x.buf.col.val)
            e = "l" if c.r.eq(bins.l.r) else "r" if c.r.eq(bins.r.r) else None
            if e is None:
                raise Unsupported("limit at other points")
            R.callees.add("limit")
            return Arr(bins.rows, Buf(Col(lims[e, side])))

        class IntervalIndex:
            @staticmethod
            def from_breaks(b, closed="right", **k):
                if b is not breaks or k:
                    raise Unsupported("from_breaks of something else")
                made.append(closed)
                bins.closed = closed
                return bins
        Bins.__class_getitem__ = None
        pd = D.pd
        with swapped((R.sc.Stairs, "limit", limit), (pd, "IntervalIndex", IntervalIndex), *extra):
            IntervalIndex.__instancecheck__ = None
            Meta = type("Meta", (type,), {"__instancecheck__": lambda c, x: isinstance(x, Bins)})
            pd.IntervalIndex = Meta("IntervalIndex", (), {"from_breaks": IntervalIndex.from_breaks})
            res = {}

            def series(data=None, index=None, **k):
                if k.get("dtype") is not None or index is not bins:
                    raise Unsupported("Series of the histogram")
                res["data"] = data
                return res
            with swapped((pd, "Series", Meta2(series))):
                r = o.obj.hist({"index": bins, "breaks": breaks, "unit": "unit"}[given], closed=other if given == "index" else closed, stat=stat)
        if given != "index" and (not made or made[-1] != closed):
            raise Bad("pointwise", "bins closed on the wrong side")
        if r is not res or "data" not in res:
            raise Unsupported("histogram of type %s" % type(r).__name__)
        a = res["data"]
        a = a.values if isinstance(a, Series) else a
        if not isinstance(a, Arr) or a.zero is not None:
            raise Unsupported("histogram data")
        got = tov(a.buf.col.val)
        share = vsub(lims["r", closed], lims["l", closed])
        width = vsub(bins.r, bins.l)
        area = vmul(share, V(FALSE, T.r))
        R.ob("one entry per bin", "event", Iff(a.rows.mem, bins.mem), "pointwise")
        if stat == "probability":
            want = share
        elif stat == "sum":
            want = area
        elif stat == "frequency":
            want = e_div(area, width)
        else:
            # heights in proportion to the length, total area one
            sums = [v for v, n in m.rigidv if n == "sum"]
            if len(sums) != 1:
                raise Unsupported("normalisation of the density")
            total = sums[0]
            acc, _ = accum(bins.mem, vmul(area, width))
            R.ob("normalised by the total area", "final", total.r == acc.r, "pointwise")
            want = e_div(area, total)
        some = total.r != 0 if stat == "density" else TRUE        # nothing in any bin: no density
        R.ob("amount in the bin", "event", Implies(And(bins.mem, some), vsame(got, want)), "pointwise")
        R.frames()
    return Task("ECDF.hist", "hist[%s,%s,%s]" % (stat, closed, given), run,
                lambda R, c: [x for sb in ("index", "breaks") for x in c9case(R, c, stat=stat, bclosed=closed)])


def describe(how, percs):
    """the statistics of the function over the window, by name, in order"""
    def run(R):
        inf = R.sc.inf
        a, b = Num(V(FALSE, z3.Real("lo")), "np"), Num(V(FALSE, z3.Real("hi")), "np")
        where = {"all": None, "none": (None, None), "infs": [-inf, inf], "both": (a, b), "list": [a, b], "lower": (a, None), "upper": (-inf, b)}[how]
        count = Num(V(FALSE, z3.Real("number of values")), "py")
        one = Num(V(FALSE, rv(1)), "py")
        memo = {}

        def end(x):
            return None if x is None or type(x).__name__ in ("Inf", "NegInf") else x

        class Other:
            def __getattr__(self, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                raise Unsupported("describe: ." + k)

            def __iter__(self):
                raise Unsupported("describe: iteration")

        class Pct(Other):
            def __init__(self, of):
                self.of = of

            def __call__(self, q):
                return ("percentile", self.of, q)

            def clip(self, lower=-inf, upper=inf):
                if lower != 0 or upper != 100:
                    raise Unsupported("clipped percentiles")
                r = Other()
                r.number_of_steps = count + one if self.of == whole else ("steps", self.of)
                return r

        class VS(Other):
            def __len__(self):
                raise Unsupported("len of the value sums")

        class Fake(Other):
            def __init__(self, window):
                self.window = window
                for k in ("mean", "std", "min", "max", "median", "var", "mode", "integral"):
                    setattr(self, k, lambda k=k: (k, self.window))

            @property
            def percentile(self):
                return Pct(self.window)

            @property
            def dist(self):
                r = Other()
                r.percentile = Pct(self.window)
                return r

            def clip(self, lower=-inf, upper=inf):
                if self.window != (None, None):
                    raise Unsupported("clipped twice")
                return Fake((end(lower), end(upper)))

            def agg(self, name, where=(-inf, inf), closed=None):
                # the rule for the ends of the window concerns the values right at the ends, which have no length
                if not isinstance(name, str) or name in ("min", "max") or closed is not None or self.window != (None, None):
                    raise Unsupported("aggregate %r" % (name,))
                return (name, tuple(end(x) for x in where))
        whole = (None, None) if where is None else tuple(end(x) for x in where)
        got = {}

        def series(data=None, **k):
            if not isinstance(data, dict) or k:
                raise Unsupported("Series of the description")
            got["d"] = data
            return got
        S_ = R.sc.core.stairs
        kw = {} if percs is None else {"percentiles": percs}
        if where is not None:
            kw["where"] = where
        with swapped((S_.pd, "Series", Meta2(series))):
            r = R.sc.Stairs.describe(Fake((None, None)), **kw)
        if r is not got:
            raise Unsupported("description of type %s" % type(r).__name__)
        ps = (25, 50, 75) if percs is None else percs
        want = [("mean", ("mean", whole)), ("std", ("std", whole)), ("min", ("min", whole))] + \
            [("%s%%" % p, ("percentile", whole, p)) for p in ps] + [("max", ("max", whole))]
        d = dict(got["d"])
        if list(d) != ["unique"] + [k for k, _ in want]:
            raise Odd("pointwise", "the description lists %r" % (list(d),))
        u = d["unique"]
        if not isinstance(u, Num):
            raise Odd("pointwise", "unique is %r" % (u,))
        R.ob("number of distinct values", "rigid", u.v.r == count.v.r, "pointwise")
        for k, w in want:
            if d[k] != w:
                raise Odd("pointwise", "%s is %r" % (k, d[k]))
            R.ob("%s over the window" % k, "rigid", TRUE, "pointwise")
        R.frames()
    return Task("Stairs.describe", "describe[%s,%s]" % (how, "default" if percs is None else "/".join(map(str, percs))), run, describecase)


def describecase(R, c):
    return [x for x in c9case(R, c) if x["order"][0] == "ecdf"] and \
        [dict(x, order=["describe"], win=w, dw=dw) for x in c9case(R, c)[:4] for w in ([None, None], [2, 9], [None, 5]) for dw in (True, False)]


class Meta2:
    """stands for pd.Series as a constructor only"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def distcache(what):
    """dist.ecdf / percentile / fractile are those of the function, now and when asked again"""
    def run(R):
        D = dmod(R)
        o = R.operand("f", "V")
        e = Operand(R.sc, "F", "D", "left", cls=D.ECDF)
        made = []

        def from_stairs(s):
            made.append(s)
            if s is not o.obj:
                raise Odd("pointwise", "the distribution of another function")
            return e.obj

        def maker(kind):
            def from_ecdf(cls, x):
                if x is not e.obj:
                    raise Odd("pointwise", "made from another distribution")
                return (kind, cls.__name__)
            return from_ecdf
        subst = [(D.ECDF, "from_stairs", staticmethod(from_stairs))]
        subst += [(getattr(D, k), "from_ecdf", classmethod(maker(k))) for k in ("Percentiles", "Fractiles")]
        with swapped(*subst):
            for n in range(2):
                d = o.obj.dist
                if what == "ecdf":
                    if d.ecdf is not e.obj:
                        raise Odd("pointwise" if n == 0 else "cache", "not the distribution of the function")
                else:
                    want = {"percentile": "Percentiles", "fractile": "Fractiles"}[what]
                    if getattr(d, what) != (want, want):
                        raise Odd("pointwise" if n == 0 else "cache", "%s is %r" % (what, getattr(d, what)))
            if what == "ecdf":
                for k, w in (("percentiles", "Percentiles"), ("fractiles", "Fractiles")):
                    if hasattr(D.ECDF, k) and getattr(e.obj, k)() != (w, w):
                        raise Odd("pointwise", k)
        R.ob("made from this function, once or again", "rigid", TRUE, "pointwise")
        R.ob("the same when asked again", "rigid", TRUE, "cache")
        R.frames()
    return Task("Dist." + what, "dist.%s" % what, run, c9case)


def variance(which):
    """var is the mean over (0, 100) of (percentile - mean)^2, std its root"""
    def run(R):
        m = M()
        D, S = dmod(R), smod(R)
        f = R.operand("f", "S")         # the receiver is only passed on
        mu = m.rigid_value("mean", nan=False)
        if which == "std":
            v = m.rigid_value("variance")
            m.P.append(Implies(Not(v.nan), v.r >= 0))

            def var(self):
                if self is not f.obj:
                    raise Unsupported("var of another function")
                R.callees.add("var")
                return Num(v, "np")
            with swapped((S, "var", var), (R.sc.Stairs, "var", var)):
                r = f.obj.std()
            c = scal(r)
            if c is None:
                raise Unsupported("std of type %s" % type(r).__name__)
            R.ob("root of the variance", "rigid", vsame(tov(c), V(v.nan, SQRT(v.r))), "pointwise")
            R.frames()
            return
        # the percentile function: rows at 0 and at 100, no missing values, possibly redundant rows
        mem = m.input_bool("P.row")
        val = V(FALSE, m.input_real("P.val"))
        zero, hundred = rv(0), rv(100)
        for q in (zero, hundred):
            m.point(q)
        m.U.append(Implies(Or(m.x == 0, m.x == 100), mem))
        m.U.append(Implies(mem, And(m.x >= 0, m.x <= 100)))
        m.E.append(And(mem, m.x == 0))
        m.E.append(And(mem, m.x == 100))
        init = m.rigid_value("minimum", nan=False)
        m.U.append(Implies(m.x == 0, val.r == init.r))
        # contract of mean: between the least value (percentile at 0) and the greatest (percentile at 100)
        m.P.append(init.r <= mu.r)
        m.U.append(Implies(m.x == 100, mu.r <= val.r))
        P = D.Percentiles._new(Num(init, "np"), DataFrame._mk(Index(Rows(mem)), {"value": Buf(Col(val))}), "left")
        pre, post = hold(mem, val, init, "P")
        want = Fn(*[vmul(vsub(k, mu), vsub(k, mu)) for k in (init, pre, post)])
        R.know(Fn(init, pre, post), want)
        R.refs.append(want)
        I = m.rigid_value("integral", nan=False)
        asked = []

        def mean(self):
            if self is not f.obj:
                raise Unsupported("mean of another function")
            R.callees.add("mean")
            return Num(mu, "np")

        def agg(self, name, where=(-R.sc.inf, R.sc.inf), closed=None):
            where = tuple(where)
            if name not in ("integral", "mean") or asked or len(where) != 2 or scal(where[0]) is None or scal(where[1]) is None or \
                    where[0] != 0 or where[1] != 100:
                raise Unsupported("aggregate %r over %r" % (name, where))
            return query(self, name)

        def query(self, name):
            asked.append(name)
            R.callees.add("agg")
            df = self._data
            if df is None or not self._valid_values:
                raise Unsupported("another form")
            # on [0, 100) the function is (percentile - mean)^2
            k = df.index.rows.mem
            nv = cellv(df.cols["value"])
            i0 = scal(self.initial_value)
            a, b = hold(k, nv, tov(i0), "sq")
            inside = And(m.x >= 0, m.x < 100)
            R.ob("squared distance from the mean on [0, 100)", "event", Implies(inside, vsame(b, want.post)), "pointwise")
            return Num(I if name == "integral" else V(FALSE, I.r / 100), "np")

        class DistStub:
            percentile = P
        with swapped((f.obj, "dist", DistStub()), (S, "mean", mean), (R.sc.Stairs, "mean", mean), (R.sc.Stairs, "agg", agg), (S, "agg", agg)):
            r = f.obj.var()
        c = scal(r)
        if c is None or not asked:
            raise Unsupported("var of type %s" % type(r).__name__)
        R.ob("mean of the squared distance over (0, 100)", "rigid", vsame(tov(c), V(FALSE, I.r / 100)), "pointwise")
        R.frames()
    return Task(which, which, run, c9case)


def xcopy(which, form):
    """a copy is the same function, of the same kind, and shares nothing"""
    def run(R):
        m = M()
        D = dmod(R)
        cls = getattr(D, which)
        o = Operand(R.sc, "f", form, "left", cls=cls)
        R.operands.append(o)
        R.know(o.fn)
        if which == "ECDF":
            T = m.rigid_value("total", nan=False)
            o.obj._denormalize_probability_factor = Num(T, "np")
        r = o.obj.copy()
        if type(r) is not cls:
            raise Bad("pointwise", "copy of type %s" % type(r).__name__)
        R.fn_is(r, o.fn, "left")
        if which == "ECDF":
            c = scal(r._denormalize_probability_factor)
            if c is None:
                raise Unsupported("total length")
            R.ob("keeps the total length", "rigid", vsame(tov(c), T), "pointwise")
        R.frames(r)
    return Task(which + ".copy", "%s.copy[%s]" % (which, form), run, c9case)


def public(what):
    """Stairs.ecdf / percentile / fractile hand out copies; hist and quantiles pass their arguments on"""
    def run(R):
        m = M()
        o = R.operand("f", "V")
        calls = []

        class Obj:
            def __init__(self, name):
                self.name = name

            def copy(self):
                return ("copy", self.name)

            def __call__(self, *a, **k):
                calls.append((self.name, a, k))
                return ("result", self.name)

        class DistStub:
            ecdf, fractile, percentile = Obj("ecdf"), Obj("fractile"), Obj("percentile")
            hist, quantiles = Obj("hist"), Obj("quantiles")
        with swapped((o.obj, "dist", DistStub())):
            if what in ("ecdf", "fractile", "percentile"):
                r = getattr(o.obj, what)
                if r != ("copy", what):
                    if isinstance(r, Obj):
                        raise Bad("frame", "hands out the cached object")
                    raise Unsupported("%s of type %s" % (what, type(r).__name__))
            elif what == "hist":
                for a, k, want in (((), {}, ("unit", "left", "sum")), (([0, 2],), {"closed": "right"}, ([0, 2], "right", "sum")),
                                   ((), {"stat": "density", "bins": [1, 2]}, ([1, 2], "left", "density")), (([0, 2], "right", "frequency"), {}, ([0, 2], "right", "frequency"))):
                    del calls[:]
                    r = o.obj.hist(*a, **k)
                    if len(calls) != 1 or calls[0][0] != "hist" or r != ("result", "hist"):
                        raise Unsupported("hist not passed on")
                    _, p, q = calls[0]
                    got = dict(zip(("bins", "closed", "stat"), p), **q)
                    full = dict(dict(zip(("bins", "closed", "stat"), ("unit", "left", "sum"))), **got)
                    if (full["bins"], full["closed"], full["stat"]) != want:
                        raise Odd("pointwise", "hist called with %s" % (full,))
            else:
                r = o.obj.quantiles(7)
                if r != ("result", "quantiles") or [c[:1] + tuple(c[1]) + tuple(c[2].values()) for c in calls] != [("quantiles", 7)]:
                    raise Unsupported("quantiles not passed on")
        R.ob("is that of the distribution", "rigid", TRUE, "pointwise")
        R.ob("hands out no cached object", "rigid", TRUE, "frame")
        R.frames()
    return Task("Stairs." + what, "public %s" % what, run, c9case)
