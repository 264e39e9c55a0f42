"""Contracts of slicing (core/slicing.py).

One generic slice per event; the slice itself is known through the contract of clip (the
function restricted to the interval), its statistics through the contracts of C08 - C10.
"""
from .contracts import *
from .contracts import V, lab, scal_or
from .core import *
from .dist import *
from .dist import Meta2, smod, swapped
from .shim import Arr, DataFrame, NoAttr, Series, e_fmax, e_fmin, hold, isb, seen
from .stubs import abstract, patched, value_of

STATS = {"mean": "mean", "integral": "integral", "median": "median", "mode": "mode", "_max": "max", "_min": "min"}


def kmod(R):
    return R.sc.core.slicing


def c11case(R, c, **k):
    f = {"init": 0.0, "steps": [[0, 1.0], [2, 3.0], [4, "nan"], [6, -2.0], [10, 3.0], [12, 0.0]], "route": "values", "form": "raw"}
    g = {"init": 2.0, "steps": [[0, 1.0], [2, 3.0], [4, 0.5], [6, -2.0], [10, 3.0], [12, 0.0]], "route": "values", "form": "raw"}
    ivs, qs = [[0, 4], [4, 7], [7, 12]], ["mean", "integral", "min", "max", "median", "mode", "apply", "hist", "uhist"]
    out = []
    for d in ("float", "ts"):
        for s in ("left", "right"):
            for h in ("left", "right", "both", "neither"):
                out += [{"kind": "c11", "dom": d, "f": dict(x, closed=s), "ivs": ivs, "iclosed": h, "order": qs + qs, "how": n} for x in (f, g) for n in (0, 1)]
            out += [{"kind": "resample", "dom": d, "f": dict(x, closed=s), "cuts": [0, 4, 7, 12], "stat": q, "iclosed": "left"}
                    for x in (f, g) for q in ("mean", "max", "median", "integral")]
    return out


class Piece(NoAttr):
    """the function restricted to the generic slice"""

    def __init__(self, T):
        self.__dict__["T"] = T

    def _stat(self, name):
        return self.T.stat(name)

    def __getattr__(self, k):
        if k in ("mean", "integral", "median", "mode", "max", "min"):
            return lambda: Num(self._stat(k), "np")
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        raise Unsupported("attribute %s of a slice" % k)


class Slices(NoAttr):
    """an IntervalIndex with a generic interval left < right"""

    def __init__(self, T, closed):
        m = M()
        self.T, self.closed = T, closed
        self.mem = m.input_bool("slice")
        m.E.append(self.mem)
        self.l, self.r = V(FALSE, m.input_real("slice.left")), V(FALSE, m.input_real("slice.right"))
        m.U.append(Implies(self.mem, self.l.r < self.r.r))
        self.rows = Rows(self.mem)
        self.left, self.right = Arr(self.rows, Buf(Col(self.l))), Arr(self.rows, Buf(Col(self.r)))

    def map(self, f):
        class I:
            left, right, closed = Num(self.l), Num(self.r), self.closed
        return Mapped(f(I))

    def __iter__(self):
        raise Unsupported("iteration over the slices")

    @property
    def length(self):
        class L:
            @staticmethod
            def min():
                return Num(M().rigid_value("shortest", nan=False), "np")
            max = min
        return L


class Mapped(NoAttr):
    def __init__(self, v):
        self.v = v

    @property
    def values(self):
        return self

    def to_list(self):
        return self

    tolist = to_list


class SliceSeries(NoAttr):
    """Series of slices on their index"""

    def __init__(self, T, index):
        self.T, self.index = T, index

    def map(self, f, *a, **k):
        if a or k:
            raise Unsupported("map options")
        return self.T.over(f, (), {})

    def apply(self, f, args=(), **k):
        return self.T.over(f, args, k)


class Out(NoAttr):
    """per-slice result of a function that is not a statistic of its own"""

    def __init__(self, v, filled=None):
        self.v, self.filled = v, filled

    def fillna(self, v):
        return Out(self.v, v)


class T:
    """one run: the function, its slices, what was asked of them"""

    def __init__(self, R, closed, icl):
        self.R, self.f = R, R.operand("f", "V", closed)
        self.ii = Slices(self, icl)
        m = M()
        self.piece = Piece(self)
        self.stats = {}
        self.lims = {(e, s): m.input_value("f(%s,%s)" % (e, s)) for e in ("l", "r") for s in ("left", "right")}
        self.probes = []

    def stat(self, name):
        if name not in self.stats:
            self.stats[name] = M().input_value("stat." + name)
            self.R.callees.add(name)
        return self.stats[name]

    def series(self, v):
        rows = self.ii.rows
        return Series._mk(Index(rows, "pos", root=rows), Buf(Col(v)))

    def over(self, f, args, k):
        S = smod(self.R)
        for n, w in STATS.items():
            if f is S.__dict__.get(n) or f is getattr(self.R.sc.Stairs, w, None) or f == w:
                if args or k:
                    raise Unsupported("options of %s" % w)
                return self.series(self.stat(w))
        r = f(self.piece, *args, **k)
        if isinstance(r, Num):
            return self.series(r.v)
        return Out(r)

    def __enter__(self):
        R, t = self.R, self
        m = M()

        def clipped(self, lower=None, upper=None):
            if self is not t.f.obj:
                raise Unsupported("clip of another function")
            a, b = scal(lower), scal(upper)
            if a is None or b is None or not tov(a).r.eq(t.ii.l.r) or not tov(b).r.eq(t.ii.r.r):
                raise Odd("pointwise", "restricted to something other than the interval")
            R.callees.add("clip")
            return t.piece

        def where(self, other):
            if not isinstance(other, tuple) or len(other) != 2:
                raise Unsupported("where")
            return clipped(self, *other)

        def limit(self, x, side="right", include_index=False):
            if self is not t.f.obj or include_index or side not in ("left", "right"):
                raise Unsupported("limit")
            x = x.values if isinstance(x, (Series, Index)) else x
            if not isinstance(x, Arr) or x.zero is not None:
                raise Unsupported("limit at %s" % type(x).__name__)
            c = tov(x.buf.col.val)
            e = "l" if c.r.eq(t.ii.l.r) else "r" if c.r.eq(t.ii.r.r) else None
            if e is None or not x.rows.mem.eq(t.ii.mem):
                raise Unsupported("limit at other points")
            R.callees.add("limit")
            return Arr(t.ii.rows, Buf(Col(t.lims[e, side])))

        def sample(self, x, include_index=False):
            return limit(self, x, "right" if t.f.closed == "left" else "left", include_index)

        def series(data=None, index=None, **k):
            if index is not t.ii or k:
                raise Unsupported("Series on another index")
            if isinstance(data, Mapped) and data.v is t.piece:
                return SliceSeries(t, t.ii)
            raise Unsupported("Series of %s" % type(data).__name__)

        def hist(self, *a, **k):
            t.probes.append((self, a, k))
            return ("hist", len(t.probes))
        K = kmod(R)
        C = R.sc.Stairs
        subst = [(C, "clip", clipped), (C, "where", where), (C, "limit", limit), (C, "sample", sample), (C, "__call__", sample),
                 (C, "hist", hist), (K.pd, "Series", Meta2(series))]
        if "clip" in K.__dict__:
            subst.append((K, "clip", clipped))
        Meta = type("Meta", (type,), {"__instancecheck__": lambda c, x: isinstance(x, Slices)})
        subst.append((K.pd, "IntervalIndex", Meta("IntervalIndex", (), {})))
        self.cm = swapped(*subst)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)

    def slicer(self):
        s = self.f.obj.slice(self.ii)
        return s


def slicestat(name, closed, icl, twice=False):
    """each statistic is that of the function restricted to the interval; min / max honour its end points"""
    def run(R):
        t = T(R, closed, icl)
        with t:
            s = t.slicer()
            r = getattr(s, name)()
            r2 = getattr(s, name)() if twice else None
            if not (s._stairs is t.f.obj):
                raise Unsupported("the slicer keeps something else")
        for n, x in enumerate([r, r2] if twice else [r]):
            x = x.values if isinstance(x, Series) else x
            if not isinstance(x, Arr) or x.zero is not None:
                raise Unsupported("%s of type %s" % (name, type(x).__name__))
            got, want = tov(x.buf.col.val), t.stat(name)
            if name in ("max", "min"):
                f = e_fmax if name == "max" else e_fmin
                if closed == "left" and icl in ("right", "both"):
                    want = f(want, t.lims["r", "left" if closed == "right" else "right"])
                elif closed == "right" and icl in ("left", "both"):
                    want = f(want, t.lims["l", "left"])
            R.ob("one entry per slice", "event", Iff(x.rows.mem, t.ii.mem), "pointwise")
            R.ob("the statistic of the restriction%s" % (" (asked again)" if n else ""), "event", Implies(t.ii.mem, vsame(got, want)), "pointwise" if n == 0 else "cache")
        R.frames()
    return Task("StairsSlicer." + name, "slice.%s[%s %s]" % (name, closed, icl), run, lambda R, c: c11case(R, c, stat=name))


def slicecuts(kind, closed):
    """the intervals asked for: as given, between consecutive cuts, or each period up to the start of the next"""
    def run(R):
        t = T(R, "left", closed)
        made = []

        class Start(NoAttr):
            pass

        class End(NoAttr):
            def __init__(self, gap=0):
                self.gap = gap

            def __add__(self, o):
                if o != "1ns":
                    raise Unsupported("an end moved by %r" % (o,))
                return End(self.gap + 1)
            __radd__ = __add__

        class Periods(NoAttr):
            start_time, end_time = Start(), End()

        class Cuts(list):
            pass
        given = t.ii if kind == "intervals" else Periods() if kind == "periods" else Cuts([1])

        class Meta(type):
            def __instancecheck__(c, x):
                return isinstance(x, Slices)

        class II(metaclass=Meta):
            @staticmethod
            def from_breaks(b, closed="right"):
                made.append(("breaks", b is given, closed))
                return t.ii

            @staticmethod
            def from_arrays(l, r, closed="right"):
                made.append(("arrays", isinstance(l, Start) and isinstance(r, End) and r.gap == 1, closed))
                return t.ii
        PMeta = type("PMeta", (type,), {"__instancecheck__": lambda c, x: isinstance(x, Periods)})
        K = kmod(R)
        with t, swapped((K.pd, "IntervalIndex", II), (K.pd, "PeriodIndex", PMeta("PeriodIndex", (), {})), (K.pd, "Timedelta", lambda x, unit=None: x)):
            s = t.f.obj.slice(given, closed=closed) if kind != "intervals" else t.f.obj.slice(given)
        want = {"intervals": [], "cuts": [("breaks", True, closed)], "periods": [("arrays", True, closed)]}[kind]
        if made != want:
            raise Odd("pointwise", "intervals made as %s" % (made,))
        if s._stairs is not t.f.obj or s._interval_index is not t.ii:
            raise Odd("pointwise", "slices something else")
        R.ob("the intervals asked for", "rigid", TRUE, "pointwise")
        R.frames()
    return Task("slice", "slice[%s %s]" % (kind, closed), run, None)


def sliceapply():
    def run(R):
        t = T(R, "left", "left")
        seen_ = []

        def probe(x, *a, **k):
            seen_.append((x, a, k))
            return "answer"
        with t:
            s = t.slicer()
            r = s.apply(probe, 3, key=4)
        if not isinstance(r, Out):
            raise Unsupported("apply of type %s" % type(r).__name__)
        if seen_ != [(t.piece, (3,), {"key": 4})] or r.v != "answer":
            raise Odd("pointwise", "the function is applied to %r" % (seen_,))
        R.ob("applied to the restriction with the given arguments", "rigid", TRUE, "pointwise")
        R.frames()
    return Task("StairsSlicer.apply", "slice.apply", run, None)


def slicehist(a, k):
    def run(R):
        t = T(R, "left", "left")
        with t:
            s = t.slicer()
            r = s.hist(*a, **k)
        if not isinstance(r, Out) or not t.probes:
            raise Unsupported("hist of type %s" % type(r).__name__)
        if [p for p in t.probes] != [(t.piece, tuple(a), k)] or r.v != ("hist", 1):
            raise Odd("pointwise", "hist called with %s" % (t.probes,))
        R.ob("the histogram of the restriction with the given arguments", "rigid", TRUE, "pointwise")
        if r.filled is not None:
            c = scal(r.filled)
            if c is None:
                raise Unsupported("filled with %s" % type(r.filled).__name__)
            R.ob("missing bins count nothing", "rigid", vsame(tov(c), num(0)), "pointwise")
        R.frames()
    return Task("StairsSlicer.hist", "slice.hist[%s]" % (a or k,), run, None)


def sliceagg(names):
    def run(R):
        t = T(R, "left", "right")
        frames = []

        class Frame(NoAttr):
            def __init__(self, data=None, index=None, **k):
                self.index, self.cols = index, dict(data or {})
                frames.append(self)

            def __setitem__(self, k, v):
                self.cols[k] = v
        with t, swapped((kmod(R).pd, "DataFrame", Frame)):
            s = t.slicer()
            r = s.agg(names)
            want = {n: getattr(s, n)() for n in ([names] if isinstance(names, str) else names)}
        if not isinstance(r, Frame):
            raise Unsupported("agg of type %s" % type(r).__name__)
        if list(r.cols) != list(want):
            raise Bad("pointwise", "columns %s" % list(r.cols))
        for n in want:
            x, y = r.cols[n], want[n]
            if not isinstance(x, Series):
                raise Unsupported("column of type %s" % type(x).__name__)
            R.ob("column %s is that statistic" % n, "event", Implies(t.ii.mem, vsame(tov(x.buf.col.val), tov(y.buf.col.val))), "pointwise")
        R.frames()
    return Task("StairsSlicer.agg", "slice.agg[%s]" % (names,), run, None)


# ---- resample ---------------------------------------------------------------------------------------
class Tiling(NoAttr):
    """the ends of consecutive slices that tile [lo, hi]; `sel` picks some of them"""

    def __init__(self, W, sel=None, end=None):
        self.W, self.sel, self.end = W, sel, end

    @property
    def left(self):
        return Tiling(self.W, self.sel, "left")

    @property
    def right(self):
        return Tiling(self.W, self.sel, "right")

    def min(self):
        if self.end != "left" or self.sel is not None:
            raise Unsupported("min of these ends")
        return lab(self.W.lo)

    def max(self):
        if self.end != "right" or self.sel is not None:
            raise Unsupported("max of these ends")
        return lab(self.W.hi)

    @property
    def values(self):
        return self

    is_non_overlapping_monotonic = True
    closed = "left"

    def __getitem__(self, k):
        if isinstance(k, TVal) and isb(k.cell) and self.sel is None:
            return Tiling(self.W, k.cell, self.end)
        if isinstance(k, int) and self.sel is None and (self.end, k) in (("left", 0), ("right", -1)):
            return lab(self.W.lo if k == 0 else self.W.hi)
        raise Unsupported("choice of slices")


class TVal(NoAttr):
    """a value per slice (that of the slice starting at the event)"""

    def __init__(self, W, cell):
        self.W, self.cell = W, cell

    @property
    def index(self):
        return Tiling(self.W)

    @property
    def values(self):
        return self

    def to_numpy(self, *a, **k):
        return self

    def isna(self):
        return TVal(self.W, tov(self.cell).nan)

    isnull = isna

    def notna(self):
        return TVal(self.W, Not(tov(self.cell).nan))

    notnull = notna

    def fillna(self, v):
        return TVal(self.W, vite(tov(self.cell).nan, tov(scal(v)), tov(self.cell)))

    def __invert__(self):
        return TVal(self.W, Not(self.cell))

    def __getitem__(self, k):
        raise Unsupported("choice of values")


def resample(name, fa, ca="left"):
    def run(R):
        m = M()
        f = R.operand("f", fa, ca)
        lo, hi = R.point("lo"), R.point("hi")
        m.P.append(lo < hi)
        # a slice starts at every event `cut` in [lo, hi); its statistic is w
        cut = m.input_bool("cut")
        w = m.input_value("stat")
        m.U += [Implies(m.x == lo, cut), Implies(cut, And(m.x >= lo, m.x < hi))]
        inside = window(lo, hi)

        class W:
            pass
        W.lo, W.hi = lo, hi
        cur0, cur1 = hold(cut, w, VNAN, "stat.of.slice")
        inner = lambda v0, v1: Fn(VNAN, vite(inside[1], v0, VNAN), vite(inside[2], v1, VNAN))
        ref = Fn(*[vite(i, c, v) for i, c, v in zip(inside, (VNAN, cur0, cur1), (f.fn.init, f.fn.pre, f.fn.post))])
        R.know(f.fn, ref)
        R.hint(Fn(*[b2v(c) for c in inside]))
        K, C = kmod(R), R.sc.Stairs
        s = K.StairsSlicer(f.obj, Tiling(W))
        asked = []

        class Made(NoAttr):
            index = Tiling(W)

        def ensure(self):
            self._slices = Made()
            return self

        def stat(self):
            asked.append(1)
            return TVal(W, w)

        def layer(self, start=None, end=None, value=None, **k):
            if k or not isinstance(start, Tiling) or not isinstance(end, Tiling) or (start.end, end.end) != ("left", "right"):
                raise Unsupported("layer of %s" % type(start).__name__)
            if (start.sel is None) != (end.sel is None) or start.sel is not None and not start.sel.eq(end.sel):
                raise Unsupported("layer of different slices")
            fn, c, _ = value_of(R, self, "layer")
            if value is None:
                cell = num(1)
            elif isinstance(value, TVal) and start.sel is None:
                cell = tov(value.cell)
            elif scal(value) is not None:
                cell = tov(scal(value))
            else:
                raise Unsupported("layer of values")
            if m.check(*m.U, *m.P, cut, cell.nan) != z3.unsat:
                raise Unsupported("layer of missing values")
            if start.sel is not None:
                cell = vite(start.sel, cell, num(0))
            a, b = hold(cut, cell, num(0), "layered")
            here = [z3.substitute(t, (w.nan, cur0.nan), (w.r, cur0.r)) for t in (cell.nan, cell.r)]
            m.lemmas.append(Implies(inside[1], vsame(a, V(*here))))
            add = Fn(num(0), vite(inside[1], a, num(0)), vite(inside[2], b, num(0)))
            out = fn.map(lambda p, q: spec.add(A, p, q), add)
            R.callees.add("layer")
            m.known += [(add.init, add.pre, add.post), (out.init, out.pre, out.post)]
            r = abstract(R.sc, out, c)
            if self is f.obj:
                raise Bad("frame", "layers onto the sliced function")
            self.__class__ = type(r)          # in place
            self.__dict__.clear()
            self.__dict__.update(r.__dict__)
            return self
        with swapped((K.StairsSlicer, "_ensure_slices", ensure), (K.StairsSlicer, name, stat), (C, "layer", layer)):
            with patched(R, ("isna", "notna", "mask", "where", "fillna", "add", "subtract", "multiply"), tuples=True):
                r = s.resample(name)
        if not asked:
            raise Unsupported("the statistic is found otherwise")
        R.fn_is(r, ref, ca)
        R.frames(r)
    return Task("StairsSlicer.resample", "resample[%s,%s%s]" % (name, fa, "" if ca == "left" else " right"), run,
                lambda R, c: c11case(R, c, stat="resample"))
