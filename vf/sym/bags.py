"""Contracts of layering vectors of intervals (core/layering.py).

The vectors are collections of any size of triples (start, end, value).  What the function may
depend on is, per point x, the total P of the values of the triples that start at x, the total N
of those that end at x, and the total S0 of those without a start; all three are arbitrary.
Lengths are concrete, they are only ever compared.
"""
from .slices import *
from .slices import V, lab
from .core import *
from .shim import Series as ShimSeries
from .shim import Vec, accum


class Triples:
    """the collection"""

    def __init__(self):
        m = M()
        self.row, self.tot = {}, {}
        for k in ("start", "end"):
            self.row[k] = m.input_bool(k + ".here")
            self.tot[k] = V(FALSE, m.input_real(k + ".total"))
            m.U.append(Implies(Not(self.row[k]), self.tot[k].r == 0))
        self.open = {"start": m.rigid_value("unstarted", nan=False), "end": m.rigid_value("unended", nan=False)}


class BVec(Vec, NoAttr):
    """a vector argument: `role` start / end / value"""

    def __init__(self, t, role, n, kind="f"):
        self.__dict__.update(t=t, role=role, n=n, kind=kind)

    def __len__(self):
        return self.n

    def __iter__(self):
        raise Unsupported("iteration over a vector argument")

    def __getitem__(self, k):
        raise Unsupported("elements of a vector argument")

    def __bool__(self):
        return self.n > 0


class BList(BVec, list):
    def __init__(self, *a):
        list.__init__(self, [None] * a[2])
        BVec.__init__(self, *a)


class BTuple(BVec, tuple):
    def __new__(cls, t, role, n, kind="f"):
        return tuple.__new__(cls, [None] * n)


class BArray(BVec):
    """an array; of values, `coef` times the values"""
    coef = 1

    def __bool__(self):
        raise Unsupported("truth of an array")

    @property
    def ndim(self):
        return 1

    @property
    def shape(self):
        return (self.n,)

    size = property(lambda self: self.n)

    @property
    def dtype(self):
        class D:
            kind = self.kind
            name = {"f": "float64", "i": "int64", "u": "uint64", "b": "bool"}[self.kind]
        return D

    def astype(self, t):
        k = {"int64": "i", int: "i", "int": "i", "float64": "f", float: "f", "float": "f"}.get(t if isinstance(t, (str, type)) else getattr(t, "name", None))
        if k is None or (self.kind == "f" and k == "i"):
            raise Unsupported("astype(%r)" % (t,))
        r = BArray(self.t, self.role, self.n, k)
        r.__dict__["coef"] = self.coef
        return r

    def __neg__(self):
        if self.role != "value":
            raise Unsupported("negated labels")
        if self.kind in "ub":
            raise Bad("pointwise", "values of an unsigned or boolean type are negated")
        r = BArray(self.t, self.role, self.n, self.kind)
        r.__dict__["coef"] = -self.coef
        return r

    def __mul__(self, o):
        if isinstance(o, int) and o == -1:
            return -self
        raise Unsupported("scaled values")

    __rmul__ = __mul__


class BScalar(NoAttr):
    """a zero-dimensional array: one value for all"""
    coef = 1
    role = "value"
    ndim = 0
    shape = ()

    def __init__(self, t, kind, coef=1):
        self.t, self.kind, self.coef = t, kind, coef

    dtype = BArray.dtype

    def astype(self, t):
        return self

    def __len__(self):
        raise TypeError("len() of unsized object")

    def __neg__(self):
        return BScalar(self.t, self.kind, -self.coef)


class BSeries(BVec):
    """Series of labels or values; `plain`: numbered from 0"""
    plain = False

    def __init__(self, t, role, n, kind="f", plain=False):
        BVec.__init__(self, t, role, n, kind)
        self.__dict__["plain"] = plain

    def __bool__(self):
        raise ValueError("truth of a Series")

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported("reset_index without drop")
        return BSeries(self.t, self.role, self.n, self.kind, True)

    @property
    def values(self):
        return BArray(self.t, self.role, self.n, self.kind)

    def to_numpy(self, *a, **k):
        return self.values

    def to_list(self):
        return BList(self.t, self.role, self.n, self.kind)

    tolist = to_list
    dtype = BArray.dtype

    def copy(self, deep=True):
        return self


class BColumn(NoAttr):
    """a column of labels of a BFrame, padded with missing entries"""

    def __init__(self, t, role, n):
        self.t, self.role, self.n = t, role, n

    def __len__(self):
        return self.n

    @property
    def values(self):
        return self

    def to_numpy(self, *a, **k):
        return self


class BFrame(NoAttr):
    def __init__(self, cols, n):
        self.cols, self.n = cols, n

    def __len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n, len(self.cols))

    @property
    def index(self):
        return range(self.n)

    def reindex(self, ix):
        if not isinstance(ix, range) or ix.start != 0 or ix.step != 1 or len(ix) < self.n:
            raise Unsupported("reindex of the intervals")
        return BFrame(self.cols, len(ix))

    def __getitem__(self, k):
        if not isinstance(k, int) or not 0 <= k < len(self.cols):
            raise Unsupported("column %r" % (k,))
        c = self.cols[k]
        return BColumn(c.t, c.role, self.n) if c is not None else BColumn(None, None, self.n)

    @property
    def iloc(self):
        fr = self

        class I:
            def __getitem__(self, k):
                if not isinstance(k, tuple) or len(k) != 2 or k[0] != slice_all:
                    raise Unsupported("iloc of the intervals")
                return fr[k[1]]
        return I()


slice_all = __builtins__["slice"](None) if isinstance(__builtins__, dict) else __builtins__.slice(None)


class Keyed(NoAttr):
    """values by start or end"""

    def __init__(self, t, role, coef):
        self.t, self.role, self.coef = t, role, coef

    def part(self):
        """(rows at the event, total there, total at a missing key)"""
        if self.role is None:
            raise Unsupported("no keys at all")
        v, o = self.t.tot[self.role], self.t.open[self.role]
        return self.t.row[self.role], V(FALSE, v.r * self.coef), V(FALSE, o.r * self.coef)

    @property
    def index(self):
        return KIndex(self)

    def __neg__(self):
        return Keyed(self.t, self.role, -self.coef)

    def __getitem__(self, k):
        if isinstance(k, KMask) and k.of == self.role and not k.neg:
            return Picked(self)
        if isinstance(k, KMask) and k.of == self.role:
            return Present(self)
        raise Unsupported("choice of values")

    loc = property(lambda self: self)


class Present(Keyed):
    """those with a key"""

    def __init__(self, k):
        Keyed.__init__(self, k.t, k.role, k.coef)


class Picked(NoAttr):
    """those without a key"""

    def __init__(self, k):
        self.k = k

    def sum(self):
        return Num(self.k.part()[2] if self.k.role else self.k.t, "np")


class KIndex(NoAttr):
    def __init__(self, k):
        self.k = k

    def isna(self):
        return KMask(self.k.role)

    isnull = isna

    def notna(self):
        return KMask(self.k.role, True)

    notnull = notna


class KMask(NoAttr):
    def __init__(self, of, neg=False):
        self.of, self.neg = of, neg

    def __invert__(self):
        return KMask(self.of, not self.neg)


class Missing(Keyed):
    """all keys missing"""

    def __init__(self, t, total):
        self.t, self.role, self.coef, self.total = t, None, 1, total

    def part(self):
        return FALSE, num(0), self.total

    def __neg__(self):
        return Missing(self.t, V(FALSE, -self.total.r))

    def __getitem__(self, k):
        if isinstance(k, KMask) and k.of is None:
            r = Picked(self)
            r.sum = lambda: Num(self.total, "np")
            return r
        raise Unsupported("choice of values")


class Stack(NoAttr):
    """concatenated series, keys repeated"""

    def __init__(self, parts):
        self.parts = parts

    class _Ix(NoAttr):
        def __init__(self, s):
            self.s = s

    @property
    def index(self):
        return Stack._Ix(self)

    def groupby(self, by=None, level=None, sort=True):
        if not (level == 0 and by is None) and not (level is None and isinstance(by, Stack._Ix) and by.s is self) or not sort:
            raise Unsupported("groupby")
        s = self

        class G(NoAttr):
            def sum(self):
                mem, tot = FALSE, num(0)
                off = None
                for p in s.parts:
                    if isinstance(p, Keyed):
                        r, v, _ = p.part()
                    else:
                        p = p.force()
                        r, v = p.index.rows.mem, tov(p.buf.col.val)
                        if p.index.kind != "x" or p.index.rows.nh or p.index.rows.nt:
                            raise Unsupported("labels")
                    mem = Or(mem, r)
                    tot = vadd(tot, vite(And(r, Not(v.nan)), v, num(0)))
                return ShimSeries._mk(Index(Rows(mem)), Buf(Col(tot)))
        return G()


class FrameArg(NoAttr):
    """the caller's frame"""

    def __init__(self, cols):
        self.cols = cols

    def copy(self, deep=True):
        return FrameArg(dict(self.cols))

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.cols:
            return self.cols[k]
        raise Unsupported("column %r of the frame" % (k,))

    columns = property(lambda self: list(self.cols))


class _SeriesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (ShimSeries, BSeries))

    def __getattr__(cls, k):
        return getattr(ShimSeries, k)

    def __call__(cls, data=None, index=None, **k):
        if isinstance(data, BSeries) and index is None:
            return data
        if isinstance(data, BVec) and index is None:
            if set(k) - {"dtype", "name"} or k.get("dtype") not in (None, "float64", float):
                raise Unsupported("Series options")
            return BSeries(data.t, data.role, data.n, data.kind, True)
        if isinstance(index, BColumn):
            if k.get("dtype") not in (None, "float64", float) or set(k) - {"dtype", "name"}:
                raise Unsupported("Series options")
            if isinstance(data, BArray) or isinstance(data, BScalar):
                t = data.t
                if isinstance(data, BArray) and data.n != index.n:
                    raise Bad("noexc", "%d values for %d intervals" % (data.n, index.n))
                if data.kind in "ub" and isinstance(data, BArray):
                    raise Unsupported("sums of an unsigned or boolean type")
                return Missing(t, V(FALSE, t.all.r * data.coef)) if index.role is None else Keyed(t, index.role, data.coef)
            raise Unsupported("Series of %s by label" % type(data).__name__)
        if isinstance(data, (BVec, BScalar)) or isinstance(index, (BVec, KIndex)):
            raise Unsupported("Series")
        return ShimSeries(data, index=index, **k) if index is not None else ShimSeries(data, **k)


class BagSeries(metaclass=_SeriesMeta):
    pass


def bagged(R, t):
    K = R.sc.core.layering
    pd, np = K.pd, K.np
    concat, isna, array = pd.concat, pd.isna, np.array

    def cc(objs, axis=0, ignore_index=False, **k):
        objs = list(objs)
        if any(isinstance(o, BSeries) for o in objs):
            if axis not in (1, "columns") or not ignore_index or k:
                raise Unsupported("concat of the vectors")
            cols = []
            for o in objs:
                if isinstance(o, BSeries):
                    if not o.plain:
                        raise Unsupported("vectors aligned by label")
                    cols.append(o)
                elif isinstance(o, ShimSeries) and is_f(o.index.rows.mem):
                    cols.append(None)
                else:
                    raise Unsupported("concat of the vectors")
            return BFrame(cols, max(c.n for c in cols if c is not None))
        if axis in (1, "columns") and objs and all(isinstance(o, ShimSeries) and is_f(o.index.rows.mem) for o in objs):
            return BFrame([None] * len(objs), 0)
        if any(isinstance(o, Keyed) for o in objs):
            if axis not in (0, "index") or ignore_index or k:
                raise Unsupported("concat of values")
            return Stack(objs)
        return concat(objs, axis=axis, ignore_index=ignore_index, **k)

    def arr(x, *a, **k):
        if isinstance(x, BVec):
            if a or k:
                raise Unsupported("array options")
            return BArray(x.t, x.role, x.n, x.kind)
        if scal(x) is not None:
            return BScalar(t, "i" if isinstance(x, int) else "f")
        return array(x, *a, **k)

    def na(x):
        if isinstance(x, (BArray, BSeries, BScalar)):
            if x.role != "value":
                raise Unsupported("missing labels")

            class No:
                any = staticmethod(lambda: False)
            return No
        return isna(x)
    return swapped((pd, "concat", cc), (pd, "isna", na), (pd, "isnull", na), (np, "array", arr), (np, "asarray", arr), (pd, "Series", BagSeries))


BOX = {"list": BList, "tuple": BTuple, "array": BArray, "series": BSeries}


def layervec(fa, ns, ne, nv, box="list", kind="f", ca="left"):
    """`ns`, `ne`, `nv`: lengths; 0: not given; nv 's': one value for all"""
    def run(R):
        m = M()
        f = R.operand("f", fa, ca)
        t = Triples()
        t.all = m.rigid_value("all", nan=False)
        if not ns:
            m.U.append(Not(t.row["start"]))
            t.open["start"] = t.all
        if not ne:
            m.U.append(Not(t.row["end"]))
        R.triples = t
        p0, p1 = accum(t.row["start"], t.tot["start"])
        q0, q1 = accum(t.row["end"], t.tot["end"])
        s0 = t.open["start"]
        inc = Fn(s0, vsub(vadd(s0, p0), q0), vsub(vadd(s0, p1), q1))
        ref = f.fn.map(lambda x, y: spec.add(A, x, y), inc)
        R.know(f.fn, ref, inc)
        g = Fn(num(0), vsub(p0, q0), vsub(p1, q1))
        R.know(g)
        m.offsets.append(ref.init)
        m.offsets.append(inc.init)
        f.obj._integral_and_mean = stale = object()
        f.obj.dist._ecdf = stale

        def vec(role, n):
            if not n:
                return None
            if n == "s":
                return Num(m.rigid_value("value", nan=False))
            c = BSeries if box == "frame" else BOX[box]
            return c(t, role, n, kind if role == "value" else "f")
        a, b, v = vec("start", ns), vec("end", ne), vec("value", nv)
        kw = {}
        if box == "frame":
            cols = {n: x for n, x in (("s", a), ("e", b), ("v", v)) if isinstance(x, BSeries)}
            kw["frame"] = FrameArg(cols)
            a, b, v = (n if n in cols else x for n, x in (("s", a), ("e", b), ("v", v)))
        if v is not None:
            kw["value"] = v
        body = R.sc.Stairs.layer
        with patched(R, ARITH), bagged(R, t):
            r = body(f.obj, a, b, **kw)
        if r is not f.obj:
            raise Bad("pointwise", "layer returned another object")
        if r._integral_and_mean is stale or getattr(r.dist, "_ecdf", None) is stale:
            R.ob("caches are kept only when the function is unchanged", "event", vsame(ref.post, f.fn.post), "cache")
            R.ob("caches are kept only when the function is unchanged (initially)", "rigid", vsame(ref.init, f.fn.init), "cache")
        else:
            R.ob("caches are dropped", "rigid", TRUE, "cache")
        R.fn_is(r, ref, ca)

    def cases(R, c):
        return bagcases(R, c, ns, ne, nv, box)
    return Task("layer (vectors)", "layer[%s; %s starts, %s ends, %s values as %s of %s%s]" % (fa, ns, ne, nv, box, kind, "" if ca == "left" else " right"), run, cases)


def bagcases(R, c, ns, ne, nv, box):
    f = {"init": 1.0, "steps": [[0, 2.0], [4, -1.0], [8, 0.5]], "route": "values", "closed": "left"}
    g = {"init": 1.0, "steps": [[0, 2.0], [4, "nan"], [8, 0.5]], "route": "values", "closed": "left"}
    h = {"init": 1.0, "steps": [], "route": "values", "closed": "left"}
    hist = []
    n = max([x for x in (ns, ne, nv) if isinstance(x, int)] or [0])
    for k in range(4):
        tr = []
        for i in range(n):
            st = [0, 2, 0, 6, 4][(i + k) % 5] if i < ns else None
            en = [4, 6, 6, 2, 8][(i + 2 * k) % 5] if i < ne else None
            tr.append([None if k == 3 and i == 0 else st, None if k == 2 and i == 0 else en, None if not nv else [1.0, -2.0, 3.0, 0.5, 1.0][(i + k) % 5] if nv != "s" else 2.0])
        hist.append(tr)
    return [{"kind": "layer", "base": dict(x, form=w), "hist": [{"t": tr, "box": box}], "dom": d, "deep": True}
            for x in (f, g, h) for w in ("raw",) for tr in hist for d in ("float", "ts")]
