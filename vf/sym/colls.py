"""Contracts of collections of step functions (core/arrays).

Collections of 1 to 3 members (the number is bounded; the members are arbitrary functions).
"""
import itertools

from .bags import *
from .bags import V, lab
from .core import *
from .shim import Arr, Index, NoAttr, Rows, tov
from .stubs import denoted
from .world import delta_of

AGGS = ("sum", "mean", "median", "min", "max", "logical_or", "logical_and")


def emod(R):
    return R.sc.core.arrays.extension


class ObjArr(NoAttr):
    """one-dimensional array of objects"""
    ndim = 1
    _plain = True

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.items[k]
        raise Unsupported("choice of members")

    def __neg__(self):
        return ObjArr([-s for s in self.items])

    def copy(self):
        return ObjArr(self.items)

    @property
    def shape(self):
        return (len(self.items),)

    size = property(lambda self: len(self.items))


class ObjSeries(NoAttr):
    _plain = True

    def __init__(self, items, index=None):
        self.items, self.index = list(items), index

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    @property
    def values(self):
        return ObjArr(self.items)

    def apply(self, f, args=(), **k):
        return ObjSeries([f(s, *args, **k) for s in self.items], self.index)

    def map(self, f):
        return ObjSeries([f(s) for s in self.items], self.index)


class Mat(list):
    """one column per member"""


def _cols(x):
    """list of columns / scalars -> (rows or None, cells)"""
    x = list(x)
    if all(isinstance(a, Arr) and a.zero is None for a in x):
        if any(not a.rows.mem.eq(x[0].rows.mem) for a in x):
            raise Unsupported("columns at different points")
        return x[0].rows, [a.buf.col.val for a in x]
    if all(scal(a) is not None for a in x):
        return None, [scal(a) for a in x]
    raise Unsupported("aggregate of %s" % type(x[0]).__name__)


def agg_cell(name, vs):
    """the aggregate of values, missing when any is"""
    vs = [tov(v) for v in vs]
    n = len(vs)
    nan = Or(*[v.nan for v in vs])
    rs = [v.r for v in vs]
    if name == "sum" or name == "mean":
        t = rs[0]
        for r in rs[1:]:
            t = r_add(t, r)
        r = t if name == "sum" else t / n
    elif name == "min" or name == "max":
        r = rs[0]
        for q in rs[1:]:
            r = If(q < r, q, r) if name == "min" else If(q > r, q, r)
    elif name == "median":
        if n == 1:
            r = rs[0]
        elif n == 2:
            r = (rs[0] + rs[1]) / 2
        else:
            a, b, c = rs
            lo, hi = If(a < b, a, b), If(a < b, b, a)
            r = If(c < lo, lo, If(c > hi, hi, c))
    elif name == "logical_or":
        r = If(Or(*[q != 0 for q in rs]), rv(1), rv(0))
    else:
        r = If(And(*[q != 0 for q in rs]), rv(1), rv(0))
    return V(nan, If(nan, rv(0), r))


def arr_or_num(rows, cell):
    if rows is None:
        return SymBool(cell) if isb(cell) else Num(tov(cell), "np")
    return Arr(rows, Buf(Col(cell)))


def reducer(name):
    def f(x, axis=None, *a, **k):
        if a or k or not isinstance(x, (list, tuple)) or axis not in (None, 0):
            raise Unsupported("np.%s" % name)
        rows, cells = _cols(x)
        if rows is not None and axis is None:
            raise Unsupported("np.%s over everything" % name)
        return arr_or_num(rows, agg_cell(name, cells))
    return f


class Logical:
    def __init__(self, name, orig):
        self.name, self.orig = name, orig

    def __call__(self, *a, **k):
        return self.orig(*a, **k)

    def reduce(self, x, axis=0):
        if axis not in (None, 0) or not isinstance(x, (list, tuple)):
            raise Unsupported("np.%s.reduce" % self.name)
        rows, cells = _cols(x)
        if rows is not None and axis is None:
            raise Unsupported("np.%s.reduce over everything" % self.name)
        ts = [c if isb(c) else Or(tov(c).nan, tov(c).r != 0) for c in cells]
        return arr_or_num(rows, Or(*ts) if self.name == "logical_or" else And(*ts))


class _Stack(list):
    pass


def collected(R):
    """numpy on collections"""
    E = emod(R)
    np, pd = E.np, E.pd
    orig = {k: getattr(np, k) for k in ("array", "asarray", "concatenate", "unique", "isnan", "logical_or", "logical_and", "where", "ndarray")}
    S = R.sc.Stairs

    def array(x, *a, **k):
        if isinstance(x, (ObjArr, ObjSeries)) or isinstance(x, (list, tuple)) and x and all(isinstance(s, S) for s in x):
            return ObjArr(x)
        if isinstance(x, S):
            return ObjArr([x])
        return orig["array"](x, *a, **k)

    def asarray(x, *a, **k):
        if isinstance(x, (Num, SymBool)) and not a and not k:
            class Zero:
                def __getitem__(s, k):
                    if k != ():
                        raise Unsupported("element of an array")
                    return x
                item = lambda s: x
            return Zero()
        if isinstance(x, (list, tuple, ObjArr)) and x and all(isinstance(s, S) for s in x):
            return ObjArr(x)
        return orig["asarray"](x, *a, **k)

    def concatenate(x, *a, **k):
        x = list(x)
        if x and all(isinstance(i, (Index, Arr)) for i in x) and not a and not k:
            return _Stack(x)
        return orig["concatenate"](x, *a, **k)

    def unique(x, *a, **k):
        if isinstance(x, _Stack) and not a and not k:
            mem = FALSE
            for i in x:
                if not isinstance(i, Index) or i.kind != "x" or i.rows.nh or i.rows.nt:
                    raise Unsupported("step points")
                mem = Or(mem, i.rows.mem)
            return Index(Rows(mem))
        return orig["unique"](x, *a, **k)

    def isnan(x):
        if isinstance(x, (list, tuple)):
            rows, cells = _cols(x)
            return Mat(arr_or_num(rows, tov(c).nan) for c in cells)
        return orig["isnan"](x)

    def where(c, *ab):
        if isinstance(c, SymBool) and len(ab) == 2 and all(scal(x) is not None for x in ab):
            return Num(vite(c.t, tov(scal(ab[0])), tov(scal(ab[1]))), "np")
        return orig["where"](c, *ab)

    class NDMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, ObjArr) or isinstance(x, orig["ndarray"])

    class SM(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (ObjSeries, ShimSeries))

        def __call__(cls, data=None, *a, **k):
            if isinstance(data, (ObjArr, R.sc.core.arrays.extension.StairsArray)) or \
                    isinstance(data, (list, tuple)) and data and all(isinstance(s, S) for s in data):
                if a or set(k) - {"dtype"}:
                    raise Unsupported("Series options")
                return ObjSeries(data)
            return ShimSeries(data, *a, **k)

        def __getattr__(cls, k):
            return getattr(ShimSeries, k)

    class IM(type):
        def __instancecheck__(cls, x):
            return isinstance(x, Index)

        def __call__(cls, data=None, *a, **k):
            if isinstance(data, Index) and not a and not k:
                return data
            raise Unsupported("pd.Index")

        def __getattr__(cls, k):
            return getattr(Index, k)

    def limit(self, x, side="right", include_index=False):
        if include_index or side not in ("left", "right"):
            raise Unsupported("limit options")
        ix = x.index if isinstance(x, ShimSeries) else x
        if not isinstance(ix, Index) or ix.kind != "x":
            raise Unsupported("limit at %s" % type(x).__name__)
        fn = denoted(R, self, "limit")
        R.callees.add("limit")
        return Arr(ix.rows, Buf(Col(fn.post if side == "right" else fn.pre)))
    def step_changes(self):
        fn = denoted(R, self, "step_changes")
        R.callees.add("step_changes")
        if self._data is None:
            return ShimSeries(dtype="float64")
        return ShimSeries._mk(Index(Rows(self._data.index.rows.mem)), Buf(Col(delta_of(self._data.index.rows.mem, fn.post, fn.init))))
    nd = NDMeta("ndarray", (), {})
    subst = [(np, "array", array), (np, "asarray", asarray), (np, "concatenate", concatenate), (np, "unique", unique), (np, "isnan", isnan),
             (np, "where", where), (np, "ndarray", nd), (pd, "Series", SM("Series", (), {})), (S, "limit", limit), (S, "step_changes", property(step_changes)), (pd, "Index", IM("Index", (), {})),
             (np, "logical_or", Logical("logical_or", orig["logical_or"])), (np, "logical_and", Logical("logical_and", orig["logical_and"]))]
    for n in ("sum", "mean", "median", "min", "max"):
        subst.append((np, n, reducer(n)))
    for n, m in (("amin", "min"), ("amax", "max"), ("nansum", None)):
        if m:
            subst.append((np, n, reducer(m)))
    return swapped(*subst)


def boxed(R, fs, box):
    if box == "list":
        return list(fs)
    if box == "tuple":
        return tuple(fs)
    if box == "dict":
        return {"k%d" % i: f for i, f in enumerate(fs)}
    if box == "array":
        return ObjArr(fs)
    if box == "series":
        return ObjSeries(fs)
    return R.sc.core.arrays.extension.StairsArray(list(fs))


def aggregate(name, forms, box="list", sides=None, via="top"):
    sides = sides or ("left",) * len(forms)

    def run(R):
        ms = [R.operand("f%d" % i, a, s) for i, (a, s) in enumerate(zip(forms, sides))]
        ref = Fn(*[agg_cell(name, [getattr(o.fn, k) for o in ms]) for k in ("init", "pre", "post")])
        R.know(*[o.fn for o in ms], ref)
        withsteps = [o for o in ms if o.stepped]
        clash = len({o.closed for o in withsteps}) > 1
        try:
            with collected(R):
                c = boxed(R, [o.obj for o in ms], box)
                if via == "top":
                    r = getattr(R.sc, name)(c)
                else:
                    r = getattr(R.sc.core.arrays.extension.StairsArray(c), name)()
        except R.sc.core.exceptions.ClosedMismatchError:
            if not clash:
                raise
            R.ob("opposite sides are refused", "rigid", TRUE, "closed")
            R.frames()
            return
        if clash:
            raise Bad("closed", "opposite closed sides were merged")
        R.fn_is(r, ref, (withsteps or ms)[0].closed)
        R.frames(r)

    def cases(R, c):
        out = []
        for xs in prod(*[c.operand(o) for o in R.operands], cap=4):
            out += [{"kind": "agg", "fs": list(xs), "name": name, "box": box2, "red": True, "dom": d} for d in ("float", "tz") for box2 in ("list", "dict", "sa")]
        return out
    return Task("StairsArray.%s" % name, "%s(%s of %s%s)" % (name, box, ",".join(forms), "" if set(sides) == {"left"} else " " + "/".join(sides)), run, cases)


class Token(NoAttr):
    """result of an operation on members"""

    def __init__(self, *what):
        self.what = what


def recorded(R, obj, names, make):
    """functions of these names, wherever the class keeps them, replaced by recorders"""
    C = R.sc.Stairs
    SA = R.sc.core.arrays.extension.StairsArray
    subst, cells = [], []
    for n in names:
        orig = C.__dict__.get(n)
        if orig is None:
            continue
        rec = make(n)
        subst.append((C, n, rec))
        for k, v in list(C.__dict__.items()):
            if v is orig and k != n:
                subst.append((C, k, rec))
        for f in SA.__dict__.values():
            for c in getattr(f, "__closure__", None) or ():
                if c.cell_contents is orig:
                    cells.append((c, orig, rec))

    class CM:
        def __enter__(self):
            self.s = swapped(*subst)
            self.s.__enter__()
            for c, o, r in cells:
                c.cell_contents = r

        def __exit__(self, *a):
            for c, o, r in cells:
                c.cell_contents = o
            return self.s.__exit__(*a)
    return CM()


def elementwise(op, other, via="method"):
    """`other`: number, function, list, array, short"""
    def run(R):
        SA = R.sc.core.arrays.extension.StairsArray
        ms = [R.operand("f%d" % i, a) for i, a in enumerate(("S", "V", "D"))]
        gs = [R.operand("g%d" % i, a) for i, a in enumerate(("V", "S", "V"))]
        k = R.operand("k", "K")
        fs, os = [o.obj for o in ms], [o.obj for o in gs]
        made = []

        def make(n):
            def rec(a, b):
                t = Token(n, a, b)
                made.append(t)
                return t
            return rec
        X = {"number": k.obj, "function": os[0], "list": list(os), "tuple": tuple(os), "array": ObjArr(os), "series": ObjSeries(os), "short": list(os[:2])}

        class TokArray(list):
            pass
        init = SA.__init__

        def init2(self, data):
            if isinstance(data, (list, tuple, ObjArr)) and len(data) and all(isinstance(t, Token) for t in data):
                self.data = ObjArr(data)
            else:
                init(self, data)
        with collected(R), swapped((SA, "__init__", init2)):
            a = SA(fs)
            other_ = SA(os) if other == "stairsarray" else X[other]
            mod = emod(R)
            num_ = (mod, "is_number", lambda x: isinstance(x, (Num, int, float))) if "is_number" in mod.__dict__ else (SA, "__init__", init2)
            ll = (mod, "is_list_like", lambda x: isinstance(x, (list, tuple, ObjArr, ObjSeries, SA, dict))) if "is_list_like" in mod.__dict__ else (SA, "__init__", init2)
            with swapped(num_, ll), recorded(R, a, [op], make):
                try:
                    r = getattr(a, op)(other_) if via == "method" else getattr(a, via)(other_)
                except ValueError:
                    if other != "short":
                        raise
                    R.ob("different lengths are refused", "rigid", TRUE, "pointwise")
                    return
        if other == "short":
            raise Bad("pointwise", "arrays of different lengths are combined")
        if not isinstance(r, SA):
            raise Bad("pointwise", "the result is %s" % type(r).__name__)
        got = list(r.data)
        if len(got) != 3 or any(not isinstance(t, Token) for t in got):
            raise Unsupported("the members are combined otherwise")
        for i, t in enumerate(got):
            want = other_ if other in ("number", "function") else os[i]
            if t.what[0] != op or t.what[1] is not fs[i] or t.what[2] is not want:
                raise Odd("pointwise", "entry %d is not that of member %d" % (i, i))
        R.ob("each entry is %s of the members" % op, "rigid", TRUE, "pointwise")
        R.frames()
    return Task("StairsArray.%s" % op, "array.%s[%s%s]" % (op, other, "" if via == "method" else " " + via), run,
                (lambda R, c: elemcases(op, other)) if other != "short" else None)


def elemcases(op, other):
    f = {"init": 1.0, "steps": [[0, 2.0], [4, -1.0], [8, 0.5]], "route": "values", "closed": "left", "form": "raw"}
    g = {"init": 0.0, "steps": [[2, 2.0], [4, "nan"], [8, 0.5]], "route": "values", "closed": "left", "form": "raw"}
    h = {"init": 2.0, "steps": [], "route": "values", "closed": "left", "form": "raw"}
    refl = op[0] == "r" and op[1:] in ("add", "subtract", "multiply", "divide")
    box = {"list": "list", "tuple": "tuple", "array": "array", "series": "series", "stairsarray": "sa"}.get(other)
    o = {"box": box, "fs": [g, h, f]} if box else {"scalar": 2.0, "type": "float"} if other == "number" else g
    return [{"kind": "elem", "fs": [f, g, h], "op": op[1:] if refl else op, "other": o, "how": w, "dom": d} for d in ("float", "ts") for w in (("refl",) if refl else ("method", "sym"))]


def table(what, via):
    """sample / limit of every member"""
    def run(R):
        SA = R.sc.core.arrays.extension.StairsArray
        ms = [R.operand("f%d" % i, a) for i, a in enumerate(("S", "V", "D"))]
        fs = [o.obj for o in ms]
        x = object()

        def make(n):
            def rec(self, x=None, side="right", include_index=False, **k):
                return Token(n, self, x, side, include_index, k)
            return rec
        with collected(R), recorded(R, None, ["sample", "limit"], make):
            a = SA(fs)
            args = (x, "left") if what == "limit" else (x,)
            if via == "accessor":
                A = R.sc.core.arrays.accessor.StairsAccessor
                acc = A.__new__(A)
                acc._obj = type("O", (), {"values": a, "index": ("the", "index")})()
                r = getattr(acc, what)(*args)
                if r.index != ("the", "index"):
                    raise Odd("pointwise", "rows are labelled %r" % (r.index,))
            else:
                r = getattr(a, what)(*args)
        got = list(r)
        for i, t in enumerate(got):
            side = "left" if what == "limit" else "right"
            if not isinstance(t, Token):
                raise Unsupported("table of %s" % type(t).__name__)
            if t.what != (what, fs[i], x, side, True, {}):
                raise Odd("pointwise", "entry %d is %s%s" % (i, t.what[0], t.what[2:]))
        if len(got) != 3:
            raise Bad("pointwise", "%d rows" % len(got))
        R.ob("each row is that of the member", "rigid", TRUE, "pointwise")
        R.frames()
    return Task("StairsArray.%s" % what, "table.%s[%s]" % (what, via), run, None)


class Square(NoAttr):
    def __init__(self, n, fill):
        self.n, self.d = n, {(i, j): fill for i in range(n) for j in range(n)}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        if k not in self.d:
            raise Unsupported("entries %r" % (k,))
        self.d[k] = v

    shape = property(lambda self: (self.n, self.n))

    def copy(self):
        r = Square(self.n, None)
        r.d = dict(self.d)
        return r

    @property
    def T(self):
        r = Square(self.n, None)
        r.d = {(j, i): v for (i, j), v in self.d.items()}
        return r


def matrix(what, n, window, via="array"):
    def run(R):
        E = emod(R)
        SA = E.StairsArray
        ms = [R.operand("f%d" % i, ("V", "S", "D")[i]) for i in range(n)]
        fs = [o.obj for o in ms]
        m = M()
        val = {}
        # pairwise results; symmetric by their own contract (C19)
        for i in range(n):
            for j in range(i, n):
                val[i, j] = val[j, i] = m.rigid_value("%s%d%d" % (what, i, j))
        w = (lab(R.point("lo")), lab(R.point("hi"))) if window else None
        import builtins

        def pos(s):
            for i, f in enumerate(fs):
                if s is f:
                    return i
            raise Unsupported("%s of something else" % what)

        def rec(a, b, where=(-R.sc.inf, R.sc.inf), **k):
            if k:
                raise Unsupported("options of %s" % what)
            if window and where is not w or not window and builtins.any(type(x).__name__ not in ("Inf", "NegInf") and x is not None for x in where):
                raise Odd("pointwise", "%s over another window" % what)
            R.callees.add(what)
            return Num(val[pos(a), pos(b)], "np")

        def full(shape=None, *a, **k):
            if a or k or not isinstance(shape, tuple) or shape != (n, n):
                raise Unsupported("array")
            return Square(n, Num(num(1)))
        S = R.sc.core.stats.statistic
        orig = S.__dict__[what]
        cells = [(c, orig) for f in SA.__dict__.values() for c in getattr(f, "__closure__", None) or () if c.cell_contents is orig]
        subst = [(S, what, rec), (E.np, "ones", full), (E.np, "empty", full), (E.np, "zeros", full), (R.sc.Stairs, what, rec)]
        if "_" + what in E.__dict__:
            subst.append((E, "_" + what, rec))
        with collected(R), swapped(*subst):
            for c, o in cells:
                c.cell_contents = rec
            try:
                a = SA(fs)
                if via == "array":
                    r = getattr(a, what)(w) if window else getattr(a, what)()
                else:
                    A = R.sc.core.arrays.accessor
                    acc = A.StairsAccessor.__new__(A.StairsAccessor)
                    ix = ("the", "index")
                    acc._obj = type("O", (), {"values": a, "index": ix})()

                    def frame_(data, index=None, columns=None):
                        if index is not ix or columns is not ix:
                            raise Odd("pointwise", "labels of the matrix")
                        return data
                    with swapped((A.pd, "DataFrame", frame_)):
                        r = getattr(acc, what)(w) if window else getattr(acc, what)()
            finally:
                for c, o in cells:
                    c.cell_contents = o
        if not isinstance(r, Square):
            raise Unsupported("matrix of type %s" % type(r).__name__)
        for (i, j), v in r.d.items():
            c = scal(v)
            if c is None:
                raise Unsupported("entry of type %s" % type(v).__name__)
            R.ob("entry %d,%d is that of the pair" % (i, j), "rigid", vsame(tov(c), val[i, j]), "pointwise")
        R.frames()
    return Task("StairsArray.%s" % what, "matrix.%s[%d%s %s]" % (what, n, " over a window" if window else "", via), run, None)
