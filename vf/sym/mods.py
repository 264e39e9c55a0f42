"""Module objects standing for pandas, numpy, ... and the loader of the code under verification."""
import builtins
import importlib
import importlib.abc
import importlib.util
import itertools
import os
import sys
import types

from . import shim
from .core import *
from .shim import *
from .shim import unsup


class Missing:
    """an attribute of a modelled library that is not modelled: usable only as a name"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __call__(self, *a, **k):
        raise Unsupported(self._n)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self._n + "." + k)

    def __mro_entries__(self, bases):
        return (object,)

    def __repr__(self):
        return "<unmodelled %s>" % self._n

    def __eq__(self, o):
        return isinstance(o, Missing) and o._n == self._n

    def __hash__(self):
        return hash(self._n)


class Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self.__name__ + "." + k)


def fake(name):
    """a class no modelled value is an instance of"""
    return type(name, (), {})


class UF:
    """numpy universal function"""

    def __init__(self, name, f, n):
        self.__name__, self.f, self.n = name, f, n

    def __call__(self, *a, out=None, where=True, dtype=None, **k):
        if k or out is not None or where is not True:
            unsup("np.%s options" % self.__name__)
        if self.n == 1:
            return unop(self.f, *a)
        r = binop(self.f, *[x if not isinstance(x, Vec) else x for x in a])
        if r is NotImplemented:
            unsup("np.%s" % self.__name__)
        return r

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("np.%s.%s" % (self.__name__, k))


def np_array(x, dtype=None, **k):
    x = ungen(x)
    if isinstance(x, Series):
        x = x.values
    if isinstance(x, Index):
        x = x.values
    if isinstance(x, Arr):
        return x.copy() if x.zero is None else x
    if isinstance(x, (list, tuple)):
        if not x:
            return Arr(Rows(FALSE), Buf(Col(VNAN)))
        cells = [scal(v) for v in x]
        if any(c is None for c in cells):
            unsup("np.array of objects")
        return Arr(Rows(FALSE, nh=len(cells)), Buf(Col(VNAN, cells)))
    if isinstance(x, StreamList):
        return np_concat([x.pre, x.arr, x.post])
    c = scal(x)
    if c is None:
        unsup("np.array(%s)" % type(x).__name__)
    return Arr(None, None, zero=c)


def np_concat(parts, axis=0, **k):
    main, pre, post = None, [], []
    for p in parts:
        if isinstance(p, (Series, Index)):
            p = p.values
        if isinstance(p, StreamList):
            for q in (p.pre, p.arr, p.post):
                parts2 = q
                if isinstance(q, Arr):
                    if main is not None:
                        unsup("concatenation of two columns")
                    main = q
                else:
                    (pre if main is None else post).extend(scal(v) for v in q)
            continue
        if isinstance(p, Arr) and p.zero is None:
            if is_f(p.rows.mem):
                cells = p.buf.col.heads + p.buf.col.tails
                (pre if main is None else post).extend(cells)
                continue
            if main is not None:
                unsup("concatenation of two columns")
            main = p
            continue
        if isinstance(p, (list, tuple)):
            cells = [scal(v) for v in p]
        else:
            cells = [scal(p)]
        if any(c is None for c in cells):
            unsup("concatenation of %s" % type(p).__name__)
        (pre if main is None else post).extend(cells)
    if main is None:
        return Arr(Rows(FALSE, nh=len(pre)), Buf(Col(VNAN, pre)))
    col = main.buf.col
    if isb(col.val) and not all(isb(c) for c in pre + post) or not isb(col.val):
        conv = tov
    else:
        conv = lambda c: c
    col = Col(conv(col.val), [conv(c) for c in pre + col.heads], [conv(c) for c in col.tails + post])
    r = Rows(main.rows.mem, len(col.heads), len(col.tails))
    return Arr(r, Buf(col))


def np_append(a, b, axis=None):
    return np_concat([a, b])


def np_diff(a, n=1, **k):
    if k or n != 1:
        unsup("np.diff options")
    if isinstance(a, (Series, Index)):
        a = a.values
    if not isinstance(a, Arr) or a.zero is not None:
        unsup("np.diff")
    rows, col = a.rows, a.buf.col.map(tov)
    if rows.nt == rows.nh == 0:
        if isb(a.buf.col.val):
            unsup("np.diff of flags")
        out = Rows(And(rows.mem, seen(rows.mem)[0]))
        out.first_of = rows
        return Arr(out, Buf(Col(vsub(col.val, held(rows.mem, col.val)[0]))))
    if rows.nt or rows.nh != 1:
        unsup("np.diff of an extended column")
    v = vsub(col.val, hold(rows.mem, col.val, col.heads[0])[0])
    return Arr(Rows(rows.mem), Buf(Col(v)))


def np_where(cond, *ab):
    if len(ab) != 2:
        unsup("np.where")
    a, b = ab
    srcs = [x.values if isinstance(x, (Series, Index)) else x for x in (cond, a, b)]
    arrs = [x for x in srcs if isinstance(x, Arr) and x.zero is None]
    if not arrs:
        c, x, y = [scal(v) for v in srcs]
        if None in (c, x, y):
            unsup("np.where")
        return Arr(None, None, zero=cite(truth(c), tov(x), tov(y)))
    for x in arrs[1:]:
        if not same_rows(x.rows, arrs[0].rows):
            unsup("np.where over different columns")
    cols = [x.buf.col if isinstance(x, Arr) and x.zero is None else scal(x) for x in srcs]
    if any(c is None for c in cols):
        unsup("np.where")
    return Arr(arrs[0].rows, Buf(zipcols(lambda c, x, y: cite(truth(c), x, y), *cols)))


def np_searchsorted(a, v, side="left", **k):
    if k:
        unsup("searchsorted options")
    if isinstance(v, Vec):
        return VecPos(bisect_(side)(a, v.q))
    return bisect_(side)(a, v)


_COMPS = {}


def comprehension_iters(fname):
    """source positions of the iterables of plain one-clause comprehensions"""
    if fname not in _COMPS:
        import ast
        out = set()
        with open(fname) as fh:
            tree = ast.parse(fh.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 1 and not n.generators[0].ifs:
                i = n.generators[0].iter
                out.add((i.lineno, i.end_lineno, i.col_offset, i.end_col_offset))
        _COMPS[fname] = out
    return _COMPS[fname]


def in_comprehension(frame):
    """the running call is the iterable of a comprehension: its body is run once per element and has no other effect"""
    pos = list(itertools.islice(frame.f_code.co_positions(), frame.f_lasti // 2, frame.f_lasti // 2 + 1))[0]
    return tuple(pos) in comprehension_iters(frame.f_code.co_filename)


class Gen(NoAttr):
    """the element of an arbitrary row, inside a comprehension"""

    def __init__(self, rows, cell):
        self.rows, self.cell = rows, cell

    def _op(self, f, o, rev=False):
        if isinstance(o, Gen):
            if not same_rows(self.rows, o.rows):
                unsup("elements of different columns")
            c = o.cell
        else:
            c = scal(o)
            if c is None:
                return NotImplemented
        return Gen(self.rows, f(c, self.cell) if rev else f(self.cell, c))

    def __add__(self, o):
        return self._op(e_add, o)

    def __radd__(self, o):
        return self._op(e_add, o, True)

    def __sub__(self, o):
        return self._op(e_sub, o)

    def __rsub__(self, o):
        return self._op(e_sub, o, True)

    def __mul__(self, o):
        return self._op(e_mul, o)

    def __rmul__(self, o):
        return self._op(e_mul, o, True)

    def __neg__(self):
        return Gen(self.rows, e_neg(self.cell))


def sh_zip(*its, strict=False):
    its = [i.values if isinstance(i, (Series, Index)) else list(i) if getattr(type(i), "_plain", False) else i for i in its]
    if not any(isinstance(i, NoAttr) for i in its):
        return builtins.zip(*its, strict=strict)
    if not all(isinstance(i, Arr) and i.zero is None and not (i.rows.nh or i.rows.nt) for i in its) or \
            not all(same_rows(i.rows, its[0].rows) for i in its) or not in_comprehension(sys._getframe(1)):
        unsup("zip over columns")
    return [tuple(Gen(i.rows, i.buf.col.val) for i in its)]


def ungen(x):
    """a list made by a comprehension over an arbitrary row -> the column"""
    if isinstance(x, list) and len(x) == 1 and isinstance(x[0], Gen):
        return Arr(x[0].rows, Buf(Col(x[0].cell)))
    return x


def sh_sum(x, start=0):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    x = ungen(x)
    if isinstance(x, (Series, Arr)):
        r = x.sum() if isinstance(x, Arr) else asum(x.index.rows, x.buf.col)
        return r if isinstance(start, int) and start == 0 else r + start
    return builtins.sum(x, start)


class VecPos(NoAttr):
    def __init__(self, p):
        self.p = p

    def __sub__(self, k):
        return VecPos(self.p - k)

    def __add__(self, k):
        return VecPos(self.p + k)


class VecArg(Vec, NoAttr):
    """a list-like of labels with a generic element q"""

    def __init__(self, q):
        self.q = q

    @property
    def values(self):
        return self

    def __iter__(self):
        yield self.q
        raise Unsupported("iteration over a vector argument")


class VecOut(Vec, NoAttr):
    """element-wise result for the generic element"""

    def __init__(self, val):
        self.val = val

    def __mul__(self, o):
        return VecOut(self.val * o)

    __rmul__ = __mul__

    def __add__(self, o):
        return VecOut(self.val + o)

    __radd__ = __add__


def np_full(x, val):
    if isinstance(x, Vec):
        return VecOut(Num(num(val), "np"))
    if isinstance(x, (Series, Index)):
        x = x.values
    if isinstance(x, Arr) and x.zero is None:
        return Arr(x.rows, Buf(Col(num(val), [num(val)] * x.rows.nh, [num(val)] * x.rows.nt)))
    unsup("np.full_like")


_arr_get = Arr.__getitem__


def _arr_getitem(self, k):
    if isinstance(k, VecPos):
        return VecOut(k.p.element(self))
    return _arr_get(self, k)


Arr.__getitem__ = _arr_getitem


def is_num(x):
    return isinstance(x, (Num, SymBool, int, float)) and not isinstance(x, Lab)


def is_list_like(x, allow_sets=True):
    return isinstance(x, (Series, Index, Arr, Vec, list, tuple, dict, set, DataFrame, StreamList)) and not \
        (isinstance(x, Arr) and x.zero is not None)


def pd_isna(x):
    if x is None or x is NA:
        return True
    if isinstance(x, DataFrame):
        return x.isna()
    if type(x).__name__ in ("Inf", "NegInf", "Stairs") or isinstance(x, str):
        return False
    return unop(e_isna, x)


def pd_notna(x):
    r = pd_isna(x)
    if isinstance(r, bool):
        return not r
    return unop(e_not, r) if not isinstance(r, SymBool) else ~r


def pd_concat(objs, axis=0, ignore_index=False, **k):
    objs = [o for o in objs if o is not None]
    if k or axis != 0 or ignore_index or not all(isinstance(o, Series) for o in objs):
        unsup("pd.concat options")
    objs = [o.force() for o in objs]
    objs = [o for o in objs if not is_f(o.index.rows.mem)] or objs[:1]
    out = objs[0]
    m = M()
    for o in objs[1:]:
        ia, ib = out.index, o.index
        if not ia.same_labels(ib) or ia.kind != "x" or ia.rows.nh or ib.rows.nh:
            unsup("concat over other labels")
        ma, mb = ia.rows.mem, ib.rows.mem
        if m.check(*m.U, *m.P, ma, mb) != z3.unsat:
            unsup("concat with repeated labels")
        # in order when no row of the second precedes a row of the first
        ordered = And(B(ia.sorted), B(ib.sorted), Implies(ma, Not(seen(mb)[0])))
        if m.check(*m.U, *m.P, Not(ordered)) == z3.unsat:
            ordered = True
        a, b = out.buf.col.val, o.buf.col.val
        c = cite(ma, tov(a), tov(b)) if not (isb(a) and isb(b)) else If(ma, a, b)
        out = Series._mk(Index(Rows(Or(ma, mb)), off=ia.off, sorted_=ordered), Buf(Col(c)),
                         out.name if out.name == o.name else None)
    return out


def np_linspace(a, b, num=50, **k):
    if k or not all(isinstance(x, int) for x in (a, b, num)) or num < 2:
        unsup("np.linspace")
    return [Fraction(a) + Fraction(b - a) * i / (num - 1) for i in range(num)]


class ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_numpy():
    np = Mod("numpy")
    d = np.__dict__
    d.update(nan=float("nan"), NaN=float("nan"), inf=float("inf"), pi=3.141592653589793, newaxis=None)
    for n, f in dict(isnan=e_isna, isinf=lambda c: FALSE if isb(c) else tov(c).inf,
                     isfinite=lambda c: TRUE if isb(c) else tov(c).fin, negative=e_neg, abs=e_abs, absolute=e_abs,
                     logical_not=lambda c: Not(truth(c)), invert=e_not,
                     sqrt=lambda c: V(Or(tov(c).nan, vneg_(tov(c))), SQRT(tov(c).r), tov(c).pinf)).items():
        d[n] = UF(n, f, 1)
    for n, f in dict(add=e_add, subtract=e_sub, multiply=e_mul, divide=e_div, true_divide=e_div, less=e_lt, less_equal=e_le,
                     greater=e_gt, greater_equal=e_ge, equal=e_eq, not_equal=e_ne, logical_and=e_land, logical_or=e_lor,
                     logical_xor=e_lxor, maximum=e_max, minimum=e_min, fmax=e_fmax, fmin=e_fmin, bitwise_and=e_and,
                     bitwise_or=e_or, bitwise_xor=e_xor).items():
        d[n] = UF(n, f, 2)
    d["true_divide"] = d["divide"]
    d.update(array=np_array, asarray=np_array, append=np_append, concatenate=np_concat, diff=np_diff, where=np_where,
             searchsorted=np_searchsorted, ones_like=lambda x, dtype=None: np_full(x, 1),
             zeros_like=lambda x, dtype=None: np_full(x, 0), full_like=lambda x, v, dtype=None: np_full(x, v),
             errstate=ErrState, any=lambda x, **k: x.any(), all=lambda x, **k: x.all(),
             cumsum=lambda x: x.cumsum() if isinstance(x, Series) else Series(x).cumsum().values,
             sum=lambda x, **k: x.sum(), isscalar=lambda x: scal(x) is not None,
             unique=np_unique, min=lambda x, **k: x.min(**k), max=lambda x, **k: x.max(**k),
             hstack=lambda p: np_concat(p), linspace=np_linspace, r_=Missing("np.r_"), copy=lambda x: x.copy())
    for n in ("ndarray", "generic", "floating", "integer", "number", "bool_", "datetime64", "timedelta64", "signedinteger",
              "unsignedinteger"):
        d[n] = fake(n)
    for n in ("float64", "float32", "int64", "int32", "uint8"):
        d[n] = type(n, (), {"__new__": staticmethod(lambda c, x=0: Num(tov(scal(x)), "np"))})
    d["random"] = Mod("numpy.random")
    d["testing"] = Mod("numpy.testing")
    return np


def make_pandas(np):
    pd = Mod("pandas")
    d = pd.__dict__
    d.update(Series=Series, DataFrame=DataFrame, Index=Index, NA=NA, NaT=NA, isna=pd_isna, isnull=pd_isna, notna=pd_notna,
             notnull=pd_notna, concat=pd_concat, __version__="2.2.3")
    for n in ("Timestamp", "Timedelta", "IntervalIndex", "PeriodIndex", "DatetimeIndex", "TimedeltaIndex", "Interval", "Period",
              "MultiIndex", "Categorical"):
        d[n] = type(n, (), {"__new__": staticmethod(lambda c, *a, **k: unsup("pd type"))})
    def stamp(name, dom):
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, Lab) and DOMAIN[0] == dom

        def new(c, x=None, *a, **k):
            if a or k or not isinstance(x, c):
                unsup("pd." + name)
            return x
        return Meta(name, (), {"__new__": staticmethod(new)})
    d["Timestamp"], d["Timedelta"] = stamp("Timestamp", "ts"), stamp("Timedelta", "td")
    api = Mod("pandas.api")
    t = Mod("pandas.api.types")
    t.__dict__.update(is_list_like=is_list_like, is_number=is_num, is_scalar=lambda x: scal(x) is not None,
                      is_numeric_dtype=lambda x: not is_labels(x), is_float_dtype=lambda x: getattr(getattr(x, "dtype", x), "name", "") == "float64",
                      is_bool_dtype=lambda x: getattr(getattr(x, "dtype", x), "name", "") == "bool",
                      is_integer_dtype=lambda x: getattr(getattr(x, "dtype", x), "name", "") == "int64",
                      is_datetime64_dtype=lambda x: is_labels(x) and DOMAIN[0] == "ts",
                      is_timedelta64_dtype=lambda x: is_labels(x) and DOMAIN[0] == "td",
                      is_datetime64_any_dtype=lambda x: is_labels(x) and DOMAIN[0] == "ts", is_dict_like=lambda x: isinstance(x, (dict, Series)),
                      is_float=lambda x: isinstance(x, (Num, float)), is_bool=lambda x: isinstance(x, (SymBool, bool)),
                      is_integer=lambda x: isinstance(x, int), is_hashable=lambda x: True)
    e = Mod("pandas.api.extensions")
    ident = lambda *a, **k: (lambda c: c)
    e.__dict__.update(ExtensionArray=fake("ExtensionArray"), ExtensionDtype=fake("ExtensionDtype"),
                      register_extension_dtype=lambda c: c, register_series_accessor=ident, register_dataframe_accessor=ident,
                      register_index_accessor=ident)
    api.types, api.extensions = t, e
    pd.api = api
    core = Mod("pandas.core")
    cd = Mod("pandas.core.dtypes")
    ci = Mod("pandas.core.dtypes.inference")
    ci.__dict__.update(is_dict_like=t.is_dict_like, is_list_like=is_list_like, is_number=is_num)
    pl = Mod("pandas.plotting")
    pl.__dict__.update(register_matplotlib_converters=lambda: None)
    pd.plotting = pl
    return {"pandas": pd, "pandas.api": api, "pandas.api.types": t, "pandas.api.extensions": e, "pandas.core": core,
            "pandas.core.dtypes": cd, "pandas.core.dtypes.inference": ci, "pandas.plotting": pl}


NP = make_numpy()
PDMODS = make_pandas(NP)


def sh_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    flat = []
    for k in cs:
        flat.extend(k if isinstance(k, tuple) else (k,))
    flat = [float if k is FloatT else k for k in flat]
    if isinstance(x, Lab):
        return any(k in (object, Num, Lab) or getattr(k, "__name__", "") in ("Timestamp", "Timedelta") and isinstance(x, k) for k in flat)
    if isinstance(x, Num):
        if any(k in (float, NP.floating, NP.number, NP.float64) for k in flat):
            if x.kind == "np":
                return True
            if any(k is float for k in flat):
                return True
        return any(k in (object, Num) for k in flat) or (x.kind == "np" and any(k in (NP.generic,) for k in flat)) or \
            any(getattr(k, "__module__", "") == "numbers" and k.__name__ in ("Number", "Real") for k in flat)
    if isinstance(x, Arr) and any(k is NP.ndarray for k in flat):
        return True
    if isinstance(x, SymBool) and any(k in (bool, NP.bool_, NP.generic) for k in flat):
        return True
    real = tuple(k for k in flat if isinstance(k, type))
    for k in flat:
        if not isinstance(k, type) and not isinstance(k, Missing):
            return isinstance(x, k)
    return isinstance(x, real)


def sh_float(x=0):
    if isinstance(x, Lab):
        x._no()
    if isinstance(x, (Num, SymBool)):
        return Num(tov(scal(x)), "py")
    if isinstance(x, Arr) and x.zero is not None:
        return Num(tov(x.zero), "py")
    if isinstance(x, (Series, Arr, Index)):
        unsup("float(column)")
    return float(x)


class FloatT(float):
    """the builtin `float` as the verified code sees it"""
    def __new__(cls, x=0):
        return sh_float(x)


FloatT.__name__ = "float"


def sh_int(x=0, *a):
    if isinstance(x, SymBool):
        return Num(tov(x.t), "py")
    if isinstance(x, GBool):
        return int(bool(x))
    if isinstance(x, Num):
        # int() of a value already known to be 0 or 1 keeps it; anything else is not modelled
        m = M()
        if m.check(*m.P, Not(And(x.v.fin, Or(x.v.r == 0, x.v.r == 1)))) == z3.unsat:
            return Num(x.v, "py")
        unsup("int(number)")
    return int(x, *a)


def sh_bool(x=False):
    return bool(x)


def sh_abs(x):
    return abs(x)


OVERRIDE = {"len": shim_len, "max": shim._mm(builtins.max, "max"), "min": shim._mm(builtins.min, "min"), "isinstance": sh_isinstance,
            "zip": sh_zip, "sum": sh_sum}


class Bisect(types.ModuleType):
    bisect_left = staticmethod(bisect_("left"))
    bisect_right = staticmethod(bisect_("right"))
    bisect = staticmethod(bisect_("right"))


class MathShim(types.ModuleType):
    nan, inf = float("nan"), float("inf")

    def __getattr__(self, k):
        import math
        f = getattr(math, k)
        if k in ("isnan", "isinf", "isfinite"):
            return lambda x: getattr(NP, k)(x)

        def g(*a):
            if k in ("floor", "ceil") and len(a) == 1 and hasattr(type(a[0]), "__%s__" % k):
                return f(*a)
            if any(isinstance(x, NoAttr) for x in a):
                unsup("math." + k)
            return f(*a)
        return g


def load(repo):
    """import the real staircase package from `repo` on top of the modelled libraries"""
    for name in [n for n in sys.modules if n == "staircase" or n.startswith("staircase.")]:
        del sys.modules[name]
    sys.modules["numpy"] = NP
    sys.modules["numpy.random"] = NP.random
    sys.modules.update(PDMODS)
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.dates", "matplotlib.ticker"):
        sys.modules[n] = Mod(n)
    try:
        importlib.import_module("typing_extensions")
    except ImportError:
        te = types.ModuleType("typing_extensions")
        import typing
        te.Literal = typing.Literal
        sys.modules["typing_extensions"] = te
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    importlib.invalidate_caches()
    sc = importlib.import_module("staircase")
    if not os.path.realpath(sc.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit("staircase imported from %s" % sc.__file__)
    import bisect as rb
    import math as rm
    bs, ms = Bisect("bisect"), MathShim("math")
    for name, mod in list(sys.modules.items()):
        if name == "staircase" or name.startswith("staircase."):
            g = mod.__dict__
            for k, f in OVERRIDE.items():
                if k not in g:
                    g[k] = f
            for k, v in list(g.items()):
                if v is rb:
                    g[k] = bs
                elif v is rm:
                    g[k] = ms
                elif v is rb.bisect_left or v is rb.bisect_right:
                    g[k] = bisect_("left" if v is rb.bisect_left else "right")
            g.setdefault("float", FloatT)
    return sc
