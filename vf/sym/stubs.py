"""Contracts standing for callees: a caller is checked against these, not against the bodies.

Each stub checks the precondition (the receiver and argument satisfy the representation
invariant) and returns a step function of which only the postcondition is known: the function
it denotes, its closed side, and that it is in minimal form.  Its internal form (step changes,
values or both) is unknown; it is chosen, as a case split, when the caller looks at it.
Every stub is itself verified against the body in the tasks of its own property.
"""
import sys
import types

from .. import spec
from .core import *
from .core import V
from .prove import Obligation
from .shim import Buf, Col, DataFrame, GBool, Index, Num, Rows, hold, scal, tov
from .world import Bad, Fn, SymAlg, delta_of, observe

A = SymAlg


def lazy_class(sc):
    """step functions whose internal form is decided on first access"""
    if "lazy" in _CLS and _CLS["lazy"].__mro__[1] is sc.Stairs:
        return _CLS["lazy"]

    def force(self):
        d = self.__dict__
        if "_lz_form" in d or "_lz_fn" not in d:
            return
        fn, m = d["_lz_fn"], M()
        change = Not(vsame(fn.pre, fn.post))
        if not m.somewhere(change):
            d.update(_lz_form="S", _lz_data=None, _lz_vd=False, _lz_vv=False)
            return
        form = "V"
        if not (m.branch(fn.init.nan) or m.somewhere(fn.post.nan)):
            form = "V" if m.branch(m.bconst("form.v")) else "D" if m.branch(m.bconst("form.d")) else "VD"
        elif not m.branch(m.bconst("form.v")):
            form = "VD"
        cols = {}
        if "V" in form:
            cols["value"] = Buf(Col(fn.post))
        if "D" in form:
            cols["delta"] = Buf(Col(delta_of(change, fn.post, fn.init)))
        d.update(_lz_form=form, _lz_data=DataFrame._mk(Index(Rows(change)), cols), _lz_vd="D" in form, _lz_vv="V" in form)

    def prop(k):
        def get(self):
            force(self)
            return self.__dict__[k]

        def put(self, v):
            force(self)
            self.__dict__[k] = v
            self.__dict__.pop("_lz_fn", None)
        return property(get, put)
    _CLS["lazy"] = type("Stairs", (sc.Stairs,), {"_data": prop("_lz_data"), "_valid_deltas": prop("_lz_vd"),
                                                 "_valid_values": prop("_lz_vv"), "__module__": sc.Stairs.__module__,
                                                 "__hash__": sc.Stairs.__hash__, "_vf_lazy": True})
    return _CLS["lazy"]


_CLS = {}


def abstract(sc, fn, closed):
    r = lazy_class(sc)._new(Num(fn.init), None, closed)
    for k in ("_lz_data", "_lz_vd", "_lz_vv"):
        r.__dict__.pop(k, None)
    r.__dict__["_lz_fn"] = fn
    return r


def denoted(R, s, what):
    """function an argument of a callee denotes; its representation invariant becomes an obligation"""
    d = s.__dict__
    if "_lz_fn" in d and "_lz_form" not in d:
        i = scal(s.initial_value)
        if i is not None and tov(i) is d["_lz_fn"].init or isinstance(s.initial_value, Num) and s.initial_value.v is d["_lz_fn"].init:
            return d["_lz_fn"]
    for o in R.operands:
        if getattr(o, "obj", None) is s and o.form != "K" and s._data is (o.df if o.stepped else None) and \
                isinstance(s.initial_value, Num) and s.initial_value.v is o.init:
            return o.fn
    obls = []
    out, _ = observe(R.sc, s, "%s: argument of %s" % (R.name, what), obls)
    for o in obls:
        o.cat = "pre"
    R.obls += obls
    return out


def stepped(s):
    return s._data is not None


def value_of(R, x, what):
    """(Fn, closed or None, is function)"""
    if isinstance(x, R.sc.Stairs):
        return denoted(R, x, what), x._closed, True
    c = scal(x)
    if c is None:
        raise Unsupported("argument %s of %s" % (type(x).__name__, what))
    v = tov(c)
    return Fn(v, v, v), None, False


def side(R, pairs, what):
    """closed side of a combination, raising on a clash as the contract demands"""
    fs = [x for x, isf in pairs if isf]
    sides = {x._closed for x in fs}
    if len(sides) == 1:
        return sides.pop()
    withsteps = [x for x in fs if stepped(x)]
    if len({x._closed for x in withsteps}) > 1:
        raise R.sc.core.exceptions.ClosedMismatchError(*fs[:2])
    return (withsteps or fs)[0]._closed


def tuple_stub(R, op, self, ends):
    """mask / where with a pair of bounds"""
    from .contracts import window
    m = M()
    if len(ends) != 2:
        raise Unsupported("bounds")
    pts = []
    for e in ends:
        if e is None or type(e).__name__ in ("Inf", "NegInf"):
            pts.append(None)
        elif scal(e) is not None:
            q = z3.simplify(tov(scal(e)).r)
            if not any(q.eq(p) for p in m.points):
                raise Unsupported("bound at an unknown point")
            pts.append(q)
        else:
            raise Unsupported("bound of type %s" % type(e).__name__)
    a, c, _ = value_of(R, self, op)
    R.callees.add(op)
    keep = (lambda k, v: vite(k, v, VNAN)) if op == "where" else (lambda k, v: vite(k, VNAN, v))
    fn = Fn(*[keep(k, v) for k, v in zip(window(*pts), (a.init, a.pre, a.post))])
    m.known.append((fn.init, fn.pre, fn.post))
    return abstract(R.sc, fn, c)


def binary_stub(R, op, rev=False, tuples=False):
    S = {**spec.BINARY_ARITH, **spec.BINARY_REL, **spec.BINARY_LOGIC, "mask": spec.mask, "where": spec.where, "fillna": spec.fillna}[op]

    def stub(self, other):
        if tuples and op in ("mask", "where") and isinstance(other, tuple):
            return tuple_stub(R, op, self, other)
        if op in ("mask", "where", "fillna") and (isinstance(other, (tuple, str))):
            raise Unsupported("callee %s(%s)" % (op, type(other).__name__))
        a, _, fa = value_of(R, self, op)
        b, _, fb = value_of(R, other, op)
        R.callees.add(op)
        pairs = [(self, fa), (other, fb)]
        c = side(R, pairs, op)
        if rev:
            a, b = b, a
        fn = a.map(lambda x, y: S(A, x, y), b)
        M().known.append((fn.init, fn.pre, fn.post))
        return abstract(R.sc, fn, c)
    return stub


def unary_stub(R, op):
    S = getattr(spec, op)

    def stub(self):
        a, c, _ = value_of(R, self, op)
        R.callees.add(op)
        fn = a.map(lambda x: S(A, x))
        M().known.append((fn.init, fn.pre, fn.post))
        return abstract(R.sc, fn, c)
    return stub


def copy_stub(R):
    def stub(self):
        a, c, _ = value_of(R, self, "copy")
        R.callees.add("copy")
        return abstract(R.sc, a, c)
    return stub


DUNDER = {"add": "__add__", "subtract": "__sub__", "multiply": "__mul__", "divide": "__truediv__", "lt": "__lt__", "gt": "__gt__",
          "le": "__le__", "ge": "__ge__", "eq": "__eq__", "ne": "__ne__", "logical_and": "__and__", "logical_or": "__or__",
          "logical_xor": "__xor__", "invert": "__invert__", "negate": "__neg__"}
RDUNDER = {"add": "__radd__", "subtract": "__rsub__", "multiply": "__rmul__", "divide": "__rtruediv__", "logical_and": "__rand__",
           "logical_or": "__ror__", "logical_xor": "__rxor__"}


_ALIAS = {}


def aliases(fn):
    """[(module, global name)] under which the package itself refers to a function of the class"""
    if type(fn) is not types.FunctionType or not (fn.__module__ or "").startswith("staircase"):
        return []
    key = id(fn)
    hit = _ALIAS.get(key)
    if hit is None or hit[0] is not fn:
        mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "staircase" or n.startswith("staircase."))]
        hit = _ALIAS[key] = (fn, [(m, k) for m in mods for k, v in list(vars(m).items()) if v is fn])
    return hit[1]


class patched:
    """with patched(R, names): the named public methods are replaced by their contracts"""

    def __init__(self, R, names, tuples=False):
        self.R, self.names, self.tuples, self.old = R, names, tuples, []

    def __enter__(self):
        C = self.R.sc.Stairs
        put = {}
        for n in self.names:
            if n in spec.BINARY_ARITH or n in spec.BINARY_REL or n in spec.BINARY_LOGIC:
                put[n] = put[DUNDER[n]] = binary_stub(self.R, n)
                if n in RDUNDER:
                    put[RDUNDER[n]] = binary_stub(self.R, n, True)
            elif n in ("mask", "where", "fillna"):
                put[n] = binary_stub(self.R, n, tuples=self.tuples)
            elif n == "copy":
                put[n] = copy_stub(self.R)
            else:
                put[n] = unary_stub(self.R, n)
                if n in DUNDER:
                    put[DUNDER[n]] = put[n]
        self.old, self.back = [], []
        for k, v in put.items():
            self.old.append((k, C.__dict__.get(k)))
            for m_, n_ in aliases(C.__dict__.get(k)):
                self.back.append((m_, n_, m_.__dict__[n_]))
                setattr(m_, n_, v)
            setattr(C, k, v)

    def __exit__(self, *a):
        C = self.R.sc.Stairs
        for m_, n_, v in self.back:
            setattr(m_, n_, v)
        for k, v in self.old:
            if v is None:
                delattr(C, k)
            else:
                setattr(C, k, v)
