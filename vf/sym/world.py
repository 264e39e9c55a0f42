"""Operands, results and the representation contract, on streams."""
from .core import *
from .core import V
from .prove import Obligation
from .shim import (accum, Buf, Col, DataFrame, Index, Num, Rows, Series, hold, isb, same_rows, tov)


class SymAlg:
    """value algebra for vf.spec"""
    NAN = VNAN
    isnan = staticmethod(lambda v: v.nan)
    ite = staticmethod(vite)
    and_ = staticmethod(And)
    or_ = staticmethod(Or)
    not_ = staticmethod(Not)
    const = staticmethod(lambda v: num(v))
    add = staticmethod(vadd)
    sub = staticmethod(vsub)
    mul = staticmethod(vmul)
    div = staticmethod(lambda a, b: V(FALSE, r_div(a.r, b.r)))
    lt = staticmethod(vlt)
    eq = staticmethod(veq)


class Fn:
    """a denoted function: value towards -inf, value before / after the current event"""

    def __init__(self, init, pre, post):
        self.init, self.pre, self.post = init, pre, post

    def map(self, f, *others):
        fs = (self,) + others
        return Fn(f(*[g.init for g in fs]), f(*[g.pre for g in fs]), f(*[g.post for g in fs]))


class Operand:
    """symbolic input function in a given internal form"""

    def __init__(self, sc, tag, form, closed, cls=None):
        m = M()
        self.tag, self.form, self.closed = tag, form, closed
        self.init = m.rigid_value(tag)
        init = Num(self.init)
        self.mem = None
        cls = cls or sc.Stairs
        if form == "S":
            self.obj = cls._new(init, None, closed)
            self.fn = Fn(self.init, self.init, self.init)
            return
        mem = self.mem = m.input_bool(tag + ".row")
        m.E.append(mem)
        if form == "D":
            # step changes are the primary data
            m.P.append(Not(self.init.nan))
            d = V(FALSE, m.input_real(tag + ".chg"))
            a0, a1 = accum(mem, d)
            new = self.new = V(FALSE, r_add(self.init.r, a1.r))
            self.fn = Fn(self.init, V(self.init.nan, r_add(self.init.r, a0.r)), V(self.init.nan, r_add(self.init.r, a1.r)))
            m.U.append(Implies(mem, d.r != 0))
            self.delta = d
        else:
            new = self.new = m.input_value(tag + ".val")
            pre, post = hold(mem, new, self.init, tag)
            self.fn = Fn(self.init, pre, post)
            m.U.append(Implies(mem, Not(vsame(new, pre))))
            self.delta = delta_of(mem, new, self.init)
        idx = Index(Rows(mem))
        cols = {}
        if form in ("V", "VD"):
            cols["value"] = Buf(Col(new))
        if form in ("D", "VD"):
            cols["delta"] = Buf(Col(self.delta))
        self.df = DataFrame._mk(idx, cols)
        self.obj = cls._new(init, self.df, closed)

    @property
    def stepped(self):
        return self.form != "S"


def delta_of(mem, new, init):
    """step change column: relative to the last defined value (0 when there is none)"""
    base = V(FALSE, If(init.nan, rv(0), init.r))
    step = And(mem, Not(new.nan))
    ld0, ld1 = hold(step, V(FALSE, new.r), base, "ld")
    # the changes of the last defined value add up to its value
    t = If(step, r_sub(new.r, ld0.r), rv(0))
    known = M().cexp.setdefault("totals", [])
    if not any(t.eq(k[0]) for k in known):
        known.append((t, r_sub(ld0.r, base.r), r_sub(ld1.r, base.r)))
    return V(new.nan, r_sub(new.r, ld0.r))


def from_delta(mem, d, init):
    """values denoted by step changes alone"""
    base = V(FALSE, If(init.nan, rv(0), init.r))
    _, post = accum(mem, d)
    return V(d.nan, r_add(post.r, base.r))


class Bad(Exception):
    """the outcome violates a contract clause outright (category, message)"""

    def __init__(self, cat, msg):
        self.cat, self.msg = cat, msg


class Odd(Bad):
    """a callee is used in a way its contract does not cover; reported only with a failing input"""


def cellv(b):
    return tov(b.col.val)


def observe(sc, r, name, obls, rep=True, minimal=True):
    """result object -> Fn, adding the representation obligations"""
    m = M()
    if not isinstance(r, sc.Stairs):
        raise Bad("pointwise", "result is %s, not a step function" % type(r).__name__)
    from .shim import scal
    init = scal(r.initial_value)
    if init is None:
        raise Bad("rep", "initial value of type %s" % type(r.initial_value).__name__)
    init = tov(init)
    obls.append(Obligation(name + ": initial value is finite or missing", "rigid", Not(init.inf), "pointwise"))
    lz = r.__dict__
    if "_lz_fn" in lz and "_lz_form" not in lz:     # postcondition of a callee, not looked into
        fn = lz["_lz_fn"]
        return Fn(init, fn.pre, fn.post), None
    if r._data is None:
        return Fn(init, init, init), None
    df = r._data
    if not isinstance(df, DataFrame):
        raise Bad("rep", "_data is %s" % type(df).__name__)
    idx = df.index
    if idx.kind != "x" or not idx.unique:
        raise Unsupported("result labels")
    mem = idx.rows.mem
    if not m.somewhere(mem):
        obls.append(Obligation(name + ": a function without steps carries no data", "event", FALSE, "rep"))
    if idx.sorted is not True:
        obls.append(Obligation(name + ": step points increase", "event", B(idx.sorted), "pointwise"))
    hv = r._valid_values and "value" in df.cols
    hd = r._valid_deltas and "delta" in df.cols
    if r._valid_values and not hv or r._valid_deltas and not hd or not (hv or hd):
        raise Bad("rep", "validity flags do not match the columns %s" % list(df.cols))
    if hv:
        new = cellv(df.cols["value"])
    else:
        d = cellv(df.cols["delta"])
        obls.append(Obligation(name + ": step changes alone represent only defined functions", "event",
                               Implies(mem, Not(d.nan)), "rep"))
        obls.append(Obligation(name + ": step changes alone represent only defined functions (initially)", "rigid",
                               Not(init.nan), "rep"))
        new = from_delta(mem, d, init)
    obls.append(Obligation(name + ": values are finite or missing", "event", Implies(mem, Not(new.inf)), "pointwise"))
    pre, post = hold(mem, new, init, "out")
    if hv and hd:
        obls.append(Obligation(name + ": both internal forms agree", "event",
                               Implies(mem, vsame(cellv(df.cols["delta"]), delta_of(mem, new, init))), "rep"))
    if minimal:
        obls.append(Obligation(name + ": no redundant step point", "event", Implies(mem, Not(vsame(pre, post))), "minimal"))
    return Fn(init, pre, post), idx


def frame(o, name, obls):
    """the operand still denotes what it did and its state is intact"""
    from .shim import scal
    ob = o.obj
    m = M()
    if ob._closed != o.closed:
        raise Bad("frame", "%s changed side" % o.tag)
    i = scal(ob.initial_value)
    obls.append(Obligation("%s: %s keeps its initial value" % (name, o.tag), "rigid", vsame(tov(i), o.init), "frame"))
    if not o.stepped:
        if ob._data is not None:
            raise Bad("frame", "%s gained steps" % o.tag)
        return
    df = ob._data
    if not isinstance(df, DataFrame):
        raise Bad("frame", "%s lost its data" % o.tag)
    if not df.index.rows.mem.eq(o.mem):
        obls.append(Obligation("%s: %s keeps its step points" % (name, o.tag), "event", Iff(df.index.rows.mem, o.mem), "frame"))
    if ob._valid_values:
        v = cellv(df.cols["value"])
        obls.append(Obligation("%s: %s keeps its values" % (name, o.tag), "event", Implies(o.mem, vsame(v, o.new)), "frame"))
    if ob._valid_deltas:
        v = cellv(df.cols["delta"])
        obls.append(Obligation("%s: %s keeps its step changes" % (name, o.tag), "event",
                               Implies(o.mem, vsame(v, o.delta)), "frame"))
    if not (ob._valid_values or ob._valid_deltas):
        raise Bad("frame", "%s lost both forms" % o.tag)


def unshared(r, operands, name):
    for o in operands:
        if r is o.obj:
            raise Bad("frame", "the result is the operand %s itself" % o.tag)
        if "_lz_fn" in r.__dict__:
            continue        # fresh by the callee's contract
        if r._data is not None and o.obj._data is not None:
            if r._data is o.obj._data:
                raise Bad("frame", "the result shares the data of %s" % o.tag)
            mine = {id(b) for n, b in r._data.cols.items() if n == "delta"}
            if any(id(b) in mine for n, b in o.obj._data.cols.items()):
                raise Bad("frame", "the result shares the step changes of %s" % o.tag)


def no_caches(r):
    if r._integral_and_mean is not None:
        raise Bad("cache", "result starts with a cached integral")
    d = r.dist
    if any(getattr(d, k, None) is not None for k in ("_ecdf", "_fractiles", "_percentiles")):
        raise Bad("cache", "result starts with a cached distribution")
