"""Contracts of the functions under verification.

A task is one function called on operands of one choice of internal forms: its precondition
is the representation invariant of the operands (assumed), its clauses are obligations on the
result (pointwise value, representation, minimality, frame, caches, closed side, absence of
exceptions).  The function itself is the code in /repo, executed on symbolic streams.
"""
import itertools
import linecache
import operator
import os

import z3

from .. import spec
from . import prove
from .core import *
from .core import V
from .prove import Obligation
from .shim import Buf, Col, GBool, Index, NoAttr, Num, Pos, Rows, SimError, SimValueError, SymBool, SymLen, scal, tov, unsup
from .stubs import patched
from .world import Bad, Fn, Odd, Operand, SymAlg, frame, no_caches, observe, unshared

A = SymAlg
SPECS = {**spec.BINARY_ARITH, **spec.BINARY_REL, **spec.BINARY_LOGIC}
REFL = {v: k for k, v in spec.REFLECTED.items()}
SYM = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
       "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
       "logical_and": operator.and_, "logical_or": operator.or_, "logical_xor": operator.xor,
       "negate": operator.neg, "invert": operator.invert}
FORMS = ("S", "V", "D", "VD")


def REFL_NAME(op):
    """method a scalar on the left reaches; relational ones are called the other way round"""
    return REFL.get(op) or "sym"
REPO = os.environ.get("VF_REPO", "/repo")


class Scal:
    """a real or missing scalar operand"""

    stepped = False

    def __init__(self, tag, nan=True):
        v = M().rigid_value(tag, nan)
        self.tag, self.form, self.init, self.obj, self.closed = tag, "K", v, Num(v), None
        self.fn = Fn(v, v, v)


class Run:
    """what one symbolic call collects"""

    def __init__(self, sc, name):
        self.sc, self.name, self.obls, self.operands, self.pts, self.refs = sc, name, [], [], [], []
        self.callees, self.hints = set(), []
        self.soft = False           # the contracts of the callees leave the outcome open

    def hint(self, fn):
        """a function the argument goes through: offered to the invariant inference"""
        self.hints.append(fn)
        self.know(fn)
        M().offsets.append(fn.pre)

    def operand(self, tag, form, closed="left"):
        o = Scal(tag) if form == "K" else Operand(self.sc, tag, form, closed)
        self.operands.append(o)
        return o

    def point(self, tag):
        q = z3.Real(tag)
        M().point(q)
        self.pts.append((tag, q))
        return q

    def know(self, *fns):
        m = M()
        m.known += [(k.init, k.pre, k.post) for k in fns]

    def extra(self):
        """values the invariants may speak about besides registers: specification, operands"""
        out, have = [(r.pre, "spec") for r in self.refs], {id(r.pre) for r in self.refs}
        for o in self.operands:
            p = o.fn.pre
            if o.form == "D" and id(p) not in have:
                out.append((p, o.tag))
        return out + [(h.pre, "hint") for h in self.hints]

    def ob(self, clause, kind, term, cat):
        self.obls.append(Obligation("%s: %s" % (self.name, clause), kind, term, cat))

    def fn_is(self, r, ref, closed=None, minimal=True, rep=True):
        """r denotes `ref`; the standard clauses of a returned step function"""
        out, idx = observe(self.sc, r, self.name, self.obls, rep=rep, minimal=minimal)
        self.refs.append(ref)
        self.ob("value at every point", "event", vsame(out.post, ref.post), "pointwise")
        self.ob("value towards -inf", "rigid", vsame(out.init, ref.init), "pointwise")
        if closed is not None:
            if r._closed != closed:
                raise Bad("closed", "closed side is %r, expected %r" % (r._closed, closed))
            self.ob("closed side", "rigid", TRUE, "closed")
        return out

    def frames(self, r=None):
        ops = [o for o in self.operands if o.form != "K"]
        for o in ops:
            frame(o, self.name, self.obls)
        if isinstance(r, self.sc.Stairs):
            unshared(r, ops, self.name)
            self.ob("shares nothing with operands", "rigid", TRUE, "frame")
            no_caches(r)
            self.ob("starts without caches", "rigid", TRUE, "cache")


def expected_side(*ops):
    """closed side of the operands with steps, else of the receiver"""
    for o in ops:
        if o.stepped:
            return o.closed
    return next((o.closed for o in ops if o.closed is not None), None)


def py(v):
    return "nan" if v != v else v


class Conc:
    """a counterexample execution as concrete inputs"""

    def __init__(self, run, md, subs):
        self.run, self.md, self.subs = run, md, subs
        m = M()
        self.X = [prove.rat(md.eval(z3.substitute(m.x, *s), model_completion=True)) for s in subs]
        self.P = {t: prove.rat(md.eval(q, model_completion=True)) for t, q in run.pts}
        vals = sorted(set(self.X) | set(self.P.values()))
        self.rank = {v: 2 * i for i, v in enumerate(vals)}

    def k(self, tag):
        return self.rank[self.P[tag]]

    def scalar(self, v):
        return py(prove.val(self.md, v))

    def operand(self, o):
        """[variants]"""
        init = py(prove.val(self.md, o.init))
        if o.form == "K":
            return [{"scalar": init, "type": t} for t in ("float", "int", "np")]
        steps = []
        if o.form != "S":
            for x, s in zip(self.X, self.subs):
                if prove.flag(self.md, o.mem, s):
                    steps.append([self.rank[x], py(prove.val(self.md, o.new, s))])
        out = []
        nan = any(v == "nan" for _, v in steps) or init == "nan"
        for route, form in {"S": [("values", "raw"), ("layers", "raw"), ("vector", "raw")], "V": [("values", "raw")],
                            "D": [("layers", "raw"), ("vector", "raw")],
                            "VD": [("values", "both"), ("layers", "both")]}[o.form]:
            if nan and route != "values":
                continue
            out.append({"init": init, "steps": steps, "route": route, "form": form, "closed": o.closed})
        return out


class Task:
    def __init__(self, fn, name, run, cases=None, cats=None, weight=1):
        self.fn, self.name, self.run, self.mkcases, self.weight = fn, name, run, cases, weight
        self.props = cats or {}

    def execute(self, sc, m):
        """-> Run (obligations collected) or raises Unsupported"""
        r = Run(sc, self.name)
        try:
            self.run(r)
        except Bad as b:
            r.soft = r.soft or isinstance(b, Odd)
            r.obls.append(Obligation("%s: %s" % (self.name, b.msg), "final", FALSE, b.cat))
        except (Unsupported, Infeasible, PathLimit, RecursionError):
            raise
        except SimError as e:
            r.obls.append(Obligation("%s: no exception (%s: %s)" % (self.name, type(e).__name__, str(e)[:120]), "final", FALSE, "noexc"))
        except Exception as e:
            where = raised_by_repo(e)
            if where is None:
                raise Unsupported("%s: %s at %s" % (type(e).__name__, str(e)[:120], innermost(e)))
            r.obls.append(Obligation("%s: no exception (%s at %s)" % (self.name, type(e).__name__, where), "final", FALSE, "noexc"))
        return r


def _frames(e):
    tb, out = e.__traceback__, []
    while tb:
        out.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno))
        tb = tb.tb_next
    return out


def innermost(e):
    f, n = _frames(e)[-1]
    return "%s:%d" % (os.path.basename(f), n)


def raised_by_repo(e):
    """the repo's own raise / assert statement, else None"""
    f, n = _frames(e)[-1]
    if "/staircase/" not in f:
        return None
    for k in range(n, max(0, n - 6), -1):     # multi-line raise
        l = linecache.getline(f, k).strip()
        if l.startswith(("raise", "assert")):
            return "%s:%d" % (os.path.basename(f), n)
        if l.endswith(":"):
            break
    return None


def prod(*alts, cap=12):
    return list(itertools.islice(itertools.product(*alts), cap))


# ---- binary operators ---------------------------------------------------------------------------
def binary(op, fa, fb, via="method", ca="left", cb="left"):
    S = SPECS[op]

    def run(R):
        f, g = R.operand("f", fa, ca), R.operand("g", fb, cb)
        ref = f.fn.map(lambda a, b: S(A, a, b), g.fn)
        R.know(f.fn, g.fn, ref)
        clash = f.stepped and g.stepped and ca != cb
        try:
            r = getattr(f.obj, op)(g.obj) if via == "method" else SYM[op](f.obj, g.obj) if via == "sym" else getattr(g.obj, via)(f.obj)
        except R.sc.core.exceptions.ClosedMismatchError:
            if not clash:
                raise
            R.ob("opposite sides are refused", "rigid", TRUE, "closed")
            R.frames()
            return
        if clash:
            raise Bad("closed", "opposite closed sides were merged")
        side = expected_side(*((g, f) if via in spec.REFLECTED else (f, g)))
        R.fn_is(r, ref, side)
        R.frames(r)

    def cases(R, c):
        f, g = R.operands
        out = [{"kind": "binary", "op": op, "args": [x, y], "dom": "float", "via": via, "follow": fu}
               for x, y in prod(c.operand(f), c.operand(g)) for fu in (False, True)]
        return out + [dict(k, dom="ts") for k in out[:4]]
    extra = "" if (ca, cb) == ("left", "left") else " %s/%s" % (ca, cb)
    return Task(op if via != "sym" else "operator " + op, "%s[%s,%s%s%s]" % (op, fa, fb, "" if via == "method" else " " + via, extra), run, cases)


def unary(op, fa, via="method", ca="left"):
    S = {"negate": spec.negate, "invert": spec.invert, "make_boolean": spec.make_boolean, "isna": spec.isna, "notna": spec.notna}[op]

    def run(R):
        f = R.operand("f", fa, ca)
        ref = f.fn.map(lambda a: S(A, a))
        R.know(f.fn, ref)
        r = getattr(f.obj, op)() if via == "method" else SYM[op](f.obj)
        R.fn_is(r, ref, ca)
        R.frames(r)

    def cases(R, c):
        return [{"kind": "unary", "op": op, "args": [x], "dom": d, "via": via} for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task(op, "%s[%s%s%s]" % (op, fa, "" if via == "method" else " " + via, "" if ca == "left" else " right"), run, cases)


# ---- masking ------------------------------------------------------------------------------------
def ind(q, strict_after):
    """value before / after the event of the indicator 'x >= q' """
    m = M()
    return And(m.started, Not(m.xlast < q)), Not(m.x < q)


def lab(q):
    from .shim import label
    return label(q)


def indomain(dom, task):
    """the contract of `task` with labels that are Timestamps / Timedeltas

    A failure counts only with an input that fails there and not with numbers for labels (soft; check.py)."""
    from . import shim
    inner = task.run

    def run(R):
        shim.DOMAIN[0] = dom
        R.name = task.name
        R.soft = True
        try:
            inner(R)
        finally:
            shim.DOMAIN[0] = None

    def cases(R, c):
        return [dict(k, dom=dom) for k in task.mkcases(R, c) if k.get("dom") == "float"]
    task.name = "%s:%s" % (dom, task.name)
    return Task(task.fn, task.name, run, cases if task.mkcases else None)


def window(lo, hi):
    """(towards -inf, before, after): is the right limit at x inside [lo, hi)"""
    m = M()
    a0, a1 = (TRUE, TRUE) if lo is None else ind(lo, True)
    b0, b1 = (FALSE, FALSE) if hi is None else ind(hi, True)
    return B(lo is None), And(a0, Not(b0)), And(a1, Not(b1))


def clip(how, fa, lo, hi, ca="left"):
    """lo / hi: 'q' a point, 'inf' / 'none' the infinite bound"""
    def run(R):
        m = M()
        f = R.operand("f", fa, ca)
        a = R.point("lo") if lo == "q" else None
        b = R.point("hi") if hi == "q" else None
        if a is not None and b is not None:
            m.P.append(a < b)
        w = window(a, b)
        keep = (lambda c, v: vite(c, v, VNAN)) if how != "mask" else (lambda c, v: vite(c, VNAN, v))
        ref = Fn(keep(w[0], f.fn.init), keep(w[1], f.fn.pre), keep(w[2], f.fn.post))
        R.know(f.fn, ref)
        la = lab(a) if a is not None else None if lo == "none" else -R.sc.inf
        lb = lab(b) if b is not None else None if hi == "none" else R.sc.inf
        if how == "clip":
            r = f.obj.clip(la, lb)
        elif how == "clipkw":
            r = f.obj.clip(lower=la, upper=lb)
        else:
            body = getattr(R.sc.Stairs, how)
            if how == "mask":
                R.hint(Fn(*[b2v(c) for c in w]))
            with patched(R, ARITH if how == "mask" else ()):
                r = body(f.obj, (la, lb))
        R.fn_is(r, ref, ca)
        R.frames(r)

    def cases(R, c):
        pts = dict(R.pts)
        return [{"kind": "clip", "how": how, "args": [x], "lo": c.k("lo") if "lo" in pts else None,
                 "hi": c.k("hi") if "hi" in pts else None, "dom": d, "none": "none" in (lo, hi)}
                for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("clip" if how.startswith("clip") else how + " (tuple)",
                "%s[%s,%s,%s%s]" % (how, fa, lo, hi, "" if ca == "left" else " right"), run, cases)


ARITH = ("add", "subtract", "multiply", "divide", "negate")


def maskwhere(op, fa, fb, ca="left", cb="left", modular=True):
    S = {"mask": spec.mask, "where": spec.where}[op]

    def run(R):
        f, g = R.operand("f", fa, ca), R.operand("g", fb, cb)
        ref = f.fn.map(lambda a, b: S(A, a, b), g.fn)
        R.know(f.fn, g.fn, ref, g.fn.map(lambda b: S(A, num(0), b)))
        clash = f.stepped and g.stepped and ca != cb
        try:
            body = getattr(R.sc.Stairs, op)
            with patched(R, ARITH if modular else ()):
                r = body(f.obj, g.obj)
        except R.sc.core.exceptions.ClosedMismatchError:
            if not clash:
                raise
            R.ob("opposite sides are refused", "rigid", TRUE, "closed")
            R.frames()
            return
        if clash:
            raise Bad("closed", "opposite closed sides were merged")
        R.fn_is(r, ref, expected_side(f, g))
        R.frames(r)

    def cases(R, c):
        f, g = R.operands
        return [{"kind": "maskwhere", "op": op, "args": [x, y], "dom": d} for x, y in prod(c.operand(f), c.operand(g)) for d in ("float", "ts")]
    extra = "" if (ca, cb) == ("left", "left") else " %s/%s" % (ca, cb)
    return Task(op, "%s[%s,%s%s]" % (op, fa, fb, extra), run, cases)


# ---- layering ---------------------------------------------------------------------------------
def layer(fa, start, end, value="K", ca="left"):
    """start / end: 'q' a point, 'none' / 'nan' / 'inf' missing; value: 'K' a real, 'none' missing"""
    def run(R):
        m = M()
        f = R.operand("f", fa, ca)
        a = R.point("start") if start == "q" else None
        b = R.point("end") if end == "q" else None
        v = m.rigid_value("value", nan=False) if value == "K" else num(1)
        R.layer_value = v
        w = window(a, None)[0:3] if a is not None else (TRUE, TRUE, TRUE)
        e = window(None, b)
        e = (FALSE, FALSE, FALSE) if b is None else (FALSE, Not(e[1]), Not(e[2]))
        if b is not None:
            m0 = ind(b, True)
            e = (FALSE,) + m0
        inc = [vadd(vite(p, v, num(0)), vite(q, vneg(v), num(0))) for p, q in zip(w, e)]
        ref = f.fn.map(lambda x, y: spec.add(A, x, y), Fn(*inc))
        R.know(f.fn, ref)
        R.hint(Fn(*inc))
        m.offsets.append(ref.init)
        f.obj._integral_and_mean = stale = object()
        f.obj.dist._ecdf = stale
        miss = {"none": None, "nan": float("nan"), "inf": None}
        la = lab(a) if a is not None else -R.sc.inf if start == "inf" else miss[start]
        lb = lab(b) if b is not None else R.sc.inf if end == "inf" else miss[end]
        kw = {"value": Num(v)} if value == "K" else {}
        body = R.sc.Stairs.layer
        with patched(R, ARITH):
            r = body(f.obj, la, lb, **kw)
        if r is not f.obj:
            raise Bad("pointwise", "layer returned another object")
        if r._integral_and_mean is stale or getattr(r.dist, "_ecdf", None) is stale:
            R.ob("caches are kept only when the function is unchanged", "event", vsame(ref.post, f.fn.post), "cache")
            R.ob("caches are kept only when the function is unchanged (initially)", "rigid", vsame(ref.init, f.fn.init), "cache")
        else:
            R.ob("caches are dropped", "rigid", TRUE, "cache")
        R.fn_is(r, ref, ca)

    def cases(R, c):
        pts = dict(R.pts)
        t = [c.k("start") if "start" in pts else None, c.k("end") if "end" in pts else None,
             None if value != "K" else py(prove.val(c.md, R.layer_value))]
        return [{"kind": "layer", "base": x, "hist": [{"t": [t], "box": "scalar", "miss": "nan" if "nan" in (start, end) else "none",
                                                       "sent": "inf" in (start, end)}], "dom": d, "deep": True}
                for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("layer (scalar)", "layer[%s,%s,%s,%s%s]" % (fa, start, end, value, "" if ca == "left" else " right"), run, cases)


# ---- filling ------------------------------------------------------------------------------------
FILL = ARITH + ("isna", "notna", "mask", "where", "fillna")


def fillna(fa, fb, ca="left", cb="left", modular=True):
    def run(R):
        f, g = R.operand("f", fa, ca), R.operand("g", fb, cb)
        ref = f.fn.map(lambda a, b: spec.fillna(A, a, b), g.fn)
        na = f.fn.map(lambda a: spec.isna(A, a))
        f0 = f.fn.map(lambda a: spec.fillna(A, a, num(0)))
        R.know(f.fn, g.fn, ref, na, f0)
        if fb != "K":
            g0 = g.fn.map(lambda a: spec.fillna(A, a, num(0)))
            t = g0.map(lambda a, b: spec.multiply(A, a, b), na)
            R.know(g0, g.fn.map(lambda a: spec.isna(A, a)), t, f0.map(lambda a, b: spec.add(A, a, b), t))
        clash = f.stepped and g.stepped and ca != cb
        try:
            body = R.sc.Stairs.fillna
            with patched(R, FILL if modular and fb != "K" else ()):
                r = body(f.obj, g.obj)
        except R.sc.core.exceptions.ClosedMismatchError:
            if not clash:
                raise
            R.ob("opposite sides are refused", "rigid", TRUE, "closed")
            R.frames()
            return
        if clash:
            raise Bad("closed", "opposite closed sides were merged")
        R.fn_is(r, ref, expected_side(f, g))
        R.frames(r)

    def cases(R, c):
        f, g = R.operands
        return [{"kind": "fillna", "args": [x, y], "dom": d} for x, y in prod(c.operand(f), c.operand(g)) for d in ("float", "ts")]
    extra = "" if (ca, cb) == ("left", "left") else " %s/%s" % (ca, cb)
    return Task("fillna", "fillna[%s,%s%s]" % (fa, fb, extra), run, cases)


def fillmethod(fa, method, ca="left"):
    def run(R):
        from .shim import backfill, hold
        f = R.operand("f", fa, ca)
        if not f.stepped:
            ref = f.fn
        elif method in ("pad", "ffill"):
            pre, post = hold(And(f.mem, Not(f.new.nan)), f.new, f.init, "spec.ffill")
            ref = Fn(f.init, pre, post)
        else:
            ref = bfill_ref(f)
        R.know(f.fn, ref)
        r = f.obj.fillna(method)
        R.fn_is(r, ref, ca)
        R.frames(r)

    def cases(R, c):
        return [{"kind": "fillna", "args": [x], "method": method, "dom": d} for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("fillna (%s)" % method, "fillna[%s,%s%s]" % (fa, method, "" if ca == "left" else " right"), run, cases)


def bfill_ref(f):
    """each undefined piece takes the value of the next defined piece"""
    from .shim import backfill, first_value, hold
    b = backfill(f.mem, f.new)
    init = vite(f.init.nan, first_value(f.mem, b), f.init)
    pre, post = hold(f.mem, b, init, "spec.bfill")
    return Fn(init, pre, post)


# ---- evaluation and views -----------------------------------------------------------------------
def evaluate(how, fa, arg="scalar", ca="left"):
    """how: 'left' / 'right' limits, 'sample', 'call'; arg: scalar or vector"""
    def run(R):
        from .mods import VecArg, VecOut
        m = M()
        f = R.operand("f", fa, ca)
        q = R.point("q")
        x = lab(q) if arg == "scalar" else VecArg(lab(q))
        R.know(f.fn)
        r = f.obj.limit(x, how) if how in ("left", "right") else f.obj.sample(x) if how == "sample" else f.obj(x)
        side = how if how in ("left", "right") else "right" if ca == "left" else "left"
        if arg == "vector" and not isinstance(r, VecOut):
            raise Unsupported("result of type %s" % type(r).__name__)
        c = scal(r.val if arg == "vector" else r)
        if c is None:
            raise Unsupported("value of type %s" % type(r).__name__)
        want = f.fn.post if side == "right" else f.fn.pre
        R.ob("value at the point", "event", Implies(m.x == q, vsame(tov(c), want)), "pointwise")
        R.frames()

    def cases(R, c):
        return [{"kind": "eval", "f": x, "dom": d} for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("limit" if how in ("left", "right") else how, "%s[%s,%s%s]" % (how, fa, arg, "" if ca == "left" else " right"), run, cases)


def eval_cases(R, c):
    return [{"kind": "eval", "f": x, "dom": d} for x in c.operand(R.operands[0]) for d in ("float", "ts")]


def column(r, f, what):
    """a returned Series: (rows, value) on plain labels"""
    from .shim import Series
    if not isinstance(r, Series):
        raise Bad("pointwise", "%s is %s" % (what, type(r).__name__))
    r.force()
    if r.index.kind != "x" or r.index.off is not None:
        raise Unsupported("labels of %s" % what)
    return r.index.rows.mem, tov(r.buf.col.val)


def views(what, fa, ca="left"):
    def run(R):
        from .shim import Arr, DataFrame, SymLen, same_rows, Rows
        m = M()
        f = R.operand("f", fa, ca)
        R.know(f.fn)
        mem = f.mem if f.stepped else FALSE
        r = getattr(f.obj, what)
        r = r() if what == "to_frame" else r
        if what in ("step_values", "step_changes"):
            rows, v = column(r, f, what)
            R.ob("indexed by the step points", "event", Iff(rows, mem), "pointwise")
            if what == "step_values":
                R.ob("right limits at the step points", "event", Implies(mem, vsame(v, f.fn.post)), "pointwise")
            elif f.stepped:
                d = f.fn.map(lambda a: a)
                R.ob("change of value where defined on both sides", "event",
                     Implies(And(mem, Not(d.pre.nan), Not(d.post.nan)), vsame(v, vsub(d.post, d.pre))), "pointwise")
                R.ob("missing where the function becomes undefined", "event", Implies(And(mem, d.post.nan), v.nan), "pointwise")
        elif what == "step_points":
            if not f.stepped:
                if isinstance(r, Arr) and not is_f(r.rows.mem):
                    raise Bad("pointwise", "step points of a constant")
                R.ob("no step points", "rigid", TRUE, "pointwise")
            else:
                if not isinstance(r, Arr):
                    raise Unsupported("step points of type %s" % type(r).__name__)
                R.ob("exactly the points of change", "event", Iff(r.rows.mem, mem), "pointwise")
                R.ob("labels", "event", Implies(mem, vsame(tov(r.buf.col.val), V(FALSE, m.x))), "pointwise")
        elif what == "number_of_steps":
            if isinstance(r, int):
                if f.stepped or r != 0:
                    raise Bad("pointwise", "number of steps is %d" % r)
                R.ob("counts the step points", "rigid", TRUE, "pointwise")
            elif isinstance(r, SymLen):
                if r.extra:
                    raise Bad("pointwise", "number of steps is off by %d" % r.extra)
                R.ob("counts the step points", "event", Iff(r.rows.mem, mem), "pointwise")
            else:
                raise Unsupported("number of steps of type %s" % type(r).__name__)
        elif what == "to_frame":
            if not isinstance(r, DataFrame) or not hasattr(r, "literal"):
                raise Unsupported("frame not built from lists")
            tile(R, f, r.literal)
        R.frames()
    return Task(what, "%s[%s%s]" % (what, fa, "" if ca == "left" else " right"), run, eval_cases)


def parts(col):
    """(leading cells, (rows, value), trailing cells) of a list-like column"""
    from .shim import Arr, StreamList
    if isinstance(col, list):
        return col, (FALSE, VNAN), []
    if isinstance(col, StreamList):
        h, (mem, v), t = parts(col.arr)
        return col.pre + h, (mem, v), t + col.post
    if isinstance(col, Arr) and col.zero is None:
        return list(col.buf.col.heads), (col.rows.mem, tov(col.buf.col.val)), list(col.buf.col.tails)
    raise Unsupported("column of type %s" % type(col).__name__)


def tile(R, f, lit):
    sc, m = R.sc, M()
    if sorted(lit) != ["end", "start", "value"]:
        raise Bad("pointwise", "columns %s" % sorted(lit))
    s, e, v = parts(lit["start"]), parts(lit["end"]), parts(lit["value"])
    if not f.stepped:
        if [len(p[0]) + len(p[2]) for p in (s, e, v)] != [1, 1, 1]:
            raise Bad("pointwise", "a constant has one row")
    elif [(len(p[0]), len(p[2])) for p in (s, e, v)] != [(1, 0), (0, 1), (1, 0)]:
        raise Bad("pointwise", "rows do not tile")
    first = lambda p: (p[0] + p[2])[0]
    if not (first(s) is -sc.inf or first(s) == -sc.inf) or not (first(e) is sc.inf or first(e) == sc.inf):
        raise Bad("pointwise", "outer rows are not unbounded")
    R.ob("first row carries the value towards -inf", "rigid", vsame(tov(scal_or(first(v))), f.init), "pointwise")
    if f.stepped:
        for p, n in ((s, "starts"), (e, "ends")):
            R.ob("%s are the step points" % n, "event", And(Iff(p[1][0], f.mem), Implies(f.mem, vsame(p[1][1], V(FALSE, m.x)))), "pointwise")
        R.ob("one row per piece", "event", Iff(v[1][0], f.mem), "pointwise")
        R.ob("each row carries the value of its piece", "event", Implies(f.mem, vsame(v[1][1], f.fn.post)), "pointwise")


def scal_or(c):
    x = scal(c)
    return c if x is None else x


# ---- copying, translating, comparing ------------------------------------------------------------
def copy(fa, ca="left"):
    def run(R):
        f = R.operand("f", fa, ca)
        R.know(f.fn)
        r = f.obj.copy()
        R.fn_is(r, f.fn, ca)
        R.frames(r)
    return Task("copy", "copy[%s%s]" % (fa, "" if ca == "left" else " right"), run, None)


def shift(fa, ca="left"):
    def run(R):
        from .shim import DataFrame
        m = M()
        f = R.operand("f", fa, ca)
        d = z3.Real("delta")
        m.rigidx.append(d)
        R.pts.append(("delta", d))
        r = f.obj.shift(Num(V(False, d), "np"))
        if not isinstance(r, R.sc.Stairs):
            raise Bad("pointwise", "shift returned %s" % type(r).__name__)
        i = scal(r.initial_value)
        R.ob("value towards -inf", "rigid", vsame(tov(i), f.init), "pointwise")
        if r._closed != ca:
            raise Bad("closed", "closed side is %r, expected %r" % (r._closed, ca))
        R.ob("closed side", "rigid", TRUE, "closed")
        if not f.stepped:
            if r._data is not None:
                raise Bad("pointwise", "a constant gained steps")
        else:
            df = r._data
            if not isinstance(df, DataFrame):
                raise Bad("pointwise", "steps were lost")
            if df.index.kind != "x":
                raise Unsupported("labels of the shifted function")
            off = df.index.off if df.index.off is not None else rv(0)
            R.ob("every step point moves by delta", "rigid", off == d, "pointwise")
            R.ob("exactly the step points move", "event", Iff(df.index.rows.mem, f.mem), "pointwise")
            hv, hd = r._valid_values and "value" in df.cols, r._valid_deltas and "delta" in df.cols
            if r._valid_values and not hv or r._valid_deltas and not hd or not (hv or hd):
                raise Bad("rep", "validity flags do not match the columns %s" % list(df.cols))
            if hv:
                R.ob("values move along", "event", Implies(f.mem, vsame(tov(df.cols["value"].col.val), f.new)), "pointwise")
            if hd:
                R.ob("step changes move along", "event", Implies(f.mem, vsame(tov(df.cols["delta"].col.val), f.delta)), "pointwise")
                if not hv:
                    R.ob("step changes alone represent only defined functions", "event", Implies(f.mem, Not(f.new.nan)), "rep")
                    R.ob("step changes alone represent only defined functions (initially)", "rigid", Not(f.init.nan), "rep")
        R.frames(r)

    def cases(R, c):
        k = int(c.P["delta"]) or 2
        return [{"kind": "shift", "f": x, "dom": d, "d": k, "deep": True} for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("shift", "shift[%s%s]" % (fa, "" if ca == "left" else " right"), run, cases)


def diff(fa, ca="left"):
    """against the contract of shift, whose result is an arbitrary function here"""
    def run(R):
        f = R.operand("f", fa, ca)
        d = Num(V(False, z3.Real("delta")), "np")
        seen_ = []

        def stub(self, delta):
            if self is not f.obj and not same_fn(R, self, f):
                raise Unsupported("shift of another function")
            seen_.append(delta)
            if not f.stepped:
                g = f.fn
            else:
                mem, m = M().input_bool("g.row"), M()
                from .shim import hold
                new = m.input_value("g.val")
                pre, post = hold(mem, new, f.init, "g")
                m.U.append(Implies(mem, Not(vsame(new, pre))))
                m.E.append(mem)
                g = Fn(f.init, pre, post)
            R.know(g)
            R.g = g
            from .stubs import abstract
            return abstract(R.sc, g, self._closed)
        C = R.sc.Stairs
        old = C.shift
        C.shift = stub
        try:
            body = C.diff
            with patched(R, ARITH):
                r = body(f.obj, d)
        finally:
            C.shift = old
        if len(seen_) != 1 or seen_[0] is not d:
            if not seen_ or not (scal(seen_[0]) is not None and tov(scal(seen_[0])).r.eq(d.v.r)):
                raise Odd("pointwise", "the function is not shifted by delta once")
        ref = f.fn.map(lambda a, b: spec.subtract(A, a, b), R.g)
        R.fn_is(r, ref, ca)
        R.frames(r)

    def cases(R, c):
        return [{"kind": "shift", "f": x, "dom": d, "d": k, "deep": True} for x in c.operand(R.operands[0]) for d in ("float", "ts") for k in (0, 2, -4)]
    return Task("diff", "diff[%s%s]" % (fa, "" if ca == "left" else " right"), run, cases)


def same_fn(R, s, f):
    return False


def identical(fa, fb, via="method", ca="left", cb="left"):
    """True exactly when the two functions agree everywhere"""
    def run(R):
        from .shim import seen
        m = M()
        f, g = R.operand("f", fa, ca), R.operand("g", fb, cb)
        R.know(f.fn, g.fn)
        r = f.obj.identical(g.obj) if via == "method" else R.sc.Stairs.identical(g.obj, f.obj)
        r = bool(r)
        differ = Not(vsame(f.fn.post, g.fn.post))
        if r:
            R.ob("True only of equal functions", "event", Not(differ), "minimal")
            R.ob("True only of equal functions (initially)", "rigid", vsame(f.fn.init, g.fn.init), "minimal")
        else:
            R.ob("False only of different functions", "final", Or(seen(differ)[0], Not(vsame(f.fn.init, g.fn.init))), "minimal")
        R.frames()

    def cases(R, c):
        f, g = R.operands
        return [{"kind": "ident", "trees": [x, y], "dom": d} for x, y in prod(c.operand(f), c.operand(g)) for d in ("float", "ts")]
    return Task("identical", "identical[%s,%s%s]" % (fa, fb, "" if via == "method" else " " + via), run, cases)


def truth(fa):
    """bool(f) exactly when f is the constant 1"""
    def run(R):
        from .shim import seen
        f = R.operand("f", fa)
        r = bool(f.obj)
        one = lambda v: vsame(v, num(1))
        if r:
            R.ob("True only of the constant 1", "event", one(f.fn.post), "minimal")
            R.ob("True only of the constant 1 (initially)", "rigid", one(f.fn.init), "minimal")
        else:
            R.ob("False only of other functions", "final", Or(seen(Not(one(f.fn.post)))[0], Not(one(f.fn.init))), "minimal")
        R.frames()
    return Task("__bool__", "bool[%s]" % fa, run, None)


def from_values(inf=False, closed="left"):
    def run(R):
        from .shim import Series, hold
        m = M()
        init = m.rigid_value("init")
        mem = m.input_bool("s.row")
        m.E.append(mem)
        v = m.input_value("s.val")
        pre, post = hold(mem, v, init, "s")
        ref = Fn(init, pre, post)
        R.know(ref)
        s = Series._mk(Index(Rows(mem)), Buf(Col(v)))
        r = R.sc.Stairs.from_values(initial_value=Num(init), values=s, closed=closed)
        R.fn_is(r, ref, closed)
        if s.index.rows.mem is not mem:
            raise Bad("frame", "the given Series was changed")
        R.ob("the given Series is unchanged", "event", Implies(mem, vsame(tov(s.buf.col.val), v)), "frame")
        R.frames(r)

    return Task("from_values", "from_values[%s]" % closed, run, None)


# ---- statistics -----------------------------------------------------------------------------------
def lengths(f):
    """(event flag: a finite piece ends here, its value, its length)"""
    from .shim import held, seen
    m = M()
    mem = f.mem
    last = held(mem, V(FALSE, m.x), "lastrow")[0]
    m.lemmas.append(Implies(seen(mem)[0], And(Not(last.nan), last.r <= m.xlast, m.started)))
    return And(mem, seen(mem)[0]), f.fn.pre, r_sub(m.x, last.r)


def total_of(mem, v, positive=False):
    """sum of v over the events with mem, as a rigid value"""
    from .shim import accum, seen
    m = M()
    pre, _ = accum(mem, V(FALSE, v))
    c = m.rigid_value("spec.sum", nan=False)
    m.FIN.append(c.r == pre.r)
    if positive:
        m.lemmas += [Implies(seen(mem)[0], pre.r > 0), Implies(Not(seen(mem)[0]), pre.r == 0)]
    return c


def moments(f):
    """(flag: a defined finite piece exists (final state), integral, mean)"""
    from .shim import e_div, seen
    piece, v, ln = lengths(f)
    on = And(piece, Not(v.nan))
    has = seen(on)[0]
    i = total_of(on, r_mul(v.r, ln))
    t = total_of(on, ln, True)
    return has, i, e_div(i, t)


def integral_mean(which, fa, ca="left"):
    """which: sequence of the queries put"""
    def run(R):
        f = R.operand("f", fa, ca)
        R.know(f.fn)
        if f.stepped:
            has, i, mu = moments(f)
        for n, q in enumerate(which):
            r = getattr(f.obj, q)()
            c = scal(r)
            if c is None:
                raise Unsupported("%s of type %s" % (q, type(r).__name__))
            if f.stepped:
                R.ob("%s%s" % (q, "" if n == 0 else " (query %d)" % (n + 1)), "final", Implies(has, vsame(tov(c), i if q == "integral" else mu)),
                     "pointwise" if n == 0 else "cache")
        R.frames()

    def cases(R, c):
        return [{"kind": "c08", "f": x, "dom": d, "order": list(which)} for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("integral / mean", "%s[%s%s]" % ("+".join(which), fa, "" if ca == "left" else " right"), run, cases)


def value_sums(fa, group=True, dropna=True, ca="left"):
    def run(R):
        from .shim import Grouped
        m = M()
        f = R.operand("f", fa, ca)
        R.know(f.fn)
        r = f.obj.value_sums(**{k: v for k, v in (("dropna", dropna), ("group", group)) if not v})
        if not f.stepped:
            R.frames()
            return
        piece, v, ln = lengths(f)
        if group:
            if not isinstance(r, Grouped):
                raise Unsupported("value_sums of type %s" % type(r).__name__)
            if r.extra and dropna:
                raise Bad("pointwise", "missing values are counted")
            on = And(piece, Not(v.nan))
            got = And(r.rows.mem, Not(r.key.nan)) if r.dropna else r.rows.mem
        R.ob("one entry per finite defined piece", "event", Iff(got, on), "pointwise")
        R.ob("entries carry the value", "event", Implies(on, vsame(r.key, v)), "pointwise")
        R.ob("entries carry the length", "event", Implies(on, And(r.val.fin, r.val.r == ln)), "pointwise")
        R.frames()

    def cases(R, c):
        return [{"kind": "c08", "f": x, "dom": d, "order": ["value_sums"]} for x in c.operand(R.operands[0]) for d in ("float", "ts")]
    return Task("value_sums", "value_sums[%s%s]" % (fa, "" if ca == "left" else " right"), run, cases)


# ---- minimum, maximum, values in a window ---------------------------------------------------------
def in_window(f, lo, hi, how, side):
    """[(event flag, value)], [values]: the values f takes in the window at events / from the start"""
    from .core import V as V_
    m = M()
    x = m.x
    after, before = [TRUE], []
    if lo is not None:
        after.append(lo <= x)
    if hi is not None:
        after.append(x < hi)
    ev = [(And(*after), f.post)]
    if side == "right" and lo is not None and how in ("both", "left"):
        ev.append((x == lo, f.pre))
    if side == "left" and hi is not None and how in ("both", "right"):
        ev.append((x == hi, f.post))
    return ev, ([f.init] if lo is None else [])


def window_args(R, lo, hi, how):
    m = M()
    a = R.point("lo") if lo == "q" else None
    b = R.point("hi") if hi == "q" else None
    if a is not None and b is not None:
        m.P.append(a <= b if how == "both" else a < b)
    w = (lab(a) if a is not None else None if lo == "none" else -R.sc.inf,
         lab(b) if b is not None else None if hi == "none" else R.sc.inf)
    return a, b, w


def exists(ev, heads, p):
    """some value in the window satisfies p"""
    from .shim import seen
    t = Or(*[And(c, Not(v.nan), p(v)) for c, v in ev])
    s = seen(t)
    return Or(s[0], *[And(Not(v.nan), p(v)) for v in heads])


def c10case(R, c, lo, hi, how):
    pts = dict(R.pts)
    return [{"kind": "c10", "f": x, "dom": d, "win": [c.k("lo") if "lo" in pts else None, c.k("hi") if "hi" in pts else None],
             "wclosed": how, "sent": "inf" in (lo, hi), "plain": False} for x in c.operand(R.operands[0]) for d in ("float", "ts")]


def values_in_range(fa, lo, hi, how, ca="left", given=True):
    def run(R):
        m = M()
        f = R.operand("f", fa, ca)
        R.know(f.fn)
        v = m.rigid_value("v", nan=False)
        a, b, w = window_args(R, lo, hi, how)
        r = f.obj.values_in_range(w, how) if given else f.obj.values_in_range(w)
        ev, heads = in_window(f.fn, a, b, how, ca)
        spec_has = exists(ev, heads, lambda u: vsame(u, v))
        from .shim import Arr
        if isinstance(r, Arr) and r.zero is None:
            col, mem = r.buf.col, r.rows.mem
        else:
            raise Unsupported("values_in_range of type %s" % type(r).__name__)
        cells = [tov(h) for h in col.heads + col.tails]
        if not is_f(mem):
            R.ob("no missing value", "event", Implies(mem, Not(tov(col.val).nan)), "pointwise")
        for h in cells:
            R.ob("no missing value (initially)", "rigid", Not(h.nan), "pointwise")
        code_has = exists([(mem, tov(col.val))] if not is_f(mem) else [], cells, lambda u: vsame(u, v))
        suggest(m, f, a, b, spec_has, code_has, lambda u: And(Not(u.nan), vsame(u, v)))
        R.ob("contains only values taken in the window", "final", Implies(code_has, spec_has), "pointwise")
        R.ob("contains every value taken in the window", "final", Implies(spec_has, code_has), "pointwise")
        R.frames()
    return Task("values_in_range", "values_in_range[%s %s,%s %s%s]" % (fa, lo, hi, how, "" if ca == "left" else " right"), run,
                lambda R, c: c10case(R, c, lo, hi, how))


def suggest(m, f, a, b, spec_has, code_has, p):
    """rows before the window count for the code once their value reaches into the window"""
    out = And(code_has, Not(spec_has))
    m.lemmas += [Implies(spec_has, code_has), Implies(out, FALSE)]
    inside = [TRUE] if a is None else [And(m.started, m.xlast >= a), And(m.started, m.xlast > a)] + \
        [And(m.started, m.xlast >= q) for q in m.rigidx if not q.eq(a)]
    for c in inside:
        for d in [TRUE] if b is None else [Not(And(m.started, m.xlast >= b)), Not(And(m.started, m.xlast > b))]:
            m.lemmas.append(Implies(And(c, d, p(f.fn.pre)), code_has))
    if a is not None:
        m.lemmas.append(Implies(out, And(p(f.fn.pre), Not(And(m.started, m.xlast >= a)))))
        m.lemmas.append(Implies(out, And(p(f.fn.pre), Not(And(m.started, m.xlast > a)))))


class ValueSet(NoAttr):
    """postcondition of values_in_range: a sorted set of values, known through what is in it"""

    def __init__(self, ev, heads):
        self.ev, self.heads = ev, heads

    def extreme(self, which, default=None):
        m = M()
        here = [(And(c, Not(v.nan)), v) for c, v in self.ev]
        heads = [h for h in self.heads if not m.branch(h.nan)]
        some = m.somewhere(Or(*[c for c, _ in here])) if here else False
        if not heads and not some:
            if default is None:
                raise SimValueError("%s of nothing" % which)
            return default
        c = m.rigid_value(which, nan=False)
        le = (lambda v: c.r <= v.r) if which == "min" else (lambda v: c.r >= v.r)
        m.P += [le(h) for h in heads]
        m.U += [Implies(k, le(v)) for k, v in here]
        if heads and (not some or m.branch(c.r == heads[0].r)):
            m.P.append(c.r == heads[0].r)
        else:
            m.E.append(Or(*[And(k, c.r == v.r) for k, v in here]))
        return Num(c, "np")

    def min(self):
        return self.extreme("min")

    def max(self):
        return self.extreme("max")

    def __getitem__(self, k):
        if isinstance(k, int) and k in (0, -1):
            return self.extreme("min" if k == 0 else "max")
        unsup("element of a value set")

    def copy(self):
        return self

    def __array_ufunc__(self, *a, **k):
        unsup("value set")


def extremes(which, fa, lo, hi, how, ca="left", via="method"):
    def run(R):
        m = M()
        f = R.operand("f", fa, ca)
        R.know(f.fn)
        a, b, w = window_args(R, lo, hi, how)
        C = R.sc.Stairs
        calls = []

        def stub(self, where=(-R.sc.inf, R.sc.inf), closed=None):
            if self is not f.obj:
                raise Unsupported("values_in_range of another function")
            los, his = [None if x is None or type(x).__name__ in ("Inf", "NegInf") else tov(scal(x)).r for x in where]
            return ValueSet(*in_window(f.fn, los, his, closed or self._closed, ca))
        vir = C.values_in_range
        C.values_in_range = stub
        try:
            r = call(R, C, f, w)
        finally:
            C.values_in_range = vir
        finish(R, f, a, b, r)

    def call(R, C, f, w):
        if via == "method":
            return R.sc.core.stats.statistic.__dict__["_" + which](f.obj, w, how)
        if via == "plain":
            return getattr(f.obj, which)()
        old = C.clip
        C.clip = lambda self, *a, **k: object()      # the clipped function is not used for min / max
        try:
            return f.obj.agg(which, w, how)
        finally:
            C.clip = old

    def finish(R, f, a, b, r):
        c = scal(r)
        if c is None:
            raise Unsupported("%s of type %s" % (which, type(r).__name__))
        c = tov(c)
        ev, heads = in_window(f.fn, a, b, how, ca)
        some = exists(ev, heads, lambda u: TRUE)
        R.ob("missing exactly when the function is undefined on the window", "final", Iff(c.nan, Not(some)), "pointwise")
        R.ob("is a value taken in the window", "final", Implies(Not(c.nan), exists(ev, heads, lambda u: vsame(u, c))), "pointwise")
        beat = (lambda u: vlt(u, c)) if which == "min" else (lambda u: vlt(c, u))
        R.ob("no value in the window exceeds it", "final", Implies(Not(c.nan), Not(exists(ev, heads, beat))), "pointwise")
        R.frames()
    return Task(which, "%s[%s %s,%s %s%s%s]" % (which, fa, lo, hi, how, "" if ca == "left" else " right", "" if via == "method" else " " + via), run,
                lambda R, c: c10case(R, c, lo, hi, how))


# ---- covariance, correlation -----------------------------------------------------------------------
def equal_fns(a, b):
    m = M()
    return m.check(*m.U, *m.P, Not(vsame(a.post, b.post))) == z3.unsat and m.check(*m.P, Not(vsame(a.init, b.init))) == z3.unsat


def moment(which, fa, fb, lo, hi, lag=None, ca="left", cb="left"):
    """cov / corr against the contracts of isna, |, mask, *, shift, clip, mean, std (and, for corr, cov)"""
    def run(R):
        from .shim import e_div
        from .stubs import abstract, denoted, value_of
        m = M()
        f, g = R.operand("f", fa, ca), R.operand("g", fb, cb)
        a, b, w = window_args(R, lo, hi, "neither")
        w = list(w)
        kw = {}
        gfn = g.fn
        d = None
        if lag is not None:
            d = Num(V(False, z3.Real("lag")), "np")
            if lag != "zero":
                m.P.append(d.v.r != 0)
                if g.stepped:          # g shifted by -lag: some function of which nothing is known here
                    mem = m.input_bool("gs.row")
                    new = m.input_value("gs.val")
                    from .shim import hold
                    pre, post = hold(mem, new, g.fn.init, "gs")
                    m.U.append(Implies(mem, Not(vsame(new, pre))))
                    m.E.append(mem)
                    gfn = Fn(g.fn.init, pre, post)
                if lag == "pre" and b is not None:
                    b = z3.simplify(b - d.v.r)
                    m.point(b)
                    if a is not None:
                        m.P.append(a < b)
                kw["clip"] = lag
            else:
                m.P.append(d.v.r == 0)
            kw["lag"] = d
        R.know(f.fn, g.fn, gfn)
        inw = window(a, b)
        parts = lambda fn: (fn.init, fn.pre, fn.post)

        def common(p, q):
            """p where both are defined, in the window"""
            return Fn(*[vite(And(Not(u.nan), Not(v.nan), k), u, VNAN) for u, v, k in zip(parts(p), parts(q), inw)])
        fw, gw = common(f.fn, gfn), common(gfn, f.fn)
        fgw = fw.map(vmul, gw)
        refs = {"mean": [(fgw, m.rigid_value("mean_fg")), (fw, m.rigid_value("mean_f")), (gw, m.rigid_value("mean_g"))],
                "std": [(fw, m.rigid_value("std_f")), (gw, m.rigid_value("std_g"))]}
        m.P += [Implies(Not(v.nan), v.r >= 0) for _, v in refs["std"]]
        # the statistics depend on the function only
        for l in refs.values():
            for i, (p, u) in enumerate(l):
                for q, v in l[:i]:
                    if equal_fns(p, q):
                        m.P.append(vsame(u, v))
        kappa = m.rigid_value("cov_fg")

        def stat(name):
            def stub(self):
                fn, _, _ = value_of(R, self, name)
                R.callees.add(name)
                for ref, v in refs[name]:
                    if equal_fns(fn, ref):
                        return Num(v, "np")
                R.soft = True
                return Num(m.rigid_value(name), "np")
            return stub

        def shift(self, delta):
            fn, c, _ = value_of(R, self, "shift")
            t = scal(delta)
            if lag is None or lag == "zero" or t is None:
                raise Unsupported("shift by %s" % type(delta).__name__)
            if m.check(*m.P, Not(tov(t).r == -d.v.r)) == z3.unsat and equal_fns(fn, g.fn):
                return abstract(R.sc, gfn, c)
            mem, new = m.input_bool("other.row"), m.input_value("other.val")
            from .shim import hold
            pre, post = hold(mem, new, fn.init, "other")
            return abstract(R.sc, Fn(fn.init, pre, post), c)

        def clipped(self, lower=-R.sc.inf, upper=R.sc.inf):
            fn, c, _ = value_of(R, self, "clip")
            ends = []
            for x in (lower, upper):
                t = None if x is None or type(x).__name__ in ("Inf", "NegInf") else tov(scal(x))
                if t is not None:
                    m.point(z3.simplify(t.r))
                ends.append(None if t is None else z3.simplify(t.r))
            k = window(*ends)
            return abstract(R.sc, Fn(*[vite(c_, v, VNAN) for c_, v in zip(k, parts(fn))]), c)

        def cov(self, other, where=(-R.sc.inf, R.sc.inf), lag=0, clip="pre"):
            p, _, _ = value_of(R, self, "cov")
            q, _, _ = value_of(R, other, "cov")
            if lag != 0:
                raise Unsupported("cov with a lag as a callee")
            ends = [None if x is None or type(x).__name__ in ("Inf", "NegInf") else z3.simplify(tov(scal(x)).r) for x in where]
            for e in ends:
                if e is not None:
                    m.point(e)
            k = window(*ends)

            def restrict(u_, v_):
                return Fn(*[vite(And(Not(u.nan), Not(v.nan), c_), u, VNAN) for u, v, c_ in zip(parts(u_), parts(v_), k)])
            pw, qw = restrict(p, q), restrict(q, p)
            if equal_fns(pw, fw) and equal_fns(qw, gw) or equal_fns(pw, gw) and equal_fns(qw, fw):
                return Num(kappa, "np")
            R.soft = True
            return Num(m.rigid_value("cov"), "np")
        C = R.sc.Stairs
        put = {"mean": stat("mean"), "std": stat("std"), "shift": shift, "clip": clipped}
        if which == "corr":
            put["cov"] = cov
        from .stubs import aliases
        body = getattr(C, which)
        clash = f.stepped and g.stepped and ca != cb
        old = [(o, n, o.__dict__[n], v) for k, v in put.items() for o, n in [(C, k)] + aliases(C.__dict__[k])]
        for o, n, _, v in old:
            setattr(o, n, v)
        try:
            with patched(R, ("isna", "notna", "logical_or", "logical_and", "invert", "mask", "where", "multiply")):
                r = body(f.obj, g.obj, w, **kw)
        except R.sc.core.exceptions.ClosedMismatchError:
            if not clash:
                raise
            R.ob("opposite sides are refused", "rigid", TRUE, "closed")
            R.frames()
            return
        finally:
            for o, n, v, _ in old:
                setattr(o, n, v)
        if clash:
            raise Bad("closed", "opposite closed sides were merged")
        R.ob("opposite sides are refused", "rigid", TRUE, "closed")
        c = scal(r)
        if c is None:
            raise Unsupported("%s of type %s" % (which, type(r).__name__))
        (_, mfg), (_, mf), (_, mg) = refs["mean"]
        if which == "cov":
            want = vsub(mfg, vmul(mf, mg))
        else:
            (_, sf), (_, sg) = refs["std"]
            want = vite(Or(sf.nan, sg.nan, sf.r == 0, sg.r == 0), VNAN, e_div(kappa, vmul(sf, sg)))
        R.ob("is the %s over the common defined part of the window" % which, "rigid", vsame(tov(c), want), "pointwise")
        R.frames()

    def cases(R, c):
        pts = dict(R.pts)
        if lo != "q" or hi != "q":
            return []
        a, b = c.k("lo"), c.k("hi")
        return [{"kind": "cov", "f": x, "g": y, "dom": d, "win": [a, b], "lag": l, "clip": lag if lag in ("pre", "post") else "pre"}
                for x, y in prod(c.operand(R.operands[0]), c.operand(R.operands[1])) for d in ("float", "ts")
                for l in ((0,) if lag in (None, "zero") else (1, -1, 3, -3))]
    return Task(which, "%s[%s,%s %s,%s%s%s]" % (which, fa, fb, lo, hi, "" if lag is None else " lag " + lag,
                                                "" if (ca, cb) == ("left", "left") else " %s/%s" % (ca, cb)), run, cases)
