"""Stream semantics of the pandas / numpy operations the verified functions use.

Trusted: each operation here states what the real pandas / numpy operation does, row by row
(cross-checked only indirectly, see DESIGN.md section 7).  Anything not modelled
raises Unsupported.
"""
import itertools
import math as _math
import sys
import types

import z3

from .core import *
from .core import V


class SimError(Exception):
    """marker mixin: an exception the modelled library raises"""


class SimKeyError(SimError, KeyError):
    pass


class SimIndexError(SimError, IndexError):
    pass


class SimZeroDivision(SimError, ZeroDivisionError):
    pass


class SimValueError(SimError, ValueError):
    pass


def unsup(what):
    raise Unsupported(what)


class NoAttr:
    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (type(self).__name__, name))

    def __iter__(self):
        raise Unsupported("iteration over %s" % type(self).__name__)

    def __len__(self):
        raise Unsupported("len(%s)" % type(self).__name__)

    def __contains__(self, k):
        raise Unsupported("membership in %s" % type(self).__name__)

    def __bool__(self):
        raise Unsupported("truth of %s" % type(self).__name__)

    def __float__(self):
        raise Unsupported("float(%s)" % type(self).__name__)

    def __int__(self):
        raise Unsupported("int(%s)" % type(self).__name__)

    def __index__(self):
        raise Unsupported("index(%s)" % type(self).__name__)

    def __format__(self, spec):
        return "<%s>" % type(self).__name__

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("real numpy reached")


# ---- cells: V, z3 Bool, or OB (object column of booleans with missing entries) --------------------
class OB:
    def __init__(self, nan, b):
        self.nan, self.b = B(nan), B(b)


def isb(c):
    return isinstance(c, z3.BoolRef)


def tov(c):
    if isinstance(c, V):
        return c
    if isb(c):
        return b2v(c)
    if isinstance(c, OB):
        return V(c.nan, If(c.b, rv(1), rv(0)))
    unsup("cell")


def truth(c):
    if isb(c):
        return c
    v = tov(c)
    return Or(v.nan, v.inf, Not(r_eq(v.r, rv(0))))


def cite(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if isb(a) and isb(b):
        return If(c, a, b)
    return vite(c, tov(a), tov(b))


def scal(x):
    """scalar -> cell, or None when x is not a scalar"""
    if isinstance(x, Num):
        return x.v
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, GBool):
        return z3.BoolVal(bool(x))
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, Arr) and x.zero is not None:
        return x.zero
    if x is None or x is NA:
        return VNAN
    return None


# ---- rigid scalars ---------------------------------------------------------------------------------
class SymBool(NoAttr):
    def __init__(self, t):
        self.t = B(t)

    def __bool__(self):
        return M().branch(self.t)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, GBool)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        t = self._o(o)
        return SymBool(And(self.t, t)) if t is not None else NotImplemented

    def __or__(self, o):
        t = self._o(o)
        return SymBool(Or(self.t, t)) if t is not None else NotImplemented

    def __xor__(self, o):
        t = self._o(o)
        return SymBool(Not(Iff(self.t, t))) if t is not None else NotImplemented

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return SymBool(Not(self.t))

    def num(self):
        return Num(b2v(self.t))

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(Iff(self.t, o.t))
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else r

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def astype(self, t):
        return self.num() if t in (int, float, "int", "float", "float64", "int64") else self

    __hash__ = object.__hash__


class GBool(NoAttr):
    """`exists an event with term` (or its negation)"""

    def __init__(self, term, neg=False):
        self.term, self.neg = term, neg

    def __bool__(self):
        return M().somewhere(self.term) != self.neg

    def __invert__(self):
        return GBool(self.term, not self.neg)

    def __or__(self, o):
        return bool(self) or bool(o)

    def __and__(self, o):
        return bool(self) and bool(o)

    __ror__, __rand__ = __or__, __and__

    def __eq__(self, o):
        return bool(self) == o

    def item(self):
        return bool(self)

    __hash__ = object.__hash__


class Num(NoAttr):
    """a real number (or NaN) that does not depend on the event"""

    def __init__(self, v, kind="py"):
        self.v, self.kind = v, kind

    def _bin(self, o, f, kind=None, rev=False):
        if isinstance(o, (Series, Arr, Index, DataFrame)) and not (isinstance(o, Arr) and o.zero is not None):
            return NotImplemented
        c = scal(o) if o is not None else None
        if c is None:
            return NotImplemented
        a, b = self.v, tov(c)
        if rev:
            a, b = b, a
        k = "np" if "np" in (self.kind, getattr(o, "kind", "py")) else "py"
        return f(a, b) if kind else Num(f(a, b), k)

    def __add__(self, o):
        return self._bin(o, vadd)

    def __radd__(self, o):
        return self._bin(o, vadd, rev=True)

    def __sub__(self, o):
        return self._bin(o, vsub)

    def __rsub__(self, o):
        return self._bin(o, vsub, rev=True)

    def __mul__(self, o):
        return self._bin(o, vmul)

    def __rmul__(self, o):
        return self._bin(o, vmul, rev=True)

    def _div(self, o, rev=False):
        c = scal(o) if o is not None else None
        if c is None or isinstance(o, (Series, Arr, Index)):
            return NotImplemented
        a, b = (tov(c), self.v) if rev else (self.v, tov(c))
        k = "np" if "np" in (self.kind, getattr(o, "kind", "py")) else "py"
        if k == "py" and M().branch(vzero(b)):
            raise SimZeroDivision("float division by zero")
        return Num(vdiv(a, b, M().bconst("sgn")), k)

    def __truediv__(self, o):
        return self._div(o)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __neg__(self):
        return Num(vneg(self.v), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        v = self.v
        return Num(V(v.nan, If(r_lt(v.r, rv(0)), -v.r, v.r), v.inf, FALSE), self.kind)

    def __pow__(self, o):
        if o == 2:
            return self * self
        unsup("pow")

    def _cmp(self, o, f, rev=False):
        r = self._bin(o, f, kind=1, rev=rev)
        return r if r is NotImplemented else SymBool(r)

    def __lt__(self, o):
        return self._cmp(o, vlt)

    def __le__(self, o):
        return self._cmp(o, vle)

    def __gt__(self, o):
        return self._cmp(o, vlt, rev=True)

    def __ge__(self, o):
        return self._cmp(o, vle, rev=True)

    def __eq__(self, o):
        return self._cmp(o, veq)

    def __ne__(self, o):
        r = self._cmp(o, veq)
        return r if r is NotImplemented else ~r

    __hash__ = object.__hash__

    def __bool__(self):
        return M().branch(truth(self.v))

    def item(self):
        return Num(self.v, "py")

    def copy(self):
        return self

    def astype(self, t):
        return self

    def any(self, *a, **k):
        return self != 0

    def __getitem__(self, k):
        if k == ():
            return self
        unsup("Num[...]")

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return DT("float64")


class DT:
    """dtype"""

    def __init__(self, name):
        self.name = name

    @property
    def kind(self):
        return {"bool": "b", "int64": "i", "float64": "f", "object": "O"}.get(self.name, "f")

    def __eq__(self, o):
        return str(o) == self.name or (o is float and self.name == "float64") or (o is bool and self.name == "bool") or \
            (o is int and self.name == "int64") or (isinstance(o, type) and o.__name__ == self.name)

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name

    def __getattr__(self, k):
        raise Unsupported("dtype." + k)


# ---- registers shared by all operations (cached, so code and specification meet on the same state) ---
def _ck(*a):
    out = []
    for x in a:
        if isinstance(x, V):
            out += [y.get_id() for y in x.parts()]
            M().keep.extend(x.parts())
        elif isinstance(x, z3.ExprRef):
            out.append(x.get_id())
            M().keep.append(x)
        elif isinstance(x, OB):
            out += [x.nan.get_id(), x.b.get_id()]
            M().keep += [x.nan, x.b]
        else:
            out.append(x)
    return tuple(out)


def cached(key, make):
    c = M().cexp
    if key not in c:
        c[key] = make()
    return c[key]


def hold(mem, v, init, tag="hold"):
    """(before, after): the value of the last row, `init` before the first"""
    def make():
        m = M()
        v2 = V(*[under(mem, p) for p in v.parts()])
        for kinit, pre, post in m.known:
            if m.check(*m.U, *m.P, Or(And(mem, Not(identical(v2, post))), And(Not(mem), Not(identical(pre, post))),
                                      Not(identical(init, kinit)))) == z3.unsat:
                return pre, post
        s0, s1 = seen(mem)
        h0, h1 = held(mem, v, tag)
        return vite(s0, h0, init), vite(s1, h1, init)
    return cached(("hold",) + _ck(mem, v, init), make)


def held(mem, v, tag="hold"):
    """(before, after): the value of the last row (meaningless before the first row)"""
    def make():
        v2 = V(*[under(mem, p) for p in v.parts()])
        m = M()
        s0 = seen(mem)[0]
        for _, pre, post in m.known:
            if m.check(*m.U, *m.P, Or(And(mem, Not(identical(v2, post))), And(s0, Not(mem), Not(identical(pre, post))))) == z3.unsat:
                return pre, vite(mem, v, pre)
        w = retime(mem, v2)
        if w is not None:
            return w, v if is_t(mem) else vite(mem, v, w)
        pre = M().vreg(VNAN, lambda p: vite(mem, v, p), tag)
        M().recs.append((mem, v, pre))
        facts(M())
        return pre, vite(mem, v, pre)
    return cached(("held",) + _ck(mem, v), make)


def identical(a, b):
    """the same value (and the same number when it is one)"""
    return Or(And(a.nan, b.nan), And(Not(a.nan), Not(b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf), Or(a.inf, r_eq(a.r, b.r))))


def facts(m):
    """consequences, for the registers, of what is known of every event (each is an invariant by
    construction: the register only ever takes values the fact is checked for)"""
    out = []
    for i, (mem, v, pre) in enumerate(m.recs):
        if isinstance(v, V) and not is_f(v.nan) and ("n", i) not in m.rec_facts:
            for nm, bad in (("n", v.nan), ("d", Not(v.nan))):
                if m.check(*m.U, *m.P, mem, bad) == z3.unsat:
                    m.rec_facts.add(("n", i))
                    out.append(Implies(seen(mem)[0], Not(pre.nan) if nm == "n" else pre.nan))
                    break
        for j, (mem2, v2, pre2) in enumerate(m.recs[:i]):
            if (v is None) != (v2 is None) or (i, j) in m.rec_facts:
                continue
            diff = Not(Iff(mem, mem2))
            if v is not None:
                diff = Or(diff, And(mem, Not(identical(v, v2))))
            if m.check(*m.U, *m.P, diff) == z3.unsat:
                m.rec_facts.add((i, j))
                out.append(Iff(pre, pre2) if v is None else Implies(seen(mem)[0], identical(pre, pre2)))
    m.U.extend(out)


Machine.on_fact = staticmethod(facts)


def never(mem, b):
    """the flag b is false on every row"""
    if is_f(b):
        return True
    m = M()
    return cached(("never",) + _ck(mem, b), lambda: m.check(*m.U, *m.P, mem, b) == z3.unsat)


def under(c, t):
    """t simplified under the assumption c"""
    subs, stack = [], [c]
    while stack:
        u = stack.pop()
        if z3.is_true(u) or z3.is_false(u):
            continue
        if z3.is_not(u):
            subs.append((u.arg(0), FALSE))
            if z3.is_or(u.arg(0)):
                stack.extend(Not(k) for k in u.arg(0).children())
        else:
            subs.append((u, TRUE))
            if z3.is_and(u):
                stack.extend(u.children())
    return z3.substitute(t, *subs) if subs else t


def retime(mem, v):
    """v depends on the state after the event only, and is unchanged at events without a row:
    then the value at the last row is v of the current state.  Checked by the solver."""
    m = M()
    parts = v.parts() if isinstance(v, V) else [v]
    subs = m.next_subst()
    w = [z3.substitute(p, *subs) if subs else p for p in parts]
    names = {str(c) for c in m.inputs}
    if any(consts(p) & names for p in w):
        return None
    back = [z3.substitute(p, *m.next_env()) for p in w]
    s0 = seen(mem)[0]
    same = And(*[Iff(a, b) if z3.is_bool(a) else a == b for a, b in zip(back, parts)])
    stable = And(*[Iff(a, b) if z3.is_bool(a) else a == b for a, b in zip(back, w)])
    if m.check(*m.U, *m.P, s0, Not(And(Implies(mem, same), Implies(Not(mem), stable)))) != z3.unsat or \
            m.check(*m.U, *m.P, mem, Not(same)) != z3.unsat:
        return None
    return V(w[0], w[1], w[2], w[3]) if isinstance(v, V) else w[0]


def consts(t):
    out, seen_, stack = set(), set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen_:
            continue
        seen_.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(u))
        stack.extend(u.children())
    return out


def seen(mem):
    def make():
        if is_f(mem):
            return FALSE, FALSE
        if z3.is_or(mem):
            ps = [seen(c) for c in mem.children()]
            return Or(*[p for p, _ in ps]), Or(*[q for _, q in ps])
        pre = M().breg(False, lambda p: Or(p, mem), "seen")
        M().recs.append((mem, None, pre))
        facts(M())
        return pre, Or(pre, mem)
    return cached(("seen",) + _ck(mem), make)


def bhold(mem, b):
    """(before, after): the boolean of the last row (False before the first)"""
    def make():
        if never(mem, b):
            return FALSE, FALSE
        m = M()
        b2, q0 = under(mem, b), seen(mem)[0]
        w = None
        cands = [(pre.nan, post.nan) for _, pre, post in m.known] + [(r[0].nan, r[2].nan) for r in m.vregs] + \
            [(r[0], r[2]) for r in m.bregs]
        for pre, post in cands:
            if not is_f(pre) and m.check(*m.U, *m.P, Or(And(mem, Not(Iff(b2, post))), And(q0, Not(mem), Not(Iff(pre, post))))) == z3.unsat:
                w = pre
                break
        if w is None:
            w = retime(mem, b2)
        if w is not None:
            s0, s1 = seen(mem)
            return And(s0, w), And(s1, If(mem, b, w))
        pre = M().breg(False, lambda p: If(mem, b, p), "bhold")
        return pre, If(mem, b, pre)
    return cached(("bhold",) + _ck(mem, b), make)


def xhold(mem, lab):
    """label of the last row"""
    def make():
        pre = M().xreg(0, lambda p: If(mem, lab, p), "xhold")
        return pre, If(mem, lab, pre)
    return cached(("xhold",) + _ck(mem, lab), make)


def accum(mem, v):
    """running sum that skips NaN"""
    if not (is_f(v.pinf) and is_f(v.ninf)) and never(mem, v.inf):
        v = V(v.nan, v.r)

    def make():
        if not (is_f(v.pinf) and is_f(v.ninf)):
            unsup("cumsum of values that may be infinite")
        step = mem if never(mem, v.nan) else And(mem, Not(v.nan))
        pre, post = rv(0), rv(0)
        w = total(step, v.r, search=True)
        if w is not None:
            return V(FALSE, w[0]), V(FALSE, w[1])
        for t in summands(v.r):
            a, b = total(step, t)
            pre, post = r_add(pre, a), r_add(post, b)
        return V(FALSE, pre), V(FALSE, post)
    return cached(("acc",) + _ck(mem, v), make)


def summands(t):
    if z3.is_add(t):
        return [x for c in t.children() for x in summands(c)]
    if z3.is_sub(t):
        c = t.children()
        return summands(c[0]) + [-x for d in c[1:] for x in summands(d)]
    return [t]


def total(step, u, search=False):
    """(before, after): sum of u over the events with `step`"""
    m = M()
    t = If(step, u, rv(0))
    known = m.cexp.setdefault("totals", [])
    if search:
        ks = known[-4:]
        for coef in itertools.product((0, 1, -1), repeat=len(ks)):
            w, p = rv(0), rv(0)
            for c, (k, pre, _) in zip(coef, ks):
                if c:
                    w, p = (r_add(w, k), r_add(p, pre)) if c > 0 else (r_sub(w, k), r_sub(p, pre))
            if m.check(*m.U, *m.P, t != w) == z3.unsat:
                return p, r_add(p, t)
        return None

    def make():
        if rnum(t) and t.as_fraction() == 0:
            return rv(0), rv(0)
        for k, pre, post in known:
            for sign, w in ((1, k), (-1, -k)):
                if m.check(*m.U, *m.P, t != w) == z3.unsat:
                    return (pre, post) if sign > 0 else (-pre, -post)
        acc = m.vreg(V(False, 0), lambda p: V(FALSE, r_add(p.r, t)), "acc").r
        m.U.append(Implies(Not(seen(step)[0]), acc == 0))   # nothing added yet
        pre, post = acc, r_add(acc, t)
        known.append((t, pre, post))
        return pre, post
    return cached(("total",) + _ck(step, u), make)


def first_value(mem, v):
    def make():
        c = M().rigid_value("first")
        M().U.append(Implies(And(mem, Not(seen(mem)[0])), vsame(c, v)))
        return c
    return cached(("first",) + _ck(mem, v), make)


def first_bool(mem, b):
    def make():
        c = M().bconst("firstb")
        M().U.append(Implies(And(mem, Not(seen(mem)[0])), Iff(c, b)))
        return c
    return cached(("firstb",) + _ck(mem, b), make)


def first_label(mem, lab):
    def make():
        c = M().rconst("firstx")
        s = seen(mem)[0]
        M().U.append(Implies(And(mem, Not(s)), lab == c))
        M().U.append(Implies(And(Not(mem), Not(s)), lab < c))
        M().U.append(Implies(s, lab > c))
        M().rigidx.append(c)
        M().keep.append(lab)
        M().labfacts[lab.get_id(), c.get_id()] = (mem, seen(mem))
        if lab.eq(M().x):
            place(M(), mem, c, "first")
        return c
    return cached(("firstx",) + _ck(mem, lab), make)


def place(m, mem, c, which):
    """c is the position of the first / last row of `mem`: order it against the other known positions"""
    def sure(*fs):
        return m.check(*m.U, *m.P, *fs) == z3.unsat
    for mem2, c2, w2 in list(m.places):
        if sure(mem2, Not(mem)):        # rows of mem2 are rows of mem
            m.P.append(c <= c2 if which == "first" else c2 <= c)
        if sure(mem, Not(mem2)):
            m.P.append(c2 <= c if w2 == "first" else c <= c2)
    for p in m.points:
        if p.eq(c):
            continue
        if sure(mem, Not(m.x > p)):
            m.P.append(c > p)
        elif sure(mem, Not(m.x >= p)):
            m.P.append(c >= p)
        elif sure(mem, Not(m.x < p)):
            m.P.append(c < p)
        elif sure(mem, Not(m.x <= p)):
            m.P.append(c <= p)
    m.places.append((mem, c, which))


def last_at(mem):
    """event flag: this is the last row of `mem` (which has one); the row's position is rigid"""
    def make():
        m = M()
        c = m.rconst("lastx")
        m.U.append(Implies(mem, m.x <= c))
        m.U.append(Implies(m.x == c, mem))
        m.point(c)
        m.keep.append(c)
        place(m, mem, c, "last")
        return m.x == c, c
    return cached(("lastat",) + _ck(mem), make)


def last_value(mem, v):
    """value of the last row (there is one)"""
    def make():
        m = M()
        c = m.rigid_value("last")
        m.U.append(Implies(last_at(mem)[0], vsame(c, v)))
        return c
    return cached(("last",) + _ck(mem, v), make)


def last_label(mem, lab):
    def make():
        m = M()
        f, c = last_at(mem)
        return c if lab.eq(m.x) else z3.simplify(z3.substitute(lab, (m.x, c)))
    return cached(("lastlab",) + _ck(mem, lab), make)


def last_upto(mem, lab, q, strict):
    """event flag: this is the last row with label <= q (< q when strict)"""
    inq = And(mem, (lab < q) if strict else (lab <= q))
    return last_at(inq)[0] if M().somewhere(inq) else FALSE


def is_last(mem):
    """event flag: this is the last row"""
    return last_at(mem)[0] if M().somewhere(mem) else FALSE


def backfill(mem, v):
    """value of the next non-missing row, NaN when there is none"""
    def make():
        m = M()
        b = m.input_value("bfill")
        pend = m.breg(False, lambda p: If(mem, And(v.nan, TRUE), p), "pending")
        prom = m.vreg(VNAN, lambda p: vite(mem, b, p), "promise")
        m.U.append(Implies(And(mem, Not(v.nan)), vsame(b, v)))
        m.U.append(Implies(And(mem, pend), vsame(b, prom)))
        m.FIN.append(Implies(pend, prom.nan))
        return b
    return cached(("bfill",) + _ck(mem, v), make)


def nonempty(mem):
    return M().somewhere(mem)


# ---- rows, columns ----------------------------------------------------------------------------------
class Rows:
    first_of = last_of = None      # rows these are, without their first / last one
    isset = False                  # one row per distinct value: positions and multiplicities mean nothing

    def __init__(self, mem, nh=0, nt=0, root=None):
        self.mem, self.nh, self.nt = B(mem), nh, nt
        self.root = root if root is not None else self


def pairing(a, b):
    """rows `b` (all but the last of some rows) matched by position with rows `a` (all but the first of
    the same rows): the base rows, else None"""
    if a.first_of is not None and b.last_of is not None and same_rows(a.first_of, b.last_of):
        return b.last_of
    return None


def moved(base, col):
    """the column of the rows but the last one, moved one row on"""
    v = col.val
    if isinstance(v, OB):
        unsup("object column")
    return Col(bhold(base.mem, v)[0] if isb(v) else held(base.mem, tov(v))[0])


def pair_up(a, ca, b, cb):
    """(rows, columns) of two columns of equal length on different rows, or None"""
    p = pairing(a, b)
    if p is not None:
        return a, ca, moved(p, cb)
    p = pairing(b, a)
    if p is not None:
        return b, moved(p, ca), cb
    return None


def same_rows(a, b):
    if a is b:
        return True
    if a.nh != b.nh or a.nt != b.nt:
        return False
    if a.mem.eq(b.mem):
        return True
    m = M()
    key = ("same",) + _ck(a.mem, b.mem)
    if key not in m.cexp:
        m.cexp[key] = m.check(*m.U, *m.P, Not(Iff(a.mem, b.mem))) == z3.unsat
    return m.cexp[key]


class Col:
    """cells of a column: heads (rows before the first event), the row of the event, tails"""

    def __init__(self, val, heads=(), tails=()):
        self.val, self.heads, self.tails = val, list(heads), list(tails)

    def map(self, f):
        return Col(f(self.val), [f(h) for h in self.heads], [f(t) for t in self.tails])


def zipcols(f, *cols):
    """cols: Col or scalar cell"""
    n = max(len(c.heads) for c in cols if isinstance(c, Col))
    t = max(len(c.tails) for c in cols if isinstance(c, Col))
    get = lambda c, part: c if not isinstance(c, Col) else part(c)
    return Col(f(*[get(c, lambda c: c.val) for c in cols]),
               [f(*[get(c, lambda c: c.heads[i]) for c in cols]) for i in range(n)],
               [f(*[get(c, lambda c: c.tails[i]) for c in cols]) for i in range(t)])


class Buf:
    def __init__(self, col, dtype=None):
        self.col, self._dt = col, dtype

    @property
    def dtype(self):
        c = self.col.val
        return "bool" if isb(c) else "object" if isinstance(c, OB) else (self._dt or "float64")


# ---- elementwise operations on cells -------------------------------------------------------------------
def e_add(a, b):
    return vadd(tov(a), tov(b))


def e_sub(a, b):
    return vsub(tov(a), tov(b))


def e_mul(a, b):
    return vmul(tov(a), tov(b))


def e_div(a, b):
    b = tov(b)
    return vdiv(tov(a), b, FALSE if is_f(vzero(b)) else M().input_bool("sgn"))


def e_lt(a, b):
    return vlt(tov(a), tov(b))


def e_le(a, b):
    return vle(tov(a), tov(b))


def e_gt(a, b):
    return vlt(tov(b), tov(a))


def e_ge(a, b):
    return vle(tov(b), tov(a))


def e_eq(a, b):
    return Iff(a, b) if isb(a) and isb(b) else veq(tov(a), tov(b))


def e_ne(a, b):
    return Not(e_eq(a, b))


def _blog(f):
    def op(a, b):
        if isb(a) and isb(b):
            return f(a, b)
        if isinstance(a, OB) or isinstance(b, OB):   # pandas: a missing entry gives False
            an, ab = (a.nan, a.b) if isinstance(a, OB) else (FALSE, a)
            bn, bb = (b.nan, b.b) if isinstance(b, OB) else (FALSE, b)
            if not (isb(ab) and isb(bb)):
                unsup("logical operator on mixed columns")
            return And(Not(an), Not(bn), f(ab, bb))
        unsup("logical operator on non-boolean columns")
    return op


e_and, e_or, e_xor = _blog(And), _blog(Or), _blog(lambda a, b: Not(Iff(a, b)))


COMPARE = (e_lt, e_le, e_gt, e_ge, e_eq, e_ne)


def e_not(a):
    if not isb(a):
        unsup("~ on a non-boolean column")
    return Not(a)


def e_isna(c):
    return FALSE if isb(c) else c.nan


def e_land(a, b):
    return And(truth(a), truth(b))


def e_lor(a, b):
    return Or(truth(a), truth(b))


def e_lxor(a, b):
    return Not(Iff(truth(a), truth(b)))


def e_neg(a):
    return vneg(tov(a))


def e_abs(a):
    v = tov(a)
    return V(v.nan, If(r_lt(v.r, rv(0)), -v.r, v.r), v.inf, FALSE)


def e_max(a, b):   # numpy maximum: NaN propagates
    a, b = tov(a), tov(b)
    w = vite(vlt(a, b), b, a)
    return V(Or(a.nan, b.nan), w.r, w.pinf, w.ninf)


def e_min(a, b):
    a, b = tov(a), tov(b)
    w = vite(vlt(b, a), b, a)
    return V(Or(a.nan, b.nan), w.r, w.pinf, w.ninf)


def e_fmax(a, b):
    a, b = tov(a), tov(b)
    return vite(a.nan, b, vite(b.nan, a, e_max(a, b)))


def e_fmin(a, b):
    a, b = tov(a), tov(b)
    return vite(a.nan, b, vite(b.nan, a, e_min(a, b)))


def missing_like(c):
    return VNAN


def align(a, b, fill=None):
    """two Series -> (index, col a, col b) aligned on labels (outer join)"""
    ia, ib = a.index, b.index
    if ia is ib or (ia.same_labels(ib) and same_rows(ia.rows, ib.rows)):
        ia.need_unique()
        return ia, a.buf.col, b.buf.col
    idx = ia.union(ib)
    return idx, ia.onto(idx, a.buf.col, VNAN), ib.onto(idx, b.buf.col, VNAN)


def binop(f, a, b, fill_value=None):
    """elementwise operation with the pandas alignment rules"""
    if DOMAIN[0] and f not in COMPARE and (is_labels(a) or is_labels(b)):
        unsup("arithmetic with labels")
    for o in (a, b):
        if isinstance(o, DataFrame):
            unsup("DataFrame arithmetic")
    sa, sb = isinstance(a, Series), isinstance(b, Series)
    if sa:
        a = a.force()
    if sb:
        b = b.force()
    if sa and sb:
        idx, ca, cb = align(a, b)
        if fill_value is not None:
            fv = tov(scal(fill_value))

            def g(x, y):
                x, y = tov(x), tov(y)
                return f(vite(And(x.nan, Not(y.nan)), fv, x), vite(And(y.nan, Not(x.nan)), fv, y))
            col = zipcols(g, ca, cb)
        else:
            col = zipcols(f, ca, cb)
        return Series._mk(idx, Buf(col), a.name if a.name == b.name else None)
    if sa or sb:
        s, o = (a, b) if sa else (b, a)
        c = scal(o)
        if c is None:
            if isinstance(o, Index):
                o = o.values
            if isinstance(o, Arr):
                if not same_rows(s.index.rows, o.rows):
                    unsup("columns of different lengths")
                c = o.buf.col
            else:
                return NotImplemented
        if fill_value is not None:
            unsup("fill_value with a scalar")
        col = zipcols(f, s.buf.col, c) if sa else zipcols(f, c, s.buf.col)
        return Series._mk(s.index, Buf(col), s.name)
    if isinstance(a, Index):
        a = a.values
    if isinstance(b, Index):
        b = b.values
    aa, ab = isinstance(a, Arr) and a.zero is None, isinstance(b, Arr) and b.zero is None
    if aa and ab:
        rows, ca, cb = a.rows, a.buf.col, b.buf.col
        if not same_rows(a.rows, b.rows):
            rows, ca, cb = pair_up(a.rows, ca, b.rows, cb) or unsup("arrays of different lengths")
        return Arr(rows, Buf(zipcols(f, ca, cb)))
    if aa or ab:
        s, o = (a, b) if aa else (b, a)
        c = scal(o)
        if c is None:
            return NotImplemented
        return Arr(s.rows, Buf(zipcols(f, s.buf.col, c) if aa else zipcols(f, c, s.buf.col)))
    ca, cb = scal(a), scal(b)
    if ca is None or cb is None:
        return NotImplemented
    r = f(ca, cb)
    return SymBool(r) if isb(r) else Num(r, "np")


def unop(f, a):
    if f in (e_neg, e_abs, e_not) and is_labels(a):
        if DOMAIN[0] == "td":
            unsup("arithmetic with labels")
        raise SimTypeError("arithmetic with labels")
    if isinstance(a, Series):
        a = a.force()
        return Series._mk(a.index, Buf(a.buf.col.map(f)), a.name)
    if isinstance(a, DataFrame):
        return DataFrame._mk(a.index, {k: Buf(b.col.map(f)) for k, b in a.cols.items()})
    if isinstance(a, Index):
        a = a.values
    if isinstance(a, Mat):
        return Mat(a.rows, [c.map(f) for c in a.cols])
    if isinstance(a, Arr) and a.zero is None:
        return Arr(a.rows, Buf(a.buf.col.map(f)))
    if isinstance(a, (list, tuple)):
        return [unop(f, x) for x in a]
    c = scal(a)
    if c is None:
        unsup("elementwise operation on %s" % type(a).__name__)
    r = f(c)
    return SymBool(r) if isb(r) else Num(r, "np")


class Ops(NoAttr):
    """operators shared by Series, Arr"""
    __array_priority__ = 1000

    def __add__(self, o):
        return binop(e_add, self, o)

    def __radd__(self, o):
        return binop(e_add, o, self)

    def __sub__(self, o):
        return binop(e_sub, self, o)

    def __rsub__(self, o):
        return binop(e_sub, o, self)

    def __mul__(self, o):
        return binop(e_mul, self, o)

    def __rmul__(self, o):
        return binop(e_mul, o, self)

    def __truediv__(self, o):
        return binop(e_div, self, o)

    def __rtruediv__(self, o):
        return binop(e_div, o, self)

    def __pow__(self, o):
        if isinstance(o, int) and o == 2:
            return binop(e_mul, self, self)
        unsup("pow")

    def __neg__(self):
        return unop(e_neg, self)

    def __abs__(self):
        return unop(e_abs, self)

    abs = __abs__

    def __invert__(self):
        return unop(e_not, self)

    def __lt__(self, o):
        return binop(e_lt, self, o)

    def __le__(self, o):
        return binop(e_le, self, o)

    def __gt__(self, o):
        return binop(e_gt, self, o)

    def __ge__(self, o):
        return binop(e_ge, self, o)

    def __eq__(self, o):
        return binop(e_eq, self, o)

    def __ne__(self, o):
        return binop(e_ne, self, o)

    def __and__(self, o):
        return binop(e_and, self, o)

    def __or__(self, o):
        return binop(e_or, self, o)

    def __xor__(self, o):
        return binop(e_xor, self, o)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    __hash__ = object.__hash__

    def _cells(self):
        raise NotImplementedError

    def any(self, axis=None, **k):
        rows, cols = self._cells()
        hs = [truth(h) for c in cols for h in c.heads + c.tails]
        if hs and M().branch(Or(*hs)):
            return SymBool(True)
        return GBool(And(rows.mem, Or(*[truth(c.val) for c in cols])))

    def all(self, axis=None, **k):
        rows, cols = self._cells()
        hs = [truth(h) for c in cols for h in c.heads + c.tails]
        if hs and not M().branch(And(*hs)):
            return SymBool(False)
        return GBool(And(rows.mem, Or(*[Not(truth(c.val)) for c in cols])), True)


class Mat(Ops):
    """two-dimensional array (values of a DataFrame)"""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols

    def _cells(self):
        return self.rows, self.cols


class Arr(Ops):
    def __init__(self, rows, buf, zero=None, lab=None):
        self.rows, self.buf, self.zero, self.lab = rows, buf, zero, lab

    def _cells(self):
        if self.zero is not None:
            return Rows(TRUE), [Col(self.zero)]
        return self.rows, [self.buf.col]

    def any(self, axis=None, **k):
        return SymBool(truth(self.zero)) if self.zero is not None else Ops.any(self)

    def all(self, axis=None, **k):
        return SymBool(truth(self.zero)) if self.zero is not None else Ops.all(self)

    @property
    def dtype(self):
        if self.zero is not None:
            return DT("bool" if isb(self.zero) else "float64")
        return DT(self.buf.dtype)

    @property
    def ndim(self):
        return 0 if self.zero is not None else 1

    @property
    def values(self):
        unsup("ndarray.values")

    def copy(self):
        return Arr(self.rows, Buf(self.buf.col, self.buf._dt), self.zero)

    def astype(self, t, **k):
        return Arr(self.rows, Buf(cast(self.buf.col, t)))

    def sum(self):
        return asum(self.rows, self.buf.col)

    def tolist(self):
        return StreamList(self)

    def min(self, **k):
        if k or self.zero is not None:
            unsup("ndarray.min")
        return extreme(self.rows, self.buf.col, "min")

    def max(self, **k):
        if k or self.zero is not None:
            unsup("ndarray.max")
        return extreme(self.rows, self.buf.col, "max")

    @property
    def size(self):
        return SymLen(self.rows)

    def __getitem__(self, k):
        if self.zero is not None:
            if k == ():
                return mknum(self.zero)
            unsup("0-d index")
        if isinstance(k, Pos):
            return k.element(self)
        r, col = pick(self.rows, self.buf.col, k, self.lab)
        if r is None:
            return mknum(col)
        return Arr(r, self.buf if col is self.buf.col else Buf(col), lab=self.lab)

    def __setitem__(self, k, val):
        assign(self.rows, self.buf, k, val)


def mknum(c):
    return SymBool(c) if isb(c) else Num(tov(c), "np")


def cast(col, t):
    n = t if isinstance(t, str) else getattr(t, "__name__", str(t))
    if n in ("float", "float64"):
        return col.map(tov)
    if n in ("bool", "bool_"):
        return col.map(truth)
    if n in ("int", "int64"):
        if isb(col.val):
            return col.map(tov)
    unsup("astype(%s)" % n)


def extreme(rows, col, which, default=None):
    """the least / greatest of the cells"""
    m = M()
    heads = [tov(h) for h in col.heads + col.tails]
    v = tov(col.val)
    some = not is_f(rows.mem) and m.somewhere(rows.mem)
    if not heads and not some:
        if default is None:
            raise SimValueError("%s of nothing" % which)
        return default
    if any(m.branch(h.nan) for h in heads) or some and not never(rows.mem, v.nan):
        unsup("%s of missing values" % which)
    if any(not is_f(h.inf) for h in heads) or some and not never(rows.mem, v.inf):
        unsup("%s of infinite values" % which)
    if len(heads) == 1 and not some:
        return Num(heads[0], "np")
    c = m.rigid_value(which, nan=False)
    le = (lambda a: c.r <= a.r) if which == "min" else (lambda a: c.r >= a.r)
    m.P += [le(h) for h in heads]
    if some:
        m.U.append(Implies(rows.mem, le(v)))
    for n, h in enumerate(heads):
        if n == len(heads) - 1 and not some:
            m.P.append(c.r == h.r)
            return Num(c, "np")
        if m.branch(c.r == h.r):
            return Num(c, "np")
    m.E.append(And(rows.mem, c.r == v.r))
    return Num(c, "np")


def np_unique(a, **k):
    if k:
        unsup("np.unique options")
    if isinstance(a, Series):
        a = a.force().values
    if not isinstance(a, Arr) or a.zero is not None:
        unsup("np.unique")
    r = Rows(a.rows.mem, a.rows.nh, a.rows.nt)
    r.isset = True
    return Arr(r, Buf(a.buf.col))


def asum(rows, col, skipna=False):
    if rows.isset:
        unsup("sum over a set of values")
    v = tov(col.val)
    if skipna:
        v2 = v
    else:
        # a NaN anywhere makes the sum NaN
        if GBool(And(rows.mem, v.nan)):
            return Num(VNAN, "np")
        v2 = v
    pre, _ = accum(rows.mem, v2)
    m = M()
    c = m.rigid_value("sum", nan=False)
    m.FIN.append(c.r == pre.r)
    if any(m.check(*m.U, *m.P, e, Not(rows.mem)) == z3.unsat for e in m.E) and m.check(*m.U, *m.P, rows.mem, v2.r <= 0) == z3.unsat:
        m.P.append(c.r > 0)          # a sum of positive numbers, at least one
    out = Num(c, "np")
    for h in col.heads + col.tails:
        out = out + mknum(h)
    return out


# ---- positions ------------------------------------------------------------------------------------------
class Pos(NoAttr):
    """number of rows with label <= q (< q when strict), plus off; optionally clamped below at 0"""

    def __init__(self, rows, lab, q, strict, off=0, clamp=False):
        self.rows, self.lab, self.q, self.strict, self.off, self.clamp = rows, lab, q, strict, off, clamp

    def _w(self, off, clamp=None):
        return Pos(self.rows, self.lab, self.q, self.strict, off, self.clamp if clamp is None else clamp)

    def __add__(self, k):
        if isinstance(k, int) and not self.clamp:
            return self._w(self.off + k)
        unsup("position arithmetic")

    __radd__ = __add__

    def __sub__(self, k):
        if isinstance(k, int):
            return self + (-k)
        unsup("position arithmetic")

    def le(self, lab):
        return (lab < self.q) if self.strict else (lab <= self.q)

    def _lt(self, k):
        """self < k"""
        if not isinstance(k, int):
            unsup("position comparison")
        if self.clamp and k <= 0:
            return False
        n = k - self.off       # count < n
        if n <= 0:
            return False
        inq = And(self.rows.mem, self.le(self.lab))
        s = inq
        for _ in range(n - 1):
            s = And(s, seen(s)[0])
        return not M().somewhere(s)

    def __lt__(self, k):
        return self._lt(k)

    def __ge__(self, k):
        return not self._lt(k)

    def __le__(self, k):
        return self._lt(k + 1)

    def __gt__(self, k):
        return not self._lt(k + 1)

    def __eq__(self, k):
        if isinstance(k, int):
            return not self._lt(k) and self._lt(k + 1)
        return False

    def __ne__(self, k):
        return not self == k

    __hash__ = object.__hash__

    def from_(self, mem, lab):
        """event term: the row's position >= self   (rows: the same rows the position counts)"""
        if self.off == 0:
            return Not(self.le(lab))
        if self.off == -1:
            if not self.clamp and self < 0:
                unsup("negative position")
            return Or(Not(self.le(lab)), last_upto(mem, lab, self.q, self.strict))
        if self.off == 1:
            gt = Not(self.le(lab))
            return And(gt, seen(And(mem, gt))[0])
        unsup("position offset %d" % self.off)

    def below(self, mem, lab):
        """event term: the row's position < self"""
        if self.off == 0:
            return self.le(lab)
        if self.off == 1:
            gt = Not(self.le(lab))
            return Or(self.le(lab), Not(seen(And(mem, gt))[0]))
        if self.off == -1:
            if not self.clamp and self < 0:
                unsup("negative position")
            return And(self.le(lab), Not(last_upto(mem, lab, self.q, self.strict)))
        unsup("position offset %d" % self.off)

    def element(self, arr):
        """arr[self] for the rows the position counts (plus tails)"""
        if not same_rows(Rows(self.rows.mem), Rows(arr.rows.mem)) or arr.rows.nh:
            unsup("element at a position of other rows")
        if self.off != -1 or self.clamp:
            unsup("element at offset %d" % self.off)
        inq = And(self.rows.mem, self.le(self.lab))
        # with no row up to q the position is -1: the last element
        if not M().somewhere(inq):
            if arr.rows.nt:
                return mknum(arr.buf.col.tails[-1])
            return mknum(last_value(arr.rows.mem, tov(arr.buf.col.val)))
        return Num(last_value(inq, tov(arr.buf.col.val)), "np")


class SymLen(NoAttr):
    def __init__(self, rows, extra=0):
        self.rows, self.extra = rows, rows.nh + rows.nt + extra

    def _lt(self, k):
        if not isinstance(k, int):
            unsup("length comparison")
        n = k - self.extra
        if self.rows.isset and k > 1:
            unsup("number of distinct values")
        if n <= 0:
            return False
        s = self.rows.mem
        for _ in range(n - 1):
            s = And(s, seen(s)[0])
        return not M().somewhere(s)

    __lt__ = Pos.__lt__
    __ge__ = Pos.__ge__
    __le__ = Pos.__le__
    __gt__ = Pos.__gt__
    __hash__ = object.__hash__

    def __eq__(self, k):
        if isinstance(k, int):
            return not self._lt(k) and self._lt(k + 1)
        if isinstance(k, SymLen):
            if same_rows(self.rows, k.rows):
                return True
            unsup("comparison of lengths")
        return False

    def __ne__(self, k):
        return not self == k

    def __bool__(self):
        return not self._lt(1)

    def __sub__(self, k):
        return SymLen(self.rows, self.extra - self.rows.nh - self.rows.nt - k)

    def __add__(self, k):
        return self - (-k)


def shim_len(x):
    if isinstance(x, (Series, DataFrame, Arr, Index)):
        if isinstance(x, Series) and x.small is not None:
            return len(x.small[1])
        return SymLen(x.index.rows if not isinstance(x, (Arr, Index)) else x.rows)
    if isinstance(x, (StreamList,)):
        return SymLen(x.rows)
    return len(x)


def _mm(f, name):
    def g(*a, **k):
        if len(a) == 2 and any(isinstance(x, Pos) for x in a):
            p, o = (a[0], a[1]) if isinstance(a[0], Pos) else (a[1], a[0])
            if name == "max" and isinstance(o, int) and o == 0 and not isinstance(o, bool):
                return p._w(p.off, True)
            unsup("%s of positions" % name)
        if len(a) == 1 and isinstance(a[0], (Series, Arr)) and set(k) <= {"default"}:
            x = a[0].force().values if isinstance(a[0], Series) else a[0]
            if x.zero is not None:
                unsup("%s of a scalar" % name)
            return extreme(x.rows, x.buf.col, name, k.get("default"))
        if len(a) == 1 and hasattr(type(a[0]), "extreme") and set(k) <= {"default"}:
            return a[0].extreme(name, k.get("default"))
        if len(a) == 1 and isinstance(a[0], (Index, StreamList)):
            unsup("%s of a column" % name)
        if any(isinstance(x, (Series, Arr, Index)) for x in a):
            unsup("%s of a column" % name)
        return f(*a, **k)
    return g


def bisect_(side):
    def g(a, x, *rest, **kw):
        if rest or kw:
            unsup("bisect bounds")
        if isinstance(a, Index):
            a = a.values
        if isinstance(a, Series):
            a = a.values
        if not isinstance(a, Arr) or a.lab is None:
            unsup("bisect in a column")
        n = type(x).__name__
        if n == "NegInf":
            return 0
        if n == "Inf":
            return Pos(a.rows, rv(0), rv(0), False)   # every row
        if not isinstance(x, Num):
            unsup("bisect for %s" % n)
        M().point(z3.simplify(x.v.r - a.lab[1]) if a.lab[1] is not None else x.v.r)
        return Pos(a.rows, a.buf.col.val.r, x.v.r, side == "left")
    return g


# ---- picking and assigning rows -----------------------------------------------------------------------
def gate(rows, mem, heads=None, tails=None):
    r = Rows(mem, rows.nh if heads is None else heads, rows.nt if tails is None else tails, root=rows.root)
    r.isset = rows.isset
    return r


def boolcol(rows, k, index=None):
    """a boolean selector -> Col of z3 bools over `rows`"""
    if isinstance(k, Series):
        k = k.force()
        if not isb(k.buf.col.val):
            unsup("selection by a non-boolean column")
        if index is not None and not (k.index is index or same_rows(k.index.rows, rows)):
            unsup("selection by a column with other rows")
        return k.buf.col
    if isinstance(k, Arr):
        if not isb(k.buf.col.val):
            unsup("selection by a non-boolean array")
        if not same_rows(k.rows, rows):
            unsup("boolean selector of another length")
        return k.buf.col
    return None


def slice_mem(rows, k, lab):
    """positional slice -> event term selecting rows, and the surviving heads / tails"""
    a, b, st = k.start, k.stop, k.step
    if st not in (None, 1):
        unsup("slice step")
    mem = rows.mem
    nh, nt = rows.nh, rows.nt
    h0, t1 = 0, nt
    sel = TRUE
    isrc = lambda p: isinstance(p, Pos)
    if isrc(a) or isrc(b):
        if nh or nt:
            unsup("position slice of an extended array")
    if a is None or (isinstance(a, int) and a == 0):
        pass
    elif isinstance(a, int) and a > 0:
        h0 = min(a, nh)
        a -= h0
        s = mem
        for _ in range(a):
            sel = And(sel, seen(s)[0])
            s = And(mem, sel)
    elif isrc(a):
        if a.lab.eq(rv(0)) and a.q.eq(rv(0)):
            sel = FALSE
        else:
            if not same_rows(a.rows, rows):
                unsup("slice by a position of other rows")
            sel = And(sel, a.from_(mem, lab))
    else:
        unsup("slice start")
    if b is None:
        pass
    elif isinstance(b, int) and b == -1:
        if nt:
            t1 = nt - 1
        else:
            sel = And(sel, Not(is_last(mem)))
    elif isrc(b):
        if b.lab.eq(rv(0)) and b.q.eq(rv(0)) and b.off == 0:
            pass
        else:
            if not same_rows(b.rows, rows):
                unsup("slice by a position of other rows")
            sel = And(sel, b.below(mem, lab))
    else:
        unsup("slice stop")
    return And(mem, sel), h0, t1


def tag_slice(r, rows, k):
    if rows.nh == rows.nt == 0 and k.step in (None, 1):
        if k.stop is None and isinstance(k.start, int) and k.start == 1:
            r.first_of = rows
        elif k.start in (None, 0) and not isinstance(k.start, Pos) and isinstance(k.stop, int) and k.stop == -1:
            r.last_of = rows
    return r


def pick(rows, col, k, lab=None):
    """array-style indexing -> (rows, col) or (None, cell)"""
    if isinstance(k, bool):
        unsup("boolean index")
    if rows.isset and (isinstance(k, slice) or isinstance(k, int)):
        if k in (0, -1) and isinstance(k, int):      # sorted
            return None, extreme(rows, col, "min" if k == 0 else "max").v
        unsup("positions in a set of values")
    if isinstance(k, int):
        if k == 0:
            if rows.nh:
                return None, col.heads[0]
            if not nonempty(rows.mem):
                if rows.nt:
                    return None, col.tails[0]
                raise SimIndexError("index 0 is out of bounds")
            v = col.val
            return None, (first_bool(rows.mem, v) if isb(v) else first_value(rows.mem, tov(v)))
        if k == -1:
            if rows.nt:
                return None, col.tails[-1]
            if not nonempty(rows.mem):
                if rows.nh:
                    return None, col.heads[-1]
                raise SimIndexError("index -1 is out of bounds")
            return None, last_value(rows.mem, tov(col.val))
        unsup("element %d" % k)
    if isinstance(k, slice):
        mem, h0, t1 = slice_mem(rows, k, lab[0] if lab else None)
        c = col if (h0 == 0 and t1 == rows.nt) else Col(col.val, col.heads[h0:], col.tails[:t1])
        return tag_slice(gate(rows, mem, rows.nh - h0, t1), rows, k), c
    bc = boolcol(rows, k)
    if bc is not None:
        hs = [i for i, h in enumerate(bc.heads) if M().branch(h)]
        ts = [i for i, h in enumerate(bc.tails) if M().branch(h)]
        return gate(rows, And(rows.mem, bc.val), len(hs), len(ts)), \
            Col(col.val, [col.heads[i] for i in hs], [col.tails[i] for i in ts])
    unsup("indexing by %s" % type(k).__name__)


def assign(rows, buf, k, val, index=None):
    """in-place assignment to selected rows"""
    c = scal(val)
    if c is None:
        if isinstance(val, Series):
            if not same_rows(val.index.rows, rows):
                unsup("assignment of other rows")
            c = val.force().buf.col
        elif isinstance(val, Arr) and same_rows(val.rows, rows):
            c = val.buf.col
        else:
            unsup("assignment of %s" % type(val).__name__)
    if isinstance(k, int) and not isinstance(k, bool):
        col = buf.col
        if k != 0 or isinstance(c, Col):
            unsup("assignment to element")
        if rows.nh:
            buf.col = Col(col.val, [c] + col.heads[1:], col.tails)
            return
        if not nonempty(rows.mem):
            raise SimIndexError("iloc cannot enlarge")
        here = And(rows.mem, Not(seen(rows.mem)[0]))
        buf.col = Col(cite(here, c, col.val), col.heads, col.tails)
        return
    if isinstance(k, slice) and k == slice(None):
        bc = Col(TRUE, [TRUE] * rows.nh, [TRUE] * rows.nt)
    else:
        bc = boolcol(rows, k, index)
        if bc is None:
            unsup("assignment by %s" % type(k).__name__)
    old = buf.col
    new = zipcols(lambda s, n, o: cite(s, n, o), bc, c, old)
    buf.col = Col(cite(rows.mem, new.val, old.val), new.heads, new.tails)


# ---- labels of a date-like domain -----------------------------------------------------------------------
DOMAIN = [None]           # None: labels are numbers;  "ts": Timestamps;  "td": Timedeltas


class SimTypeError(SimError, TypeError):
    pass


class Lab(Num):
    """a label of a date-like domain: compared with labels, subtracted, moved by a length; no number"""

    def __init__(self, v, kind="np"):
        super().__init__(v, kind)

    def _no(self, *a):
        raise SimTypeError("arithmetic with a %s" % DOMAIN[0])

    def _td(self, *a):
        """allowed for Timedeltas, which are lengths too; not modelled"""
        if DOMAIN[0] == "td":
            unsup("arithmetic with Timedelta labels")
        self._no()

    def _sum(self, o, f, rev=False):
        if isinstance(o, Num) and not isinstance(o, Lab):
            r = self._bin(o, f, rev=rev)
            return Lab(r.v)
        if isinstance(o, Lab):
            self._td()
        self._no()

    def __add__(self, o):
        return self._sum(o, vadd)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Lab):
            return self._bin(o, vsub)
        return self._sum(o, vsub)

    def __rsub__(self, o):
        self._no()

    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pos__ = __abs__ = _td
    __pow__ = __float__ = __int__ = _no

    def __bool__(self):
        return True if DOMAIN[0] == "ts" else unsup("truth of a Timedelta")

    def _other(self, o):
        return isinstance(o, Lab) or type(o).__name__ in ("Inf", "NegInf") or isinstance(o, (Series, Arr, Index, DataFrame))

    def __lt__(self, o):
        return Num.__lt__(self, o) if self._other(o) else self._no()

    def __le__(self, o):
        return Num.__le__(self, o) if self._other(o) else self._no()

    def __gt__(self, o):
        return Num.__gt__(self, o) if self._other(o) else self._no()

    def __ge__(self, o):
        return Num.__ge__(self, o) if self._other(o) else self._no()

    def __eq__(self, o):
        return Num.__eq__(self, o) if self._other(o) else False

    def __ne__(self, o):
        return Num.__ne__(self, o) if self._other(o) else True

    __hash__ = object.__hash__

    def item(self):
        unsup("label.item()")

    @property
    def dtype(self):
        return DT(LABELTYPE[DOMAIN[0]])


LABELTYPE = {"ts": "datetime64[ns]", "td": "timedelta64[ns]"}


def label(r):
    return Lab(V(False, r)) if DOMAIN[0] else Num(V(False, r), "np")


def is_labels(x):
    """does x hold labels of a date-like domain"""
    return DOMAIN[0] is not None and (isinstance(x, Lab) or isinstance(x, Index) and x.kind == "x" or isinstance(x, Arr) and x.lab is not None or
                                      getattr(x, "__dict__", {}).get("role") in ("start", "end") or isinstance(x, DT) and x.name in LABELTYPE.values())


# ---- Index -----------------------------------------------------------------------------------------------
class Index(NoAttr):
    relabels, newcol = None, None

    def __init__(self, rows, kind="x", off=None, lab=None, sorted_=True, root=None, name=None, unique=True):
        """kind x: labels x (+off);  pos: row numbers of `root`;  val: labels given by column lab"""
        self.rows, self.kind, self.off, self.lab_, self.root, self.name = rows, kind, off, lab, root, name
        self.sorted, self.unique = sorted_, unique

    @property
    def lab(self):
        if self.kind == "x":
            return M().x if self.off is None else M().x + self.off
        unsup("labels of a %s index" % self.kind)

    def need_unique(self):
        if not self.unique:
            unsup("repeated labels")

    def same_labels(self, o):
        if self.kind != o.kind:
            return False
        if self.kind == "x":
            return (self.off is None and o.off is None) or (self.off is not None and o.off is not None and self.off.eq(o.off))
        if self.kind == "pos":
            return self.root is o.root
        return self is o

    def like(self, rows, sorted_=None):
        return Index(rows, self.kind, self.off, self.lab_, self.sorted if sorted_ is None else sorted_, self.root, self.name, self.unique)

    def union(self, o, sort=None):
        if isinstance(o, Series):
            o = o.index_from_values()
        if not isinstance(o, Index) or not self.same_labels(o) or self.kind == "val":
            unsup("union of these indexes")
        self.need_unique()
        o.need_unique()
        if sort not in (None, True):
            unsup("union(sort=False)")
        if same_rows(self.rows, o.rows):
            return self.like(self.rows, True)
        if self.kind == "pos":
            r = Rows(Or(self.rows.mem, o.rows.mem), max(self.rows.nh, o.rows.nh), 0, root=self.rows.root)
            if self.rows.nh and o.rows.nh:
                unsup("union of extended arrays")
            return Index(r, "pos", root=self.root)
        return self.like(Rows(Or(self.rows.mem, o.rows.mem)), True)

    def onto(self, idx, col, fill):
        """col (over self) re-labelled onto idx, `fill` where self has no row"""
        if not self.same_labels(idx):
            unsup("reindex over other labels")
        self.need_unique()
        if same_rows(self.rows, idx.rows):
            return col
        c = cite(self.rows.mem, col.val, fill) if not is_f(self.rows.mem) else fill
        if idx.rows.nh:
            hs = col.heads if len(col.heads) == idx.rows.nh else [fill] * idx.rows.nh
        else:
            hs = []
        return Col(c, hs)

    @property
    def values(self):
        if self.kind == "x":
            return Arr(self.rows, Buf(Col(V(False, self.lab))), lab=(self.lab, self.off))
        if self.kind == "val":
            return Arr(self.rows, Buf(self.lab_))
        unsup("values of a positional index")

    to_numpy = lambda self, *a, **k: self.values
    array = values

    def to_list(self):
        return StreamList(self.values)

    tolist = to_list

    def to_series(self, index=None, name=None):
        unsup("Index.to_series")

    @property
    def dtype(self):
        return DT(LABELTYPE[DOMAIN[0]] if is_labels(self) else "float64" if self.kind != "pos" else "int64")

    def isna(self):
        return unop(e_isna, self.values)

    isnull = isna

    def notna(self):
        return unop(e_not, unop(e_isna, self.values))

    notnull = notna

    @property
    def is_monotonic_increasing(self):
        return self.sorted is True or unsup("monotonicity")

    @property
    def is_unique(self):
        return True if self.unique else unsup("uniqueness")

    @property
    def empty(self):
        return not nonempty(self.rows.mem)

    @property
    def size(self):
        return SymLen(self.rows)

    def _cmp(self, o, f):
        return binop(f, self.values, o if not isinstance(o, Index) else o.values)

    def __lt__(self, o):
        return self._cmp(o, e_lt)

    def __le__(self, o):
        return self._cmp(o, e_le)

    def __gt__(self, o):
        return self._cmp(o, e_gt)

    def __ge__(self, o):
        return self._cmp(o, e_ge)

    def __eq__(self, o):
        return self._cmp(o, e_eq)

    def __ne__(self, o):
        return self._cmp(o, e_ne)

    __hash__ = object.__hash__

    def _shift(self, o, sign):
        c = scal(o)
        if self.kind != "x" or c is None or isb(c):
            return NotImplemented
        if DOMAIN[0] and (isinstance(o, Lab) or not isinstance(o, Num)):
            unsup("labels moved by a label or a plain number")
        d = c.r if sign > 0 else -c.r
        off = d if self.off is None else self.off + d
        return Index(self.rows, "x", z3.simplify(off), None, self.sorted, None, self.name, self.unique)

    def __add__(self, o):
        return self._shift(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._shift(o, -1)

    def __contains__(self, l):
        c = scal(l)
        if c is None or isb(c):
            return False
        return M().somewhere(And(self.rows.mem, Not(c.nan), self.lab == c.r))

    def __getitem__(self, k):
        if isinstance(k, int) and not isinstance(k, bool):
            if self.kind == "val":
                return self.values[k]
            if not nonempty(self.rows.mem):
                raise SimIndexError("index %d is out of bounds" % k)
            if k == 0:
                return label(first_label(self.rows.mem, self.lab))
            if k == -1:
                return label(last_label(self.rows.mem, self.lab))
            unsup("index element")
        if isinstance(k, slice):
            mem, h0, t1 = slice_mem(self.rows, k, self.lab if self.kind == "x" else None)
            return self.like(tag_slice(gate(self.rows, mem, self.rows.nh - h0, t1), self.rows, k))
        bc = boolcol(self.rows, k)
        if bc is not None:
            return self.like(gate(self.rows, And(self.rows.mem, bc.val)))
        unsup("index selection")

    def copy(self, *a, **k):
        return self

    def rename(self, n):
        i = self.like(self.rows)
        i.name = n
        return i

    def equals(self, o):
        if isinstance(o, Index) and self.same_labels(o):
            return bool(GBool(Not(Iff(self.rows.mem, o.rows.mem)), True))
        unsup("Index.equals")

    def astype(self, t):
        if is_labels(self):
            raise SimTypeError("labels as %s" % (t,))
        if t in (float, "float64", "float"):
            return self
        unsup("Index.astype")

    def drop(self, l):
        unsup("Index.drop")

    def max(self):
        return self[-1]

    def min(self):
        return self[0]


class StreamList(NoAttr):
    """a python list made from a column, possibly extended at either end"""

    def __init__(self, arr, pre=(), post=()):
        self.arr, self.rows, self.pre, self.post = arr, arr.rows, list(pre), list(post)

    def __add__(self, o):
        if isinstance(o, list):
            return StreamList(self.arr, self.pre, self.post + o)
        unsup("list concatenation")

    def __radd__(self, o):
        if isinstance(o, list):
            return StreamList(self.arr, o + self.pre, self.post)
        unsup("list concatenation")


# ---- Series -----------------------------------------------------------------------------------------------
class Series(Ops):
    _labelcol, _patches = None, ()

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=False):
        self.small = None
        self.name = name
        if isinstance(index, Series) and index.small is None and index._labelcol is None:
            index = Index(index.index.rows, "val", lab=index.buf.col, sorted_=False, unique=False)
        if isinstance(index, Series):
            index = index.index_from_values()
        elif isinstance(index, Arr) and index.zero is None and index.lab is None:
            index = Index(index.rows, "val", lab=index.buf.col, sorted_=False, unique=False)
        if data is None or (isinstance(data, (list, tuple)) and not data):
            self._index = index if isinstance(index, Index) else Index(Rows(FALSE))
            if isinstance(index, Index):
                unsup("Series without data")
            self._buf = Buf(Col(VNAN))
            return
        if isinstance(data, (list, tuple)):
            if isinstance(index, Index):
                unsup("Series of a list on a column index")
            labels = list(index) if index is not None else list(range(len(data)))
            self.small = (labels, list(data), index is None)
            return
        if isinstance(data, Series):
            d = data.force()
            col, idx = d.buf.col, d.index
            if index is not None:
                if not isinstance(index, Index):
                    unsup("Series(index=...)")
                col, idx = d.index.onto(index, col, VNAN), index
            if dtype is not None:
                col = cast(col, dtype)
            self._index, self._buf = idx, (Buf(col) if copy or dtype is not None or index is not None else d.buf)
            if name is None:
                self.name = data.name
            return
        if isinstance(data, Index):
            data = data.values
        if isinstance(data, Arr) and data.zero is None:
            col = data.buf.col if dtype is None else cast(data.buf.col, dtype)
            if data.rows.nt:
                unsup("Series of an array extended at the end")
            if index is None:
                idx = Index(data.rows, "pos", root=data.rows)
            elif isinstance(index, Index):
                if not same_rows(index.rows, data.rows):
                    if index.kind != "val":
                        unsup("values and index of different lengths")
                    p = pair_up(data.rows, col, index.rows, index.lab_) or unsup("values and index of different lengths")
                    col, index = p[1], Index(p[0], "val", lab=p[2], sorted_=False, unique=False)
                idx = index
            else:
                unsup("Series index")
            self._index, self._buf = idx, Buf(col)
            self._labelcol = data.lab
            return
        c = scal(data)
        if c is not None:
            if isinstance(index, Index):
                self._index, self._buf = index, Buf(Col(c, [c] * index.rows.nh, [c] * index.rows.nt))
                if dtype is not None:
                    self._buf.col = cast(self._buf.col, dtype)
                return
            if isinstance(index, (list, tuple)):
                self.small = (list(index), [data] * len(index), False)
                return
            if isinstance(index, Vec):
                self.small = (index, data, False)
                return
        if isinstance(data, Vec) or isinstance(index, Vec):
            self.small = (index, data, index is None)
            return
        unsup("Series(%s)" % type(data).__name__)

    @classmethod
    def _mk(cls, index, buf, name=None):
        s = cls.__new__(cls)
        s.small = None
        s._index, s._buf, s.name = index, buf, name
        return s

    def force(self):
        """a concrete small series as a stream"""
        if self.small is not None:
            labels, vals, auto = self.small
            if auto or isinstance(labels, Vec) or len(labels) != 1 or scal(labels[0]) is None:
                unsup("a literal Series used as a column")
            q = tov(scal(labels[0])).r
            M().point(q)
            self._index = Index(Rows(M().x == q))
            self._buf = Buf(Col(scal(vals[0])))
            self._buf.col = self._buf.col.map(tov)
            self.small = None
        return self

    @property
    def buf(self):
        return self.force()._buf

    @property
    def index(self):
        return self.force()._index

    @index.setter
    def index(self, idx):
        self.force()
        if isinstance(idx, Series):
            idx = idx.index_from_values(self)
        elif isinstance(idx, Arr):
            idx = Index(idx.rows, "val", lab=idx.buf.col, unique=False) if idx.lab is None else Index(idx.rows, "x", idx.lab[1])
        if not isinstance(idx, Index):
            unsup("index assignment")
        if not same_rows(idx.rows, self._index.rows) and not idx.relabels is self:
            unsup("index of another length")
        if idx.relabels is self:
            self._buf = Buf(idx.newcol)
        self._index = idx

    def index_from_values(self, target=None):
        """this Series used as an Index (its values become the labels)"""
        self.force()
        lc = self._labelcol
        if lc is None:
            unsup("a column used as an index")
        patches = self._patches
        if not patches:
            return Index(self._index.rows, "x", lc[1])
        if len(patches) != 1 or target is None or lc[1] is not None:
            unsup("a patched column used as an index")
        r, = patches      # first row re-labelled r
        rows = target.index.rows
        if not same_rows(rows, self._index.rows):
            unsup("index of another length")
        m = M()
        m.point(r)
        mem, x = rows.mem, m.x
        s = seen(mem)[0]
        first = And(mem, Not(s))
        rest = And(mem, s)
        # the first row must move right, and stay the first
        m.CHECKS.append(("re-labelled first row moves right", Implies(first, x <= r)))
        m.CHECKS.append(("re-labelled first row stays first", Implies(rest, x > r)))
        col = target.buf.col
        if isb(col.val) or isinstance(col.val, OB):
            unsup("re-labelled boolean column")
        hv = hold(first, tov(col.val), VNAN)[1]
        moved = And(x == r, Or(s, first))
        idx = Index(Rows(Or(rest, moved)))
        idx.relabels = target
        idx.newcol = Col(vite(moved, hv, tov(col.val)))
        return idx

    def _cells(self):
        return self.index.rows, [self.buf.col]

    # -- access
    @property
    def values(self):
        if self.small is not None:
            return self.small[1] if isinstance(self.small[1], Vec) else SmallArr(self.small[1])
        return Arr(self.index.rows, self.buf)

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def array(self):
        return self.values

    @property
    def dtype(self):
        return DT(self.buf.dtype)

    @property
    def empty(self):
        return not nonempty(self.index.rows.mem)

    @property
    def size(self):
        return SymLen(self.index.rows)

    @property
    def shape(self):
        return (SymLen(self.index.rows),)

    @property
    def loc(self):
        return Loc(self)

    at = loc

    @property
    def iloc(self):
        return ILoc(self)

    iat = iloc

    def __getitem__(self, k):
        if self.small is not None:
            self.force()
        if isinstance(k, slice):
            return self.iloc[k]
        return self.loc[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.iloc[k] = v
        else:
            self.loc[k] = v

    def copy(self, deep=True):
        if self.small is not None:
            s = Series.__new__(Series)
            s.small, s.name = self.small, self.name
            return s
        s = Series._mk(self.index, Buf(self.buf.col) if deep else self.buf, self.name)
        s._labelcol, s._patches = self._labelcol, self._patches
        return s

    def rename(self, n, **k):
        return Series._mk(self.index, Buf(self.buf.col), n)

    def to_frame(self, name=None):
        n = name if name is not None else self.name if self.name is not None else 0
        return DataFrame._mk(self.index, {n: self.buf})

    def astype(self, t, **k):
        return Series._mk(self.index, Buf(cast(self.buf.col, t)), self.name)

    def infer_objects(self, **k):
        return self.copy()

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    # -- elementwise
    def isna(self):
        return unop(e_isna, self)

    isnull = isna

    def notna(self):
        return unop(e_not, unop(e_isna, self))

    notnull = notna

    def _cond(self, cond):
        if callable(cond) and not isinstance(cond, (Series, Arr)):
            cond = cond(self)
        if isinstance(cond, (Series, Arr)):
            bc = boolcol(self.index.rows, cond, self.index)
            if bc is not None:
                return bc
        c = scal(cond)
        if c is not None and isb(c):
            return c
        unsup("condition")

    def _other(self, other):
        if callable(other) and scal(other) is None and not isinstance(other, (Series, Arr)):
            other = other(self)
        c = scal(other)
        if c is not None:
            return c
        if isinstance(other, Series):
            return other.index.onto(self.index, other.buf.col, VNAN)
        if isinstance(other, Arr) and same_rows(other.rows, self.index.rows):
            return other.buf.col
        unsup("replacement values")

    def where(self, cond, other=float("nan"), inplace=False, **k):
        col = zipcols(lambda c, a, b: cite(c, a, b), self._cond(cond), self.buf.col, self._other(other))
        return self._res(col, inplace)

    def mask(self, cond, other=float("nan"), inplace=False, **k):
        col = zipcols(lambda c, a, b: cite(c, b, a), self._cond(cond), self.buf.col, self._other(other))
        return self._res(col, inplace)

    def _res(self, col, inplace=False):
        if inplace:
            self.buf.col = Col(cite(self.index.rows.mem, col.val, self.buf.col.val), col.heads, col.tails)
            return None
        return Series._mk(self.index, Buf(col), self.name)

    def fillna(self, value=None, method=None, inplace=False, **k):
        if method is not None:
            return self.ffill(inplace=inplace) if method in ("ffill", "pad") else self.bfill(inplace=inplace)
        o = self._other(value)
        col = zipcols(lambda a, b: cite(e_isna(a), b, a), self.buf.col, o)
        return self._res(col, inplace)

    def replace(self, to=None, value=None, inplace=False, **k):
        if isinstance(to, dict):
            unsup("replace(dict)")
        tos = to if isinstance(to, (list, tuple)) else [to]
        ts = [tov(scal(t)) for t in tos]
        w = scal(value)

        def f(c):
            v = tov(c)
            return vite(Or(*[vsame(v, t) for t in ts]), tov(w), v)
        return self._res(self.buf.col.map(f), inplace)

    def combine_first(self, o):
        idx, a, b = align(self, o)
        return Series._mk(idx, Buf(zipcols(lambda x, y: vite(tov(x).nan, tov(y), tov(x)), a, b)), self.name)

    def clip(self, lower=None, upper=None, **k):
        r = self
        if lower is not None:
            r = r.where(r.isna() | (r >= lower), lower)
        if upper is not None:
            r = r.where(r.isna() | (r <= upper), upper)
        return r

    def between(self, a, b, inclusive="both"):
        lo = self >= a if inclusive in ("both", "left") else self > a
        hi = self <= b if inclusive in ("both", "right") else self < b
        return lo & hi

    def isin(self, vals):
        r = None
        for v in vals:
            e = unop(lambda c: vsame(tov(c), tov(scal(v))), self)
            r = e if r is None else r | e
        return r

    def apply(self, f, *a, **k):
        unsup("Series.apply")

    map = apply

    # -- other rows
    def shift(self, periods=1, fill_value=None, **k):
        if periods != 1:
            unsup("shift(%r)" % periods)
        rows, c = self.index.rows, self.buf.col
        if rows.nh or rows.nt:
            unsup("shift of an extended array")
        if isb(c.val):
            p, s = bhold(rows.mem, c.val)[0], seen(rows.mem)[0]
            if fill_value is not None:
                f = scal(fill_value)
                if not isb(f):
                    unsup("shift fill")
                return Series._mk(self.index, Buf(Col(If(s, p, f))), self.name)
            return Series._mk(self.index, Buf(Col(OB(Not(s), p))), self.name)
        if isinstance(c.val, OB):
            unsup("shift of an object column")
        init = VNAN if fill_value is None else tov(scal(fill_value))
        return Series._mk(self.index, Buf(Col(hold(rows.mem, c.val, init)[0])), self.name)

    def diff(self, periods=1):
        if periods != 1:
            unsup("diff")
        rows, c = self.index.rows, self.buf.col.map(tov)
        if rows.nt or rows.nh > 1:
            unsup("diff of an extended array")
        init = c.heads[0] if rows.nh else VNAN
        return Series._mk(self.index, Buf(Col(vsub(c.val, hold(rows.mem, c.val, init)[0]), [VNAN] * rows.nh)), self.name)

    def cumsum(self, *a, **k):
        rows, c = self.index.rows, self.buf.col.map(tov)
        if rows.nh or rows.nt:
            unsup("cumsum of an extended array")
        _, post = accum(rows.mem, c.val)
        return Series._mk(self.index, Buf(Col(V(c.val.nan, post.r))), self.name)

    def ffill(self, inplace=False, **k):
        if any(v is not None for v in k.values()):
            unsup("ffill options")
        rows, c = self.index.rows, self.buf.col.map(tov)
        if rows.nh or rows.nt:
            unsup("ffill of an extended array")
        v = c.val
        pre, _ = hold(And(rows.mem, Not(v.nan)), v, VNAN)
        return self._res(Col(vite(v.nan, pre, v)), inplace)

    pad = ffill

    def bfill(self, inplace=False, **k):
        if any(v is not None for v in k.values()):
            unsup("bfill options")
        rows, c = self.index.rows, self.buf.col.map(tov)
        if rows.nh or rows.nt:
            unsup("bfill of an extended array")
        return self._res(Col(backfill(rows.mem, c.val)), inplace)

    backfill = bfill

    def reindex(self, index=None, method=None, fill_value=None, **k):
        if k:
            unsup("reindex options")
        if not isinstance(index, Index):
            unsup("reindex to a list")
        if method is None:
            f = VNAN if fill_value is None else scal(fill_value)
            return Series._mk(index, Buf(self.index.onto(index, self.buf.col, f)), self.name)
        if method not in ("ffill", "pad") or fill_value is not None:
            unsup("reindex(method=%s)" % method)
        if not self.index.same_labels(index) or self.index.kind != "x":
            unsup("reindex over other labels")
        if self.index.sorted is not True:
            unsup("reindex of an unordered index")
        c = self.buf.col.val
        mem = self.index.rows.mem
        if isb(c):
            p, post = bhold(mem, c)
            s = seen(mem)[1]
            return Series._mk(index, Buf(Col(V(Not(s), If(post, rv(1), rv(0))))), self.name)
        _, post = hold(mem, tov(c), VNAN)
        return Series._mk(index, Buf(Col(post)), self.name)

    def reset_index(self, drop=False, **k):
        if not drop:
            unsup("reset_index")
        return Series._mk(Index(self.index.rows, "pos", root=self.index.rows), Buf(self.buf.col), self.name)

    def drop(self, labels=None, inplace=False, index=None, errors="raise", **k):
        l = labels if labels is not None else index
        c = scal(l) if not isinstance(l, (list, tuple)) else scal(l[0]) if len(l) == 1 else None
        if c is None:
            unsup("drop")
        if l not in self.index:
            if errors == "ignore":
                return None if inplace else self.copy()
            raise SimKeyError("not found in axis")
        idx = self.index.like(gate(self.index.rows, And(self.index.rows.mem, self.index.lab != c.r)))
        if inplace:
            self._index, self._buf = idx, Buf(self.buf.col)
            return None
        return Series._mk(idx, Buf(self.buf.col), self.name)

    def dropna(self, **k):
        return self[self.notna()]

    def sort_index(self, **k):
        if k:
            unsup("sort_index options")
        return Series._mk(self.index.like(self.index.rows, True), Buf(self.buf.col), self.name)

    def sum(self, **k):
        if any(k.values()):
            unsup("sum options")
        return asum(self.index.rows, self.buf.col, skipna=True)

    def idxmax(self, **k):
        """label of the first greatest value"""
        if k or self.index.kind != "x" or self.index.off is not None or self.index.rows.nh:
            unsup("idxmax options")
        m = M()
        mem, v = self.index.rows.mem, tov(self.buf.col.val)
        if not never(mem, Not(v.fin)):
            unsup("idxmax of missing values")
        if not m.somewhere(mem):
            raise SimValueError("idxmax of nothing")
        top, c = m.rigid_value("idxmax.max", nan=False), m.rigid_value("idxmax", nan=False)
        m.U += [Implies(mem, v.r <= top.r), Implies(And(mem, v.r == top.r), m.x >= c.r), Implies(And(mem, m.x == c.r), v.r == top.r)]
        m.point(c.r)
        m.U.append(Implies(m.x == c.r, And(mem, v.r == top.r)))
        m.E.append(And(mem, m.x == c.r, v.r == top.r))
        return Num(c, "np")

    def item(self):
        unsup("Series.item")

    def to_list(self):
        return StreamList(self.values)

    tolist = to_list

    def equals(self, o):
        if not isinstance(o, Series):
            return False
        a, b = self.force(), o.force()
        if not a.index.same_labels(b.index):
            unsup("equals over other labels")
        va, vb = tov(a.buf.col.val), tov(b.buf.col.val)
        ma, mb = a.index.rows.mem, b.index.rows.mem
        return not M().somewhere(Or(Not(Iff(ma, mb)), And(ma, mb, Not(vsame(va, vb)))))

    def groupby(self, by=None, dropna=True, **k):
        if any(k.values()) and set(k) - {"sort", "observed"}:
            unsup("groupby options")
        if isinstance(by, Index):
            by = by.values
        if isinstance(by, int) and by == 0 or by is None and k.get("level") == 0:
            by = self.index.values
        if not isinstance(by, Arr) or not same_rows(by.rows, self.index.rows) or self.index.rows.nh or self.index.rows.nt:
            unsup("groupby")
        return GroupBy(self, by, dropna)

    def unique(self, *a, **k):
        return np_unique(self)

    def min(self, **k):
        if k:
            unsup("Series.min")
        return extreme(self.index.rows, self.buf.col, "min")

    def max(self, **k):
        if k:
            unsup("Series.max")
        return extreme(self.index.rows, self.buf.col, "max")

    def mean(self, **k):
        unsup("Series.mean")

    nunique = mean


def _method(f, rev=False):
    def g(self, other, level=None, fill_value=None, axis=0):
        if rev:
            return binop(lambda a, b: f(b, a), self, other, fill_value)
        return binop(f, self, other, fill_value)
    return g


def _install():
    for names, f in ((("add",), e_add), (("sub", "subtract"), e_sub), (("mul", "multiply"), e_mul),
                     (("div", "divide", "truediv"), e_div), (("lt",), e_lt), (("le",), e_le), (("gt",), e_gt),
                     (("ge",), e_ge), (("eq",), e_eq), (("ne",), e_ne)):
        g = _method(f)
        for n in names:
            setattr(Series, n, g)
    for names, f in ((("radd",), e_add), (("rsub",), e_sub), (("rmul",), e_mul), (("rdiv", "rtruediv"), e_div)):
        g = _method(f, True)
        for n in names:
            setattr(Series, n, g)


_install()


class GroupBy(NoAttr):
    def __init__(self, s, by, dropna):
        self.s, self.by, self.dropna = s, by, dropna

    def sum(self, **k):
        if any(k.values()):
            unsup("sum options")
        return Grouped(self.s.index.rows, self.by.buf.col.val, self.s.buf.col.val, self.dropna)


class Grouped(NoAttr):
    """totals of `val` by `key`: the rows are a bag of (key, amount)"""

    def __init__(self, rows, key, val, dropna):
        self.rows, self.key, self.val, self.dropna, self.extra = rows, tov(key), tov(val), dropna, {}

    def __setitem__(self, k, v):
        c = scal(k)
        if c is None or not isinstance(v, Num):
            unsup("item of a grouped column")
        self.extra[len(self.extra)] = (tov(c), v)


class SmallArr(NoAttr):
    def __init__(self, vals):
        self.vals = vals

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.vals[k]
        unsup("literal array index")


class Loc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        s.force()
        if isinstance(k, slice):
            return Series._mk(s.index.like(gate(s.index.rows, label_slice(s.index, k))), s.buf, s.name)
        if callable(k) and not isinstance(k, (Series, Arr, Num)):
            k = k(s)
        c = scal(k)
        if c is not None and not isb(c):
            if k not in s.index:
                raise SimKeyError(k)
            v = tov(s.buf.col.val)
            here = And(s.index.rows.mem, s.index.lab == c.r)

            def make():
                r = M().rigid_value("at")
                M().U.append(Implies(here, vsame(r, v)))
                return r
            return Num(cached(("at",) + _ck(here, v), make), "np")
        bc = boolcol(s.index.rows, k, s.index)
        if bc is None:
            unsup("loc[%s]" % type(k).__name__)
        hs = [i for i, h in enumerate(bc.heads) if M().branch(h)]
        col = s.buf.col
        rows = gate(s.index.rows, And(s.index.rows.mem, bc.val), len(hs))
        return Series._mk(s.index.like(rows), Buf(Col(col.val, [col.heads[i] for i in hs])), s.name)

    def __setitem__(self, k, val):
        s = self.s
        s.force()
        c = scal(k)
        if c is not None and not isb(c):
            m = M()
            w = scal(val)
            if w is None:
                unsup("loc assignment")
            old = s.buf.col.val
            here = s.index.lab == c.r
            if k in s.index:
                s.buf.col = Col(cite(And(s.index.rows.mem, here), tov(w), tov(old)))
                return
            if s.index.off is not None or s.index.rows.nh:
                unsup("enlarging a shifted column")
            m.point(c.r)
            mem = s.index.rows.mem
            # appended at the end: in order exactly when every other row is to its left
            ordered = s.index.sorted is True and m.check(*m.U, *m.P, mem, Not(m.x < c.r)) == z3.unsat
            if not ordered and s.index.sorted is True:
                ordered = Implies(mem, m.x < c.r)
            s._index = Index(Rows(Or(mem, here)), sorted_=ordered, name=s.index.name)
            s._buf = Buf(Col(cite(here, tov(w), tov(old))))
            return
        if isinstance(k, slice) and k != slice(None):
            mem = label_slice(s.index, k)
            k = Arr(s.index.rows, Buf(Col(mem)))
        assign(s.index.rows, s.buf, k, val, s.index)


def label_slice(index, k):
    """event term of rows with start <= label <= stop"""
    if k.step is not None or index.sorted is not True:
        unsup("label slice")
    t = index.rows.mem
    if k.start is not None:
        t = And(t, index.lab >= tov(scal(k.start)).r)
    if k.stop is not None:
        t = And(t, index.lab <= tov(scal(k.stop)).r)
    return t


class ILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if s.small is not None:
            if isinstance(k, int):
                return s.small[1][k]
            s.force()
        lab = (s.index.lab,) if s.index.kind == "x" else None
        if isinstance(k, Pos):
            return k.element(s.values)
        r, col = pick(s.index.rows, s.buf.col, k, lab)
        if r is None:
            return mknum(col)
        return Series._mk(s.index.like(r), s.buf if col is s.buf.col else Buf(col), s.name)

    def __setitem__(self, k, val):
        s = self.s
        s.force()
        lc = s._labelcol
        if lc is not None:
            c = scal(val)
            if k != 0 or c is None:
                unsup("assignment to a column of labels")
            if not nonempty(s.index.rows.mem):
                raise SimIndexError("iloc cannot enlarge its target object")
            s._patches = list(s._patches) + [tov(c).r]
            return
        if isinstance(k, slice) and k != slice(None):
            mem, h0, t1 = slice_mem(s.index.rows, k, s.index.lab if s.index.kind == "x" else None)
            k = Arr(s.index.rows, Buf(Col(mem, [TRUE if i >= h0 else FALSE for i in range(s.index.rows.nh)])))
        assign(s.index.rows, s.buf, k, val, s.index)


# ---- DataFrame ----------------------------------------------------------------------------------------------
class Columns(NoAttr):
    def __init__(self, names):
        self.names = list(names)

    def __contains__(self, k):
        return k in self.names

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.names)

    def __getitem__(self, k):
        return self.names[k]

    def tolist(self):
        return list(self.names)

    def __eq__(self, o):
        return list(self.names) == list(o)


class DataFrame(NoAttr):
    def __init__(self, data=None, index=None, columns=None, copy=None):
        if isinstance(index, Series):
            index = index.index_from_values()
        if isinstance(data, DataFrame):
            self.index_, self.cols = data.index_, {k: Buf(b.col) for k, b in data.cols.items()}
            return
        if isinstance(data, Series):
            data.force()
            n = data.name if data.name is not None else 0
            if columns is not None:
                n, = columns
            col = data.buf.col
            idx = data.index
            if index is not None:
                col, idx = data.index.onto(index, col, VNAN), index
            self.index_, self.cols = idx, {n: Buf(col)}
            return
        if isinstance(data, dict) and data:
            if isinstance(index, Arr) or any(isinstance(v, (list, StreamList)) or (isinstance(v, Arr) and (v.rows.nh or v.rows.nt)) for v in data.values()):
                self.literal = dict(data)
                self.literal_index = index
                self.index_, self.cols = None, {}
                return
            sers = {k: v for k, v in data.items()}
            idx = index
            if idx is None:
                for v in sers.values():
                    if isinstance(v, Series):
                        idx = v.index if idx is None else (idx if v.index is idx or same_rows(idx.rows, v.index.rows) else idx.union(v.index))
            if idx is None or not isinstance(idx, Index):
                unsup("DataFrame index")
            self.index_, self.cols = idx, {}
            for k, v in sers.items():
                self.cols[k] = self._column(v)
            return
        unsup("DataFrame(%s)" % type(data).__name__)

    @classmethod
    def _mk(cls, index, cols):
        d = cls.__new__(cls)
        d.index_, d.cols = index, dict(cols)
        return d

    def _column(self, v):
        if isinstance(v, Series):
            v.force()
            return Buf(v.index.onto(self.index_, v.buf.col, VNAN))
        if isinstance(v, Index):
            v = v.values
        if isinstance(v, Arr) and v.zero is None:
            if not same_rows(v.rows, self.index_.rows):
                unsup("values and index of different lengths")
            return Buf(v.buf.col)
        c = scal(v)
        if c is None:
            unsup("DataFrame column")
        return Buf(Col(c))

    @property
    def index(self):
        return self.index_

    @index.setter
    def index(self, idx):
        if not isinstance(idx, Index) or not same_rows(idx.rows, self.index_.rows):
            unsup("index assignment")
        self.index_ = idx

    @property
    def columns(self):
        return Columns(self.__dict__.get("literal", self.cols))

    def __contains__(self, k):
        return k in self.cols

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise SimKeyError(k)
            return Series._mk(self.index_, self.cols[k], k)
        if isinstance(k, list):
            for c in k:
                if c not in self.cols:
                    raise SimKeyError(c)
            return DataFrame._mk(self.index_, {c: Buf(self.cols[c].col) for c in k})
        return self.loc[k]

    def get(self, k, default=None):
        return self[k] if k in self.cols else default

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            unsup("DataFrame assignment")
        self.cols[k] = self._column(v)

    def _take(self, mem):
        return DataFrame._mk(self.index_.like(gate(self.index_.rows, mem)), {k: Buf(b.col) for k, b in self.cols.items()})

    @property
    def loc(self):
        return DLoc(self)

    @property
    def iloc(self):
        return DILoc(self)

    @property
    def values(self):
        return Mat(self.index_.rows, [b.col for b in self.cols.values()])

    def to_numpy(self, *a, **k):
        return self.values

    def copy(self, deep=True):
        return DataFrame._mk(self.index_, {k: Buf(b.col) if deep else b for k, b in self.cols.items()})

    def __neg__(self):
        return unop(e_neg, self)

    def isna(self):
        return unop(e_isna, self)

    isnull = isna

    def any(self, axis=0):
        unsup("DataFrame.any")

    def replace(self, *a, **k):
        inplace = k.pop("inplace", False)
        out = {n: Buf(Series._mk(self.index_, b, n).replace(*a, **k).buf.col) for n, b in self.cols.items()}
        if inplace:
            self.cols = out
            return None
        return DataFrame._mk(self.index_, out)

    def _each(self, f):
        return DataFrame._mk(self.index_, {n: Buf(f(Series._mk(self.index_, b, n)).buf.col) for n, b in self.cols.items()})

    def __mul__(self, o):
        return self._each(lambda s: s * o)

    def __add__(self, o):
        return self._each(lambda s: s + o)

    def astype(self, t):
        return self._each(lambda s: s.astype(t))

    def fillna(self, v):
        return self._each(lambda s: s.fillna(v))

    def set_index(self, idx, **k):
        if k or not isinstance(idx, Index):
            unsup("set_index")
        if not same_rows(idx.rows, self.index_.rows):
            unsup("index of another length")
        return DataFrame._mk(idx, {n: Buf(b.col) for n, b in self.cols.items()})

    def set_axis(self, idx, axis=0, **k):
        if axis not in (0, "index"):
            unsup("set_axis")
        return self.set_index(idx)

    def rename(self, columns=None, **k):
        if k or not isinstance(columns, dict):
            unsup("rename")
        return DataFrame._mk(self.index_, {columns.get(n, n): Buf(b.col) for n, b in self.cols.items()})

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **k):
        cs = columns if columns is not None else labels if axis in (1, "columns") else None
        if cs is None:
            unsup("DataFrame.drop")
        cs = [cs] if isinstance(cs, str) else list(cs)
        out = {n: b for n, b in self.cols.items() if n not in cs}
        if inplace:
            self.cols = out
            return None
        return DataFrame._mk(self.index_, {n: Buf(b.col) for n, b in out.items()})

    def assign(self, **k):
        d = self.copy()
        for n, v in k.items():
            d[n] = v(d) if callable(v) and not isinstance(v, (Series, Arr, Num)) else v
        return d

    def sort_index(self, **k):
        if k:
            unsup("sort_index options")
        return DataFrame._mk(self.index_.like(self.index_.rows, True), {n: Buf(b.col) for n, b in self.cols.items()})

    def dropna(self, **k):
        unsup("DataFrame.dropna")

    @property
    def empty(self):
        return not nonempty(self.index_.rows.mem)

    @property
    def shape(self):
        return (SymLen(self.index_.rows), len(self.cols))

    def squeeze(self, axis=None):
        unsup("squeeze")


class DLoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, tuple):
            r, c = k
            s = d[c]
            if isinstance(r, slice) and r == slice(None):
                return s
            return s.loc[r] if isinstance(c, str) else DLoc(s)[r]
        if isinstance(k, slice):
            return d._take(label_slice(d.index_, k))
        if callable(k) and not isinstance(k, (Series, Arr, Num)):
            k = k(d)
        bc = boolcol(d.index_.rows, k, d.index_)
        if bc is None:
            unsup("loc[%s]" % type(k).__name__)
        return d._take(And(d.index_.rows.mem, bc.val))

    def __setitem__(self, k, v):
        d = self.d
        if isinstance(k, tuple) and isinstance(k[1], str):
            if k[1] not in d.cols:
                unsup("loc enlarges columns")
            s = d[k[1]]
            r = k[0]
            if scal(r) is not None and not isb(scal(r)) and r not in s.index:
                unsup("loc enlarges a frame")
            s.loc[r] = v
            return
        unsup("DataFrame loc assignment")


class DILoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, slice):
            mem, _, _ = slice_mem(d.index_.rows, k, d.index_.lab if d.index_.kind == "x" else None)
            return DataFrame._mk(d.index_.like(gate(d.index_.rows, mem)), d.cols)
        bc = boolcol(d.index_.rows, k, d.index_) if isinstance(k, (Series, Arr)) else None
        if bc is None:
            unsup("DataFrame.iloc")
        return d._take(And(d.index_.rows.mem, bc.val))


class Vec:
    """a user-supplied vector with a generic element"""


NA = type("NAType", (), {"__bool__": lambda s: unsup("bool(NA)")})()
