"""Terms, stream machine and path exploration of the deductive engine.

A function under verification is executed by CPython on *streams*: the domain is walked from
left to right, one event per point at which anything can happen (a row of an operand, a
query point).  A Series is (clock, value): at each event the clock says whether the Series
has a row there and the value is the row's content, both z3 terms over the registers
(state before the event) and the inputs of the event.  Operations that look at other rows
(shift, ffill, cumsum, ...) allocate registers.  What a run produces is a transition system;
the obligations are invariants of it (prove.py), so they hold for any number of rows.
"""
import itertools
from fractions import Fraction

import z3

z3.z3.Z3_DEBUG = False      # argument checks of the bindings: a third of the run time

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
R = z3.RealSort()


class Unsupported(Exception):
    """the code uses something outside the modelled subset"""


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


_TRUE, _FALSE = TRUE.ast.value, FALSE.ast.value


_CTX = z3.main_ctx()
_REF = _CTX.ref()


def _nary(mk, l):
    a = (z3.Ast * len(l))(*[x.ast for x in l])
    return z3.BoolRef(mk(_REF, len(l), a), _CTX)


# ---- booleans with folding ------------------------------------------------------------------
def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def is_t(x):
    return x is TRUE or x is True or (x is not False and x.ast.value == _TRUE)


def is_f(x):
    return x is FALSE or x is False or (x is not True and x.ast.value == _FALSE)


def And(*a):
    out, seen = [], set()
    for x in a:
        if is_f(x):
            return FALSE
        if is_t(x):
            continue
        if x.ast.value not in seen:         # terms are hash-consed
            seen.add(x.ast.value)
            out.append(x)
    return TRUE if not out else out[0] if len(out) == 1 else _nary(z3.Z3_mk_and, out)


def Or(*a):
    out, seen = [], set()
    for x in a:
        if is_t(x):
            return TRUE
        if is_f(x):
            continue
        if x.ast.value not in seen:         # terms are hash-consed
            seen.add(x.ast.value)
            out.append(x)
    return FALSE if not out else out[0] if len(out) == 1 else _nary(z3.Z3_mk_or, out)


def Not(x):
    if is_t(x):
        return FALSE
    if is_f(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def If(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if a.ast.value == b.ast.value:
        return a
    if z3.is_bool(a):
        return Or(And(c, a), And(Not(c), b))
    return z3.If(c, a, b)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = B(a), B(b)
    if a.ast.value == b.ast.value:
        return TRUE
    return If(a, b, Not(b))


def rv(x):
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(Fraction(x))
    return x


def rnum(x):
    return z3.is_rational_value(x)


MUL = z3.Function("mul", R, R, R)
DIV = z3.Function("div", R, R, R)
SQRT = z3.Function("sqrt", R, R)


def r_add(a, b):
    if rnum(a) and a.as_fraction() == 0:
        return b
    if rnum(b) and b.as_fraction() == 0:
        return a
    return z3.simplify(a + b) if rnum(a) and rnum(b) else a + b


def r_sub(a, b):
    if rnum(b) and b.as_fraction() == 0:
        return a
    return z3.simplify(a - b) if rnum(a) and rnum(b) else a - b


def r_mul(a, b):
    if rnum(a) and rnum(b):
        return z3.simplify(a * b)
    for x, y in ((a, b), (b, a)):
        if rnum(x):
            f = x.as_fraction()
            return rv(0) if f == 0 else y if f == 1 else x * y
    if a.get_id() > b.get_id():
        a, b = b, a
    return MUL(a, b)


def r_div(a, b):
    if rnum(b) and b.as_fraction() != 0:
        return z3.simplify(a / b) if rnum(a) else a if b.as_fraction() == 1 else a / b
    return DIV(a, b)


def r_eq(a, b):
    if a.eq(b):
        return TRUE
    for p, q in ((a, b), (b, a)):
        w = label_fact(p, q)
        if w is not None:
            return And(w[0], Not(w[1][0]))
    if rnum(a) and rnum(b):
        return B(a.as_fraction() == b.as_fraction())
    return a == b


def label_fact(p, q):
    """q is the label of the first row of a column and p its label at this event: (row here, (seen before, after))"""
    m = Machine.cur
    return m.labfacts.get((p.get_id(), q.get_id())) if m is not None else None


def r_lt(a, b):
    if a.eq(b):
        return FALSE
    w = label_fact(a, b)
    if w is not None:
        return Not(w[1][1])
    w = label_fact(b, a)
    if w is not None:
        return w[1][0]
    if rnum(a) and rnum(b):
        return B(a.as_fraction() < b.as_fraction())
    return a < b


# ---- values: real, +-inf or NaN ---------------------------------------------------------------
class V:
    __slots__ = ("nan", "pinf", "ninf", "r")

    def __init__(self, nan, r, pinf=FALSE, ninf=FALSE):
        self.nan, self.r, self.pinf, self.ninf = B(nan), rv(r), B(pinf), B(ninf)

    @property
    def inf(self):
        return Or(self.pinf, self.ninf)

    @property
    def fin(self):
        return And(Not(self.nan), Not(self.inf))

    def parts(self):
        return [self.nan, self.r, self.pinf, self.ninf]

    def __repr__(self):
        return "V(%s,%s)" % (z3.simplify(self.nan), z3.simplify(self.r))


VNAN = V(True, 0)
VPINF, VNINF = V(False, 0, True, False), V(False, 0, False, True)


def num(x):
    """python / shim number -> V"""
    if isinstance(x, V):
        return x
    if isinstance(x, bool):
        return V(False, int(x))
    if isinstance(x, float):
        if x != x:
            return VNAN
        if x in (float("inf"), float("-inf")):
            return VPINF if x > 0 else VNINF
    return V(False, rv(x))


def b2v(b):
    return V(False, If(b, rv(1), rv(0)))


def vite(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    return V(If(c, a.nan, b.nan), If(c, a.r, b.r), If(c, a.pinf, b.pinf), If(c, a.ninf, b.ninf))


def mkv(nan, r, pi, ni):
    """the flags of a value exclude each other"""
    return V(nan, r, And(pi, Not(nan)), And(ni, Not(nan)))


def vneg(a):
    return V(a.nan, r_sub(rv(0), a.r) if not rnum(a.r) else rv(-a.r.as_fraction()), a.ninf, a.pinf)


def vadd(a, b):
    pi, ni = Or(a.pinf, b.pinf), Or(a.ninf, b.ninf)
    return mkv(Or(a.nan, b.nan, And(pi, ni)), r_add(a.r, b.r), pi, ni)


def vsub(a, b):
    pi, ni = Or(a.pinf, b.ninf), Or(a.ninf, b.pinf)
    return mkv(Or(a.nan, b.nan, And(pi, ni)), r_sub(a.r, b.r), pi, ni)


def vpos(a):
    return Or(a.pinf, And(Not(a.ninf), r_lt(rv(0), a.r)))


def vneg_(a):
    return Or(a.ninf, And(Not(a.pinf), r_lt(a.r, rv(0))))


def vzero(a):
    return And(a.fin, r_eq(a.r, rv(0)))


def vmul(a, b):
    inf = Or(a.inf, b.inf)
    z = Or(vzero(a), vzero(b)) if not is_f(inf) else FALSE
    pos = Or(And(vpos(a), vpos(b)), And(vneg_(a), vneg_(b))) if not is_f(inf) else FALSE
    return mkv(Or(a.nan, b.nan, And(inf, z)), r_mul(a.r, b.r), And(inf, pos), And(inf, Not(pos)))


def vdiv(a, b, sign):
    """numpy division; `sign` is the (unmodelled) sign of a zero divisor"""
    bz = vzero(b)
    az = vzero(a)
    nan = Or(a.nan, b.nan, And(az, bz), And(a.inf, b.inf))
    if is_f(bz):
        overflow, pos = a.inf, Or(And(vpos(a), vpos(b)), And(vneg_(a), vneg_(b)))
    else:
        overflow = Or(a.inf, bz)
        pos = Or(And(vpos(a), Or(vpos(b), And(bz, sign))), And(vneg_(a), Or(vneg_(b), And(bz, Not(sign)))))
    if is_f(overflow):
        pos = FALSE
    return mkv(nan, If(b.inf, rv(0), r_div(a.r, b.r)), And(overflow, pos), And(overflow, Not(pos)))


def veq(a, b):
    """IEEE equality"""
    both = And(Not(a.nan), Not(b.nan))
    return And(both, Or(And(a.pinf, b.pinf), And(a.ninf, b.ninf), And(Not(a.inf), Not(b.inf), r_eq(a.r, b.r))))


def vlt(a, b):
    both = And(Not(a.nan), Not(b.nan))
    return And(both, Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)), And(a.fin, b.fin, r_lt(a.r, b.r))))


def vle(a, b):
    return Or(vlt(a, b), veq(a, b))


def vsame(a, b):
    """same value, NaN equal to NaN"""
    return Or(And(a.nan, b.nan), veq(a, b))


# ---- the machine --------------------------------------------------------------------------------
MEMO = {}


class Machine:
    """one symbolic run (path) : registers, inputs, assumptions, decisions"""

    cur = None
    on_fact = None

    def __init__(self, trace=(), limit=400):
        self.trace, self.pos, self.limit = list(trace), 0, limit
        self.decisions = []      # [(taken, alternative_feasible)]
        self.fresh = itertools.count()
        self.vregs, self.bregs, self.xregs = [], [], []   # (pre, init, next, tag)
        self.U = []              # assumed at every event
        self.P = []              # rigid path condition
        self.E = []              # known to hold at some event
        self.FIN = []            # assumed of the final state (terms over registers)
        self.CHECKS = []         # side obligations (name, z3 over rigid, kind) raised by contracts of callees
        self.notes = []
        self.rigidv = []         # rigid values offered to the invariant generator
        self.rigidx = []         # rigid labels
        self.inputs = []         # constants that take a fresh value at every event
        self.keep = []           # terms whose ids are used as cache keys
        self.x = z3.Real("x")
        self.xlast = z3.Real("xlast")
        self.started = z3.Bool("started")
        self.bregs.append((self.started, FALSE, TRUE, "started"))
        self.xregs.append((self.xlast, rv(0), self.x, "xlast"))
        self.U.append(Implies(self.started, self.xlast < self.x))
        self.points = []
        self.inputs.append(self.x)
        self.cexp = {}
        self.sumdiv = False      # use that fractions of one total add up
        self.tracked = {}
        self.places = []         # (rows, position of the first or last of them, which)
        self.labfacts = {}       # see label_fact
        self.recs = []           # (rows, value, register) of the value / flag / row registers
        self.rec_facts = set()
        self.lemmas = []         # candidate invariants a contract suggests (checked like any other)
        self.offsets = []        # values registers may differ by
        self.known = []          # (before, after): values the specification speaks about

    # names are deterministic across re-executions of the same path
    def name(self, base):
        return "%s!%d" % (base, next(self.fresh))

    def bconst(self, base):
        return z3.Bool(self.name(base))

    def rconst(self, base):
        return z3.Real(self.name(base))

    def rigid_value(self, base, nan=True):
        n = self.bconst(base + ".nan") if nan else FALSE
        v = V(n, self.rconst(base))
        self.rigidv.append((v, base))
        return v

    def input_value(self, base, nan=True):
        return V(self.input_bool(base + ".nan") if nan else FALSE, self.input_real(base))

    def input_bool(self, base):
        self.inputs.append(self.bconst(base))
        return self.inputs[-1]

    def input_real(self, base):
        self.inputs.append(self.rconst(base))
        return self.inputs[-1]

    def vreg(self, init, nxt, tag):
        """nxt: V -> V, or a V.  returns the pre-state value"""
        pre = V(self.bconst(tag + ".n"), self.rconst(tag))
        new = nxt(pre) if callable(nxt) else nxt
        if not (is_f(new.pinf) and is_f(new.ninf) and is_f(init.pinf) and is_f(init.ninf)):
            pre = V(pre.nan, pre.r, self.bconst(tag + ".pi"), self.bconst(tag + ".ni"))
            new = nxt(pre) if callable(nxt) else nxt
        self.vregs.append((pre, init, new, tag))
        return pre

    def breg(self, init, nxt, tag):
        pre = self.bconst(tag)
        self.bregs.append((pre, B(init), nxt(pre) if callable(nxt) else nxt, tag))
        return pre

    def xreg(self, init, nxt, tag):
        pre = self.rconst(tag)
        self.xregs.append((pre, rv(init), nxt(pre) if callable(nxt) else nxt, tag))
        return pre

    def next_env(self):
        """[(register, its next value)]"""
        out = []
        for pre, init, new, _ in self.vregs:
            out += [(p, n) for p, n in zip(pre.parts(), new.parts()) if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        return out + [(p, n) for p, _, n, _ in self.bregs + self.xregs]

    def next_subst(self):
        """[(next value, register)] for rewriting a term of the state after the event"""
        return [(n, p) for p, n in self.next_env() if not (z3.is_true(n) or z3.is_false(n) or z3.is_rational_value(n))]

    def point(self, q):
        """make the rigid label q an event of the stream"""
        if any(q.eq(p) for p in self.points):
            return q
        self.points.append(q)
        self.rigidx.append(q)
        self.U.append(Not(And(self.started, self.xlast < q, q < self.x)))
        # a first event beyond q would skip it
        self.U.append(Implies(Not(self.started), self.x <= q))
        self.FIN.append(And(self.started, self.xlast >= q))
        return q

    # ---- decisions
    def check(self, *fs):
        """satisfiability; names are deterministic, so runs of other paths share the answers"""
        from . import prove
        fs = [f for f in fs if not is_t(f)]
        key = frozenset(f.get_id() for f in fs)
        hit = MEMO.get(key)
        if hit is not None:
            return hit[0]
        s = z3.SimpleSolver()
        s.set("timeout", 4000)
        s.add(*prove.with_axioms(fs))
        r = prove.check(s)
        MEMO[key] = (r, fs)
        return r

    def decide(self, t_ok, f_ok):
        """t_ok/f_ok: feasibility thunks; returns the branch to take"""
        i = self.pos
        self.pos += 1
        if i < len(self.trace):
            d = self.trace[i]
            self.decisions.append((d, None))
            return d
        if len(self.decisions) > self.limit:
            raise PathLimit()
        t, f = t_ok(), f_ok()
        if not t and not f:
            raise Infeasible()
        self.decisions.append((t, t and f))
        return t

    def branch(self, cond):
        """a rigid condition"""
        cond = z3.simplify(B(cond))
        if is_t(cond):
            return True
        if is_f(cond):
            return False
        def can(c):
            return self.check(*self.P, c) != z3.unsat and not any(self.check(*self.U, *self.P, e, c) == z3.unsat for e in self.E)
        d = self.decide(lambda: can(cond), lambda: can(Not(cond)))
        self.P.append(cond if d else Not(cond))
        return d

    def somewhere(self, term):
        """does `term` hold at some event?"""
        term = z3.simplify(B(term))
        if is_f(term):
            return False

        def can_be_true():
            return self.check(*self.U, *self.P, term) != z3.unsat

        def can_be_false():
            return not any(self.check(*self.U, *self.P, e, Not(term)) == z3.unsat for e in self.E)
        d = self.decide(can_be_true, can_be_false)
        if d:
            self.E.append(term)
            for p in self.points:       # the event at a point is unique
                if self.check(term, Not(self.x == p)) == z3.unsat:
                    self.U.append(Implies(self.x == p, term))
        else:
            self.U.append(Not(term))
            if self.on_fact:
                self.on_fact(self)
        return d


def M():
    return Machine.cur


def explore(run, max_paths=200):
    """run(machine) for every feasible path; yields (machine, outcome)"""
    stack = [[]]
    n = 0
    while stack:
        trace = stack.pop()
        m = Machine(trace)
        Machine.cur = m
        try:
            out, ok = run(m), True
        except Infeasible:
            out, ok = None, False
        n += 1
        if n > max_paths:
            raise PathLimit()
        taken = [d for d, _ in m.decisions]
        for i in range(len(trace), len(m.decisions)):
            d, alt = m.decisions[i]
            if alt:
                stack.append(taken[:i] + [not d])
        if ok:
            yield m, out
