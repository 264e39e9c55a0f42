"""Discharging the obligations of one symbolic run.

A run (Machine) is a transition system.  An event obligation must hold at every event of every
execution, a final obligation in the final state, a rigid one of the constants.  The proof is by
induction over the events: an inductive invariant is inferred (largest inductive subset of a
candidate pool, z3 decides every step), and the obligations must follow from it in one step.
"""
import itertools
import time

import z3

from .core import *
from .core import V, MUL, DIV, SQRT

STATS = {"solver_s": 0.0, "queries": 0}


APPS = {}       # id -> (term, applications of mul/div/sqrt inside)
_NAMES = ("mul", "div", "sqrt")


def _apps(t):
    hit = APPS.get(t.get_id())
    if hit is not None:
        return hit[1]
    stack = [(t, None)]
    while stack:
        u, ch = stack.pop()
        i = u.get_id()
        if i in APPS:
            continue
        if ch is None:
            ch = u.children()
            if ch:
                stack.append((u, ch))
                stack.extend((c, None) for c in ch if c.get_id() not in APPS)
                continue
            APPS[i] = (u, ())
            continue
        acc = {}
        for c in ch:
            for a in APPS[c.get_id()][1]:
                acc[a.get_id()] = a
        if u.decl().name() in _NAMES:
            acc[i] = u
        APPS[i] = (u, tuple(acc.values()) if acc else ())
    return APPS[t.get_id()][1]


def axioms(fs):
    acc = {}
    for f in fs:
        for a in _apps(f):
            acc[a.get_id()] = a
    out = []
    for t in acc.values():
        k = t.decl().name()
        if k == "sqrt":
            continue
        a, b = t.arg(0), t.arg(1)
        if k == "mul":
            out += [t == MUL(b, a), z3.Implies(a == 0, t == 0), z3.Implies(b == 0, t == 0), z3.Implies(a == 1, t == b),
                    z3.Implies(b == 1, t == a), z3.Implies(z3.And(a != 0, b != 0), t != 0)]
        else:
            out += [z3.Implies(z3.And(a == 0, b != 0), t == 0), z3.Implies(b == 1, t == a),
                    z3.Implies(z3.And(a != 0, b != 0), t != 0)]
    m = Machine.cur
    if m is not None and m.sumdiv:      # fractions of one total add up
        by = {}
        for t in acc.values():
            if t.decl().name() == "div":
                by.setdefault(t.arg(1).get_id(), []).append(t)
        for l in by.values():
            c = l[0].arg(1)
            for t in l:
                out += [z3.Implies(z3.And(t.arg(0) > 0, c > 0), t > 0), z3.Implies(z3.And(t.arg(0) == c, c != 0), t == 1)]
                for u in l:
                    for v in l:
                        if u.get_id() <= v.get_id():
                            out.append(z3.Implies(z3.And(c != 0, t.arg(0) == u.arg(0) + v.arg(0)), t == u + v))
    return out


def with_axioms(fs):
    fs = [B(f) for f in fs]
    return fs + axioms(fs)


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    return r


class Subst:
    """a fixed simultaneous substitution"""

    def __init__(self, pairs):
        n = self.n = len(pairs)
        self.keep = pairs
        self.src, self.dst = (z3.Ast * n)(), (z3.Ast * n)()
        for i, (p, q) in enumerate(pairs):
            assert p.sort().eq(q.sort())
            self.src[i], self.dst[i] = p.as_ast(), q.as_ast()

    def __call__(self, t):
        return z3.z3._to_expr_ref(z3.Z3_substitute(t.ctx_ref(), t.as_ast(), self.n, self.src, self.dst), t.ctx)


class Obligation:
    def __init__(self, name, kind, term, cat):
        self.name, self.kind, self.term, self.cat = name, kind, B(term), cat
        self.status, self.detail = None, ""


class TS:
    """the transition system of a machine, with primed constants"""

    def __init__(self, m):
        self.m = m
        self.pairs = []     # (pre, init, next)
        for pre, init, new, tag in m.vregs:
            for p, i, n in zip(pre.parts(), init.parts(), new.parts()):
                if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    self.pairs.append((p, i, n))
        for pre, init, new, tag in m.bregs + m.xregs:
            self.pairs.append((pre, init, new))
        self.primed = [(p, z3.Const(str(p) + "'", p.sort())) for p, _, _ in self.pairs]
        self.post = Subst(self.primed)
        self.at_init = Subst([(p, i) for p, i, _ in self.pairs])

    def trans(self):
        return [q == n for (p, q), (_, _, n) in zip(self.primed, self.pairs)]


def candidates(m, extra_v=(), todo=None):
    """candidate invariants over the registers (pre-state constants) and the rigid values"""
    out = list(m.lemmas)
    keep = None if todo is None else cone(m, [o.term for o in todo] + m.FIN + m.U + m.E)

    def near(*ts):
        return keep is None or any(t.get_id() in keep for t in ts)

    def add(t):
        t = z3.simplify(t)
        if not z3.is_true(t) and not z3.is_false(t):
            out.append(t)
    vs = [(pre, tag) for pre, _, _, tag in m.vregs if near(pre.nan, pre.r)] + list(extra_v)
    rig = [v for v, _ in m.rigidv]
    bs = [b for b, _, _, _ in m.bregs if near(b)]
    guards = [None] + bs + [Not(b) for b in bs]
    started, xl = m.started, m.xlast
    pts = m.rigidx
    pg = []
    for p in pts:
        pg += [And(started, xl >= p), And(started, xl > p)]
    guards += pg + [Not(g) for g in pg]
    # boolean facts
    atoms = bs + [v.nan for v, _ in vs if not (is_t(v.nan) or is_f(v.nan))] + pg + \
        [v.nan for v in rig if not (is_t(v.nan) or is_f(v.nan))]
    lits = atoms + [Not(a) for a in atoms]
    for v, _ in vs:
        if not is_f(v.pinf):
            add(Not(v.pinf))
            add(Not(v.ninf))
    for a in lits:
        add(a)
    for i, a in enumerate(lits):
        for b in lits[i + 1:]:
            add(Or(a, b))
    # equality of values
    allv = [v for v, _ in vs] + rig
    nreg = len(vs)
    for i in range(nreg):
        for j in range(i + 1, len(allv)):
            e = vsame(allv[i], allv[j])
            for g in guards:
                add(e if g is None else Implies(g, e))
    # real relations
    for i in range(nreg):
        for j in range(len(allv)):
            if i == j:
                continue
            a, b = allv[i], allv[j]
            if j > i:
                add(Implies(Not(a.nan), a.r + b.r == 0))
                for k in rig:
                    add(Implies(And(Not(b.nan), Not(k.nan)), a.r + b.r == k.r))
                g = And(Not(a.nan), Not(b.nan))
                add(Implies(g, a.r == b.r))
                add(Implies(Not(a.nan), a.r == b.r))
                add(Implies(Not(b.nan), a.r == b.r))
            for k in m.offsets:
                add(Implies(Not(b.nan), a.r + k.r == b.r))
            for k in rig:
                add(Implies(And(Not(b.nan), Not(k.nan)), a.r + k.r == b.r))
                add(Implies(Not(b.nan), a.r + If(k.nan, rv(0), k.r) == b.r))
    # positions
    xs = [pre for pre, _, _, tag in m.xregs if tag != "xlast"]
    for a in xs:
        for g in guards[:1 + 2 * len(bs)]:
            for t in (a == xl, a <= xl, a < xl):
                add(t if g is None else Implies(g, t))
        for p in pts:
            for t in (a < p, a <= p, a == p, a >= p):
                for g in guards[:1 + 2 * len(bs)]:
                    add(t if g is None else Implies(g, t))
        for b in xs:
            if a is not b:
                for t in (a <= b, a < b):
                    for g in guards[:1 + 2 * len(bs)]:
                        add(t if g is None else Implies(g, t))
    uniq, seen = [], set()
    for t in out:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            uniq.append(t)
    return uniq


def cone(m, terms):
    """registers the terms depend on"""
    nxt = {}
    for p, n in m.next_env():
        nxt[p.get_id()] = n
    seen_t, out, stack = set(), set(), list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen_t:
            continue
        seen_t.add(i)
        if i in nxt:
            out.add(i)
            stack.append(nxt[i])
        stack.extend(t.children())
    return out


def paired(m, extra_v, inv, todo, deadline=None):
    """equalities guarded by two facts, for guards that are not redundant under `inv`"""
    keep = cone(m, [o.term for o in todo] + m.FIN + m.U)
    vs = [pre for pre, _, _, _ in m.vregs if pre.r.get_id() in keep or pre.nan.get_id() in keep] + [v for v, _ in extra_v]
    rig = [v for v, _ in m.rigidv]
    bs = [b for b, _, _, _ in m.bregs if b.get_id() in keep]
    pg = []
    for p in m.rigidx:
        pg += [And(m.started, m.xlast >= p), And(m.started, m.xlast > p)]
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*m.P, *inv, *axioms(m.P + inv))

    def never(*f):
        s.push()
        s.add(*f)
        r = check(s)
        s.pop()
        return r == z3.unsat
    lits = []
    for g in [x for a in bs + pg for x in (a, Not(a))]:
        if never(g) or never(Not(g)):
            continue
        if any(never(g, Not(h)) and never(h, Not(g)) for h in lits):
            continue
        lits.append(g)
    guards = [(g,) for g in lits]
    for i, g in enumerate(lits):
        for h in lits[i + 1:]:
            if deadline and time.time() > deadline:
                return None
            if never(g, h) or never(g, Not(h)) or never(h, Not(g)):
                continue
            guards.append((g, h))
    out = []
    allv = vs + rig
    for i in range(len(vs)):
        for j in range(i + 1, len(allv)):
            e = vsame(allv[i], allv[j])
            if never(Not(e)):
                continue
            have = set()
            for g in guards:
                if len(g) == 2 and (g[0].get_id() in have or g[1].get_id() in have):
                    continue
                if never(*g, Not(e)):
                    if len(g) == 1:
                        have.add(g[0].get_id())
                    continue
                out.append(z3.simplify(Implies(And(*g), e)))
    flags = bs + [v.nan for v in vs if not (is_t(v.nan) or is_f(v.nan))]
    for i, a in enumerate(flags):
        for b in flags[i + 1:]:
            for e in (Iff(a, b), Or(a, b)) if i >= len(bs) else (Iff(a, b),):
                if never(Not(e)):
                    continue
                out += [z3.simplify(Implies(g, e)) for g in lits if not g.eq(a) and not g.eq(b) and not never(g, Not(e))]
    return [t for t in out if not z3.is_true(t) and not z3.is_false(t)]


def small(m):
    """a few likely invariants"""
    out = list(m.lemmas)
    for init, pre, _ in m.known:
        out += [vsame(pre, init), pre.nan, Not(pre.nan)]
    bs = [b for b, _, _, _ in m.bregs]
    out += bs + [Not(b) for b in bs]
    for i, a in enumerate(bs):
        for b in bs[i + 1:]:
            out += [Or(Not(a), b), Or(a, Not(b))]
    for pre, _, _, _ in m.vregs:
        out += [Not(pre.nan)] + ([Not(pre.pinf), Not(pre.ninf)] if not is_f(pre.pinf) else [])
    vs = [pre for pre, _, _, _ in m.vregs]
    for i, a in enumerate(vs):
        if not is_f(a.nan):
            for b in bs:
                out += [Or(Not(b), Not(a.nan)), Or(Not(b), a.nan), Or(b, a.nan), Or(b, Not(a.nan))]
        for c in vs[i + 1:]:
            out += [vsame(a, c), Or(a.nan, a.r == c.r), Or(c.nan, a.r == c.r), Or(Not(a.nan), c.nan), Or(a.nan, Not(c.nan))]
    out = [z3.simplify(t) for t in out]
    return [t for t in out if not z3.is_true(t) and not z3.is_false(t)]


def houdini(m, ts, cands, timeout=20000, deadline=None, given=()):
    """largest inductive subset of the candidates (`given`: already known invariants)"""
    base = list(m.P) + list(given)
    # initially true
    s = z3.Solver()
    s.set("timeout", timeout)
    base0, base = list(m.P), base + [ts.post(c) for c in given]
    inits = [ts.at_init(c) for c in cands]
    s.add(*base0, *axioms(base0 + inits))
    viol = [z3.Bool("vi!%d" % i) for i in range(len(cands))]
    for v, c in zip(viol, inits):
        s.add(z3.Implies(v, z3.Not(c)))
    alive = set(range(len(cands)))
    alive = _filter(s, alive, viol, inits, [])
    if alive is None:
        return None
    # preserved
    s = z3.Solver()
    s.set("timeout", timeout)
    posts = {i: ts.post(cands[i]) for i in alive}
    fs = base + m.U + ts.trans()
    s.add(*fs, *axioms(fs + [cands[i] for i in alive] + list(posts.values())))
    pre = [z3.Bool("pr!%d" % i) for i in range(len(cands))]
    for i in alive:
        s.add(z3.Implies(pre[i], cands[i]), z3.Implies(viol[i], z3.Not(posts[i])))
    alive = _filter(s, alive, viol, posts, pre, deadline)
    if alive is None:
        return None
    return [cands[i] for i in sorted(alive)]


def _false(md, t):
    r = (z3.Ast * 1)()
    ctx = md.ctx.ref()
    if not z3.Z3_model_eval(ctx, md.model, t.as_ast(), True, r):
        return False
    z3.Z3_inc_ref(ctx, r[0])
    try:
        return z3.Z3_get_bool_value(ctx, r[0]) == z3.Z3_L_FALSE
    finally:
        z3.Z3_dec_ref(ctx, r[0])


def _filter(s, alive, viol, terms, pre, deadline=None):
    alive = set(alive)
    while alive:
        if deadline and time.time() > deadline:
            return None
        s.push()
        s.add(Or(*[viol[i] for i in alive]))
        r = check(s, *[pre[i] for i in alive]) if pre else check(s)
        if r == z3.unsat:
            s.pop()
            return alive
        if r != z3.sat:
            # drop half-heartedly: try one by one
            s.pop()
            bad = set()
            for i in list(alive):
                s.push()
                s.add(viol[i])
                r1 = check(s, *[pre[j] for j in alive - bad]) if pre else check(s)
                s.pop()
                if r1 != z3.unsat:
                    bad.add(i)
                    if r1 == z3.unknown and deadline and time.time() > deadline:
                        return None
            if not bad:
                return alive
            alive -= bad
            continue
        md = s.model()
        s.pop()
        bad = {i for i in alive if _false(md, terms[i])}
        bad = bad or {i for i in alive if is_t(md.eval(viol[i], model_completion=False))}
        alive -= bad
    return alive


def track(m, final=False):
    """the final state has seen every fact known to hold somewhere"""
    from .shim import seen
    for e in m.E:
        if e.get_id() not in m.tracked:
            m.tracked[e.get_id()] = e
            if m.FIN or final:
                m.FIN.append(seen(e)[0])


def discharge(m, obls, extra_v=(), deadline=None, levels=(0, 0.5, 1, 2)):
    """sets .status of every obligation (proved | open | timeout); the ones not proved"""
    todo = []
    for o in obls:
        if is_t(z3.simplify(o.term)):
            o.status = "proved"
        else:
            todo.append(o)
    if not todo:
        return []
    inv, cut = [], False
    for level in levels:
        if level:
            track(m, any(o.kind == "final" and not is_f(o.term) for o in todo))
            ts = TS(m)
        if level == 0.5:
            inv = houdini(m, ts, small(m), deadline=deadline) or []
        elif level == 1:
            inv = houdini(m, ts, candidates(m, extra_v, todo), deadline=deadline)
        elif level == 2:
            more = paired(m, extra_v, inv, todo, deadline)
            more = more and houdini(m, ts, more, deadline=deadline, given=inv)
            inv = None if more is None else inv + more
        if inv is None:
            inv, cut = [], True
            break
        s = z3.Solver()
        s.set("timeout", 20000)
        ev = m.P + inv
        s.add(*ev)
        for o in list(todo):
            s.push()
            hyp = [] if o.kind == "rigid" else m.U if o.kind == "event" else m.FIN
            s.add(*hyp, z3.Not(o.term), *axioms(ev + hyp + [o.term]))
            r = check(s)
            s.pop()
            cut = cut or r == z3.unknown
            if r == z3.unsat:
                o.status = "proved"
                todo.remove(o)
        if not todo:
            break
        if deadline and time.time() > deadline:
            cut = True
            break
    if todo:
        # a path on which a fact known to hold somewhere can never hold is not a path
        for fs in [m.P + inv + m.U + [e] for e in m.E] + [m.P + inv + m.FIN]:
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*fs, *axioms(fs))
            if check(s) == z3.unsat:
                for o in todo:
                    o.status, o.detail = "proved", "path infeasible"
                return []
    for o in todo:
        o.status = "timeout" if cut else "open"
    return todo


# ---- bounded search for a counterexample ---------------------------------------------------------
def native(t):
    """uninterpreted products and quotients -> real arithmetic"""
    cache = {}

    def go(u):
        i = u.get_id()
        if i in cache:
            return cache[i][1]
        if not z3.is_app(u) or u.num_args() == 0:
            r = u
        else:
            ch = [go(c) for c in u.children()]
            n = u.decl().name()
            r = ch[0] * ch[1] if n == "mul" else ch[0] / ch[1] if n == "div" else u.decl()(*ch)
        cache[i] = (u, r)
        return r
    return go(t)


def bmc(m, o, max_events=4, timeout=8000):
    """an execution violating obligation o, as (model, instances) or None"""
    ts = TS(m)
    nat = {}

    def N(t):
        k = t.get_id()
        if k not in nat:
            nat[k] = (t, native(t))
        return nat[k][1]
    pairs = [(p, N(i), N(n)) for p, i, n in ts.pairs]
    U, P, FIN, E = [[N(B(t)) for t in l] for l in (m.U, m.P, m.FIN, m.E)]
    bad = z3.Not(N(o.term))
    if o.kind == "rigid":
        E = []
    for n in range(0 if o.kind != "event" else 1, max_events + 1):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*P)
        state = [(p, i) for p, i, _ in pairs]
        subs = []
        for k in range(n):
            sub = state + [(c, z3.Const("%s@%d" % (c, k), c.sort())) for c in m.inputs]
            subs.append(sub)
            for u in U:
                s.add(z3.substitute(u, *sub))
            new = []
            for p, _, nx in pairs:
                q = z3.Const("%s#%d" % (p, k + 1), p.sort())
                s.add(q == z3.substitute(nx, *sub))
                new.append((p, q))
            state = new
        for f in FIN:
            s.add(z3.substitute(f, *state))
        for e in E:
            s.add(z3.Or(*[z3.substitute(e, *sub) for sub in subs]) if subs else False)
        if o.kind == "event":
            s.add(z3.Or(*[z3.substitute(bad, *sub) for sub in subs]))
        elif o.kind == "final":
            s.add(z3.substitute(bad, *state))
        else:
            s.add(bad)
        if check(s) == z3.sat:
            return s.model(), subs, state
    return None


def val(md, v, sub=()):
    """python value of a V in a model"""
    ev = lambda t: md.eval(z3.substitute(native(t), *sub) if sub else native(t), model_completion=True)
    if z3.is_true(ev(v.nan)):
        return float("nan")
    if z3.is_true(ev(v.pinf)):
        return float("inf")
    if z3.is_true(ev(v.ninf)):
        return float("-inf")
    return rat(ev(v.r))


def rat(t):
    if z3.is_rational_value(t):
        return float(t.as_fraction())
    if z3.is_algebraic_value(t):
        return float(t.approx(20).as_fraction())
    return 0.0


def flag(md, t, sub=()):
    return z3.is_true(md.eval(z3.substitute(native(t), *sub) if sub else native(t), model_completion=True))


def inductive_core(m, ts, inv, obls):
    """small subset of `inv` that is inductive and implies the obligations"""
    base = m.P + m.U + ts.trans()
    posts = [ts.post(c) for c in inv]
    sels = [z3.Bool("sel!%d" % i) for i in range(len(inv))]
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*base, *axioms(base + inv + posts + [o.term for o in obls] + m.FIN))
    for a, c in zip(sels, inv):
        s.add(z3.Implies(a, c))

    def core(goal, extra=()):
        s.push()
        s.add(z3.Not(goal), *extra)
        r = check(s, *sels)
        out = None
        if r == z3.unsat:
            out = {int(str(a)[4:]) for a in s.unsat_core()}
            for i in sorted(out):       # minimise
                if check(s, *[sels[j] for j in out if j != i]) == z3.unsat:
                    out = {int(str(a)[4:]) for a in s.unsat_core()}
        s.pop()
        return out
    need, work = set(), []
    s2 = z3.Solver()
    s2.set("timeout", 20000)
    s2.add(*m.P, *axioms(m.P + inv + m.U + m.FIN + [o.term for o in obls]))
    for a, c in zip(sels, inv):
        s2.add(z3.Implies(a, c))
    for o in obls:
        s2.push()
        s2.add(z3.Not(o.term), *([] if o.kind == "rigid" else m.U if o.kind == "event" else m.FIN))
        if check(s2, *sels) == z3.unsat:
            out = {int(str(a)[4:]) for a in s2.unsat_core()}
            changed = True
            while changed:
                changed = False
                for i in sorted(out):
                    if check(s2, *[sels[j] for j in out if j != i]) == z3.unsat:
                        out = {int(str(a)[4:]) for a in s2.unsat_core()}
                        changed = True
                        break
            work += [i for i in out if i not in need]
            need |= out
        s2.pop()
    while work:
        i = work.pop()
        c = core(posts[i])
        for j in (c or ()):
            if j not in need:
                need.add(j)
                work.append(j)
    return [inv[i] for i in sorted(need)]
