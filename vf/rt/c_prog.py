"""Run-time contracts over programs: C12 (minimality / identical), C16 (compositionality), C17 (domains)."""
import datetime
import itertools

import numpy as np
import pandas as pd
import staircase as sc

from . import model, ops
from .dom import *
from .gen import *
from .ops import Skip
from .pf import PF, NAN, isnan, same


# ---- C16: program = pointwise model, for every provenance --------------------------------
def prog_check(case):
    dom = DOMS[case["dom"]]
    t = case["tree"]
    try:
        want = ops.tree_pf(t)
    except Skip:
        return None
    poke = {"values": lambda r: r.step_values, "deltas": lambda r: r.step_changes,
            "both": lambda r: (r.step_values, r.step_changes), None: None}[case.get("poke")]
    r = ops.tree_run(t, dom, poke)
    got = obs(r, dom, minimal=case.get("minimal", False))
    if not got.same(want):
        return "%s: got %r, want %r" % (t.get("op"), got, want)
    if case.get("deep"):
        obs_eval(r, dom, want)
    if "closed" in case and "op" in t and r.closed != case["closed"] and (want.xs):
        return "%s: closed side %s, want %s" % (t["op"], r.closed, case["closed"])


def variants(t, rng):
    """the same program with differently built leaves / scalar types"""
    if "op" not in t:
        if "scalar" in t:
            return {**t, "type": rng.choice(["int", "float", "np", "npint", "np32", "npuint"])}
        return {**t, "route": rng.choice(ROUTES + ["intvalues"]), "form": rng.choice(FORMS)}
    return {**t, "args": [variants(a, rng) for a in t["args"]]}


STYPES = ["int", "float", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]


def _flat(x):
    if isinstance(x, sc.Stairs):
        z = obs(x, DOMS["float"])
        return [float(z.init)] + [float(v) for p in zip(z.xs, z.vs) for v in p] + [x.closed]
    if isinstance(x, pd.Series) and x.dtype != object and all(isinstance(v, (int, float, np.number)) for v in x.index):
        return [float(v) for v in x.index] + [float(v) for v in x.values]
    return [float(v) for v in np.ravel(x)]


STYPE_OPS = {
    "shift": lambda f, g, n: f.shift(n(2)), "diff": lambda f, g, n: f.diff(n(2)), "clip": lambda f, g, n: f.clip(n(0), n(1)),
    "mask": lambda f, g, n: f.mask((n(0), n(1))), "where": lambda f, g, n: f.where((n(0), n(1))),
    "rolling": lambda f, g, n: f.rolling_mean((n(0), n(1))), "rolling_where": lambda f, g, n: f.rolling_mean((n(0), n(1)), (n(3), n(4))),
    "cov": lambda f, g, n: f.cov(g, (n(3), n(4)), lag=n(2)), "corr": lambda f, g, n: f.corr(g, (n(3), n(4)), lag=n(2)),
    "cov_post": lambda f, g, n: f.cov(g, (n(3), n(4)), lag=n(2), clip="post"),
    "agg": lambda f, g, n: f.agg(["mean", "max", "min"], (n(3), n(4))), "values": lambda f, g, n: sorted(map(float, f.values_in_range((n(0), n(1)), "both"))),
    "limit": lambda f, g, n: [f.limit(n(0), "left"), f.limit(n(0), "right"), f(n(1))], "describe": lambda f, g, n: f.describe((n(3), n(4))),
    "slice": lambda f, g, n: f.slice([n(3), n(1), n(4)]).mean() if n(3) < n(1) < n(4) else 0.0,
    "layer": lambda f, g, n: f.copy().layer(n(0), n(1), n(2)), "layer_value": lambda f, g, n: f.copy().layer(None, n(1), n(2)) - n(4),
    "init": lambda f, g, n: (sc.Stairs(initial_value=n(1), closed=f.closed) - f) * n(2) - n(4), "rsub": lambda f, g, n: n(1) - f * n(2),
    "div": lambda f, g, n: n(2) / f - f / n(1), "fill": lambda f, g, n: f.fillna(n(1)) - n(4), "rel": lambda f, g, n: (f > n(2)) + (n(2) <= f),
    "logic": lambda f, g, n: (f & n(0)) + (n(1) | f), "hist": lambda f, g, n: f.hist([n(0), n(1)]), "ecdf": lambda f, g, n: f.ecdf(n(2)),
    "percentile": lambda f, g, n: [f.percentile(min(n(1), 100)), f.fractile(min(n(0), 1))], "tables": lambda f, g, n: sc.sample([f, g], [n(0), n(1)])}


def stype_check(case):
    """scalars (labels, bounds, lags, windows, values) of any Python or numpy type give the same outcome"""
    f, g = build(case["f"], DOMS["float"]), build(case["g"], DOMS["float"])
    res = []
    for ty in ("float", case["type"]):
        conv = {"int": int, "float": float}.get(ty) or getattr(np, ty)
        try:
            res.append(_flat(STYPE_OPS[case["op"]](f, g, lambda i: conv(case["n"][i]))))
        except Exception as e:
            if ty == "float":
                return None                 # not defined for these numbers
            return "%s with %s scalars raised %s: %s, with floats %r" % (case["op"], ty, type(e).__name__, str(e)[:80], res[0])
    if not _close(res[0], res[1]) and not (len(res[0]) == len(res[1]) and all(x == y or (x != x and y != y) or abs(x - y) <= 1e-6 * max(1, abs(x)) for x, y in zip(*res) if not isinstance(x, str))):
        return "%s with %s scalars: %r, with floats %r" % (case["op"], ty, res[1], res[0])


def c16_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n):
        d, c = rand_cfg(rng)
        if i % 4 == 0:
            a = rng.randint(0, 14)
            lo = rng.randint(0, 6)
            yield {"kind": "stype", "op": rng.choice(list(STYPE_OPS)), "type": rng.choice(STYPES), "f": rand_operand(rng, c), "g": rand_operand(rng, c),
                   "n": [a, a + rng.randint(1, 8), rng.choice([0, 1, 2, 3, 5]), lo, lo + rng.randint(2, 100)]}
        t = ops.rand_tree(rng, c, rng.choice([1, 2, 2, 3, 3, 4]), pfs=pfs)
        if "op" not in t:
            continue
        for j in range(2):
            yield {"kind": "prog", "tree": t, "dom": d, "poke": rng.choice([None, None, "values", "deltas", "both"]),
                   "deep": rng.random() < .1}
            t = variants(t, rng)


# ---- C12 -----------------------------------------------------------------------------------
def ident_check(case):
    """minimal results; identical decides equality; truthiness"""
    dom = DOMS[case["dom"]]
    try:
        ms = [ops.tree_pf(t) for t in case["trees"]]
    except Skip:
        return None
    rs = [ops.tree_run(t, dom) for t in case["trees"]]
    for t, m, r in zip(case["trees"], ms, rs):
        if isinstance(r, ops.sc.Stairs):
            got = obs(r, dom, minimal=True)
            if not got.same(m):
                return "%s: got %r, want %r" % (t.get("op"), got, m)
            if r.number_of_steps != len(m.xs) or len(r.step_points) != len(m.xs):
                return "%s: number_of_steps %r, want %r" % (t.get("op"), r.number_of_steps, len(m.xs))
            if bool(r) != (m.init == 1 and not m.xs):
                return "bool(%r) is %r" % (m, bool(r))
            if not r.identical(r) or not r.identical(r.copy()):
                return "identical is not reflexive on %r" % m
            if not m.xs and not (r.identical(m.init)):
                return "constant %r is not identical to its scalar" % m
    a, b = rs
    eq = ms[0].same(ms[1], 0)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, ops.sc.Stairs):
            if bool(x.identical(y)) != eq:
                return "identical(%r, %r) is %r" % (ms[0], ms[1], x.identical(y))


def dist_check(case):
    """the distribution objects are step functions returned by public operations too"""
    dom = DOMS[case["dom"]]
    s = build(case["f"], dom)
    x = getattr(s, case["how"])
    try:
        got = obs(x, DOMS["float"], minimal=True)
    except Malformed as e:
        return "%s %s" % (case["how"], e)
    if x.number_of_steps != len(got.xs):
        return "%s number_of_steps" % case["how"]


def L(op, *args, **p):
    return {"op": op, "args": list(args), **({"p": p} if p else {})}


def S(v):
    return {"scalar": v, "type": "int"}


def identities(f, g, h, a, b):
    yield L("add", f, g), L("add", g, f)
    yield L("multiply", f, g), L("multiply", g, f)
    yield L("add", L("add", f, g), h), L("add", f, L("add", g, h))
    yield L("multiply", L("multiply", f, g), h), L("multiply", f, L("multiply", g, h))
    yield L("multiply", f, L("add", g, h)), L("add", L("multiply", f, g), L("multiply", f, h))
    yield L("invert", L("logical_and", f, g)), L("logical_or", L("invert", f), L("invert", g))
    yield L("invert", L("logical_or", f, g)), L("logical_and", L("invert", f), L("invert", g))
    yield L("subtract", f, f), L("multiply", f, S(0))
    yield L("invert", L("invert", f)), L("make_boolean", f)
    yield L("ne", f, S(0)), L("make_boolean", f)
    yield L("mask", f, g), L("where", f, L("invert", g))
    yield L("where", f, g), L("mask", f, L("invert", g))
    yield L("where_t", f, lo=a, hi=b), L("clip", f, lo=a, hi=b)
    yield L("negate", L("negate", f)), f
    yield L("subtract", f, g), L("add", f, L("negate", g))
    yield L("isna", f), L("subtract", S(1), L("notna", f))
    yield L("fillna", L("mask", f, g), f), f
    yield L("logical_xor", f, g), L("ne", L("make_boolean", f), L("make_boolean", g))
    yield L("le", f, g), L("invert", L("gt", f, g))
    yield L("subtract", f, S(3)), L("add", S(-3), f)
    yield L("rebuild", f), f
    yield L("agg_sum", f, g, h), L("add", L("add", f, g), h)
    yield L("shift", L("shift", f, d=3), d=-3), f


def c12_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n // 10):
        d, c = rand_cfg(rng)
        f = rand_operand(rng, c, maxn=5)
        if model.fin(op_pf(f)):
            yield {"kind": "dist", "how": "ecdf", "f": f, "dom": d}
    for i in range(n):
        d, c = rand_cfg(rng)
        ops1 = mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c)

        def leaf():
            return mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c) if rng.random() < .5 else rand_operand(rng, c, maxn=4)
        k = i % 3
        if k == 0:
            a, b = rand_bounds_(rng)
            ids = list(identities(leaf(), leaf(), leaf(), a, b))
            for t in rng.sample(ids, 6):
                yield {"kind": "ident", "trees": list(t), "dom": d}
        elif k == 1 and i % 2:   # functions which differ in one spot only, perhaps by very little
            f = op_pf(leaf())
            vs = [f.init] + f.vs
            j = rng.randrange(len(vs))
            d = rng.choice([E40, -E40, E20, 2.0 ** -30, 1.0])
            vs[j] = rng.choice([NAN, 0.0]) if isnan(vs[j]) else rng.choice([vs[j] + d, vs[j] + d, NAN, vs[j]])
            g = PF(vs[0], zip(f.xs, vs[1:]))
            if f.xs and rng.random() < .3:     # the same values at step points which differ by a little
                xs = list(f.xs)
                xs[rng.randrange(len(xs))] += rng.choice([-1, 1])
                g = PF(f.init, zip(xs, f.vs))
            if rng.random() < .2:
                g = PF(g.init, list(zip(g.xs, g.vs))[:-1])
            yield {"kind": "ident", "dom": rng.choice(DOM_NAMES),
                   "trees": [mk(h, rng.choice(ROUTES), rng.choice(FORMS), c) for h in (f, g)]}
        elif k == 1:   # one operation on small functions: many coincidences
            for _ in range(3):
                t = ops.rand_node(rng, leaf)
                u = leaf() if rng.random() < .5 else {"scalar": jv(rng.choice([NAN, 0., 1., 2.])), "type": "float"}
                yield {"kind": "ident", "trees": [t, u], "dom": d}
        else:
            t = ops.rand_tree(rng, c, rng.choice([2, 3]), pfs=pfs)
            u = variants(t, rng) if rng.random() < .6 else ops.rand_tree(rng, c, 1, pfs=pfs)
            yield {"kind": "ident", "trees": [t, u], "dom": d}


def rand_bounds_(rng):
    return ops.rand_bounds(rng)


# ---- C17 -----------------------------------------------------------------------------------
def _stats(r, m, dom):
    """statistics of a result expressed in abstract units"""
    out = {}
    if not m.xs:
        return out
    out["tz"] = None
    if model.fin(m):
        i = r.integral()
        out["integral"] = dom.len_to(i)
        out["mean"] = float(r.mean())
        out["var"] = float(r.var())
        vs = r.value_sums()
        out["value_sums"] = [(float(k), dom.len_to(v)) for k, v in zip(vs.index, vs.values)]
        out["p"] = [float(r.percentile(p)) for p in (0, 100)]
        out["hist"] = [dom.len_to(x) for x in r.hist().values]
    a, b = m.xs[0], m.xs[-1] + 1
    for c in ("left", "right", "both", "neither"):
        out["vir" + c] = [float(x) for x in r.values_in_range((dom.label(a), dom.label(b)), c)]
    q = query_points(m)
    q = [k for k in q if float(k).is_integer()]
    if q:
        out["at"] = [[float(r.limit(dom.label(k), "left")), float(r.limit(dom.label(k), "right")), float(r(dom.label(k)))] for k in q[:8]]
        out["vec"] = [float(x) for x in r.limit(dom.index(q), "left")] + [float(x) for x in r.sample([dom.label(k) for k in q])]
    return out


def _close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return same(a, b, 1e-7)


def dom_check(case):
    t = case["tree"]
    try:
        want = ops.tree_pf(t, exact_only=True)
    except Skip:
        return None
    base = None
    for dn in case["doms"]:
        dom = DOMS[dn]
        tt = case["variants"][dn] if "variants" in case else t
        r = ops.tree_run(tt, dom)
        got = obs(r, dom)
        if not got.same(want):
            return "%s in domain %s: got %r, want %r" % (t.get("op"), dn, got, want)
        if got.xs and dn in ("tz", "dst", "tzpy"):
            tz = r.step_changes.index.tz
            if tz is None or str(tz) != str(DOMS[dn.replace("py", "")].label(0).tz):
                return "timezone lost in %s: %r" % (dn, tz)
        if got.xs and dn[:2] == "td" and not all(isinstance(x, pd.Timedelta) for x in r.step_changes.index):
            return "not a Timedelta index"
        st = _stats(r, want, dom)
        if base is None:
            base = st
        for k in base:
            if not _close(base[k], st.get(k)):
                return "%s differs between %s and %s: %r vs %r" % (k, case["doms"][0], dn, base[k], st.get(k))
        if want.xs and st.get("at"):
            q = [k for k in query_points(want) if float(k).is_integer()][:8]
            for k, (l, rt, v) in zip(q, st["at"]):
                if not (same(l, want.before(k)) and same(rt, want.at(k)) and same(v, want.val(k, r.closed))):
                    return "evaluation at %r in domain %s: got %r, want %r" % (k, dn, (l, rt, v), (want.before(k), want.at(k), want.val(k, r.closed)))

def extra_dom_check(case):
    """statistics with windows, rolling mean, slicing, cov: same numbers in every domain"""
    f, g = case["f"], case["g"]
    base = None
    for dn in case["doms"]:
        dom = DOMS[dn]
        x, y = build(f, dom), build(g, dom)
        lo, hi = dom.label(case["lo"]), dom.label(case["hi"])
        out = {}
        pf, pg = op_pf(f), op_pf(g)
        slo, shi = (str(pd.Timestamp(v)) if isinstance(v, (pd.Timestamp, datetime.datetime)) else v for v in (lo, hi))     # dates may be given as strings
        for nm in ("clip", "where", "mask"):
            z = obs(x.clip(slo, shi) if nm == "clip" else getattr(x, nm)((slo, shi)), dom)
            out[nm] = [float(z.init)] + [float(v) for p in zip(z.xs, z.vs) for v in p]
        if model.fin(pf.clip(case["lo"], case["hi"])):
            out["mean"] = float(x.agg("mean", (lo, hi)))
            d = x.describe((lo, hi))
            out["desc"] = [float(v) for v in d.values]
            out["integral"] = dom.len_to(x.agg("integral", (lo, hi)))
        if model.cov(pf, pg, case["lo"], case["hi"]) is not None:
            out["cov"] = float(x.cov(y, (lo, hi)))
        if pf.xs:
            rm = x.rolling_mean((dom.length(-1), dom.length(2)), (lo, hi))
            out["rm"] = [(float(dom.unlabel(k)), float(v)) for k, v in zip(rm.index, rm.values)]
            cuts = dom.index([case["lo"], (case["lo"] + case["hi"]) // 2, case["hi"]]) if case["hi"] - case["lo"] >= 2 else dom.index([case["lo"], case["hi"]])
            sl = x.slice(cuts)
            out["slmax"] = [float(v) for v in sl.max().values]
            out["slmean"] = [float(v) for v in sl.mean().values]
        if base is None:
            base = out
        for k in base:
            if not _close(base[k], out.get(k)):
                return "%s differs between %s and %s: %r vs %r" % (k, case["doms"][0], dn, base[k], out.get(k))


NARROW = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"]


def narrow_check(case):
    """integer labels of any width are interchangeable with floats"""
    base = None
    for ty in ("float64", case["type"]):
        def ix(xs):
            return np.array(xs, dtype=ty)
        if case["how"] == "layer":
            s = sc.Stairs(initial_value=case["init"], closed=case["closed"]).layer(ix([t[0] for t in case["t"]]), ix([t[1] for t in case["t"]]), [t[2] for t in case["t"]])
        else:
            xs = sorted({x for t in case["t"] for x in t[:2]})
            s = sc.Stairs.from_values(case["init"], pd.Series([float(i % 3 + 1) for i in range(len(xs))], index=pd.Index(ix(xs))), closed=case["closed"])
        d, lo, hi = case["d"], case["lo"], case["hi"]
        fns = {"f": lambda: s, "shift": lambda: s.shift(d), "back": lambda: s.shift(-d), "diff": lambda: s.diff(d), "prod": lambda: s * s.shift(-d),
               "clip": lambda: s.clip(lo - d, hi)}
        out = {}
        for k, fn in fns.items():
            z = obs(fn(), DOMS["float"])
            out[k] = [float(z.init)] + [float(v) for p in zip(z.xs, z.vs) for v in p]
        if s.number_of_steps > 1:
            out["mean"], out["integral"], out["median"], out["max"] = float(s.mean()), float(s.integral()), float(s.median()), float(s.max())
            vs = s.value_sums()
            out["vs"] = [float(x) for p in zip(vs.index, vs.values) for x in p]
            rm = s.rolling_mean((-d, d))
            out["rm"] = [float(x) for p in zip(rm.index, rm.values) for x in p]
            st = s.step_points
            if d < st[-1] - st[0]:
                out["cov"] = float(s.cov(s, (float(st[0]), float(st[-1])), lag=d))
            sl = s.slice([int(st[0]) - d, int(st[0]) + 1, int(st[-1]), int(st[-1]) + d]).mean()
            out["slice"] = [float(v) for v in sl.values]
        out["limit"] = [float(v) for v in s.limit([-d, lo, hi, 3 * d], "left")]
        if base is None:
            base = out
        for k in base:
            if not _close(base[k], out.get(k)):
                return "%s differs between float and %s labels: %r vs %r" % (k, ty, base[k], out.get(k))


def c17_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n):
        c = rng.choice(["left", "right"])
        doms = ["float"] + rng.sample([d for d in DOM_NAMES if d != "float"], 2)
        if rng.random() < .5:
            doms[2] = rng.choice(FLAVOURS)
        if i % 9 == 0:
            t = []
            for _ in range(rng.randint(1, 4)):
                t.append([*sorted(rng.sample(range(1, 127), 2)), rng.choice([1, 2, -1, 3])])
            lo = rng.randint(0, 60)
            yield {"kind": "narrow", "t": t, "type": rng.choice(NARROW), "how": rng.choice(["layer", "layer", "from_values"]), "init": rng.choice([0, 1, -2]),
                   "closed": c, "d": rng.choice([3, 20, 100, 130]), "lo": lo, "hi": lo + rng.randint(1, 60)}
        if i % 3 != 2:
            t = ops.rand_tree(rng, c, rng.choice([1, 1, 2, 2, 3]), pfs=pfs)
            yield {"kind": "dom", "tree": t, "doms": doms}
        else:
            a = rng.randint(-1, 14)
            yield {"kind": "xdom", "f": rand_operand(rng, c), "g": rand_operand(rng, c), "lo": a,
                   "hi": a + rng.randint(1, 8), "doms": doms}


CHECKS = {"prog": prog_check, "stype": stype_check, "ident": ident_check, "dom": dom_check, "xdom": extra_dom_check, "narrow": narrow_check, "dist": dist_check}


def cases(prop, rng, scale):
    n = int(2000 * scale)
    yield from {"C12": c12_cases, "C16": c16_cases, "C17": c17_cases}[prop](rng, n)
