"""Run-time contracts: C02 (layering), C03 (evaluation / views)."""
import datetime
import itertools

from . import model, ops
from .dom import *
from .gen import *
from .pf import PF, NAN, isnan, same


# ---- C02 --------------------------------------------------------------------------------
def _missing(kind, dt):
    return {"none": None, "nan": float("nan"), "nat": pd.NaT if dt else float("nan")}[kind]


def _layer_one(s, e, dom):
    """e = {"t": [[a, b, v]...], "box": .., "miss": ..}; performs the real layer call"""
    t, box, miss = e["t"], e["box"], e.get("miss", "none")
    dt = dom.datetimelike
    m = _missing(miss, dt)
    if box == "scalar":
        a, b, v = t[0]
        kw = {}
        if a is not None:
            kw["start"] = dom.label(a)
        elif miss != "none":
            kw["start"] = m
        elif e.get("sent"):
            kw["start"] = -inf
        if b is not None:
            kw["end"] = dom.label(b)
        elif miss != "none":
            kw["end"] = m
        elif e.get("sent"):
            kw["end"] = inf
        if v is not None:
            kw["value"] = v
        return s.layer(**kw)
    starts = [m if a is None else dom.label(a) for a, _, _ in t]
    ends = [m if b is None else dom.label(b) for _, b, _ in t]
    vals = [v for _, _, v in t]
    if e.get("short") == "end":      # drop trailing missing ends
        while ends and t[len(ends) - 1][1] is None:
            ends.pop()
    if e.get("short") == "start":
        while starts and t[len(starts) - 1][0] is None:
            starts.pop()
    if e.get("short") == "both":
        while starts and t[len(starts) - 1][0] is None:
            starts.pop()
        while ends and t[len(ends) - 1][1] is None:
            ends.pop()
    if all(v is None for v in vals):
        vals = None
    else:
        vals = [1 if v is None else v for v in vals]
        if len(set(vals)) == 1 and e.get("sv"):
            vals = vals[0]
    idx = [7 - 2 * i for i in range(len(t))]

    def wrap(xs):   # wrap.calls: starts, ends, values are wrapped in this order
        if xs is None or not isinstance(xs, list):
            return xs
        if box == "list":
            return xs
        if box == "tuple":
            return tuple(xs)
        if box == "series":
            n = len(xs)
            j = wrap.calls = wrap.calls + 1
            ix = {"desc": idx[:n], "range": pd.RangeIndex(n), "range5": pd.RangeIndex(5, 5 + n), "rrange": pd.RangeIndex(n - 1, -1, -1),
                  "str": list("dbac")[:n], "dup": [3] * n, "shuf": [2, 0, 3, 1][:n],
                  "diff": [idx[:n], pd.RangeIndex(n), [1, 0, 0, 1][:n]][j % 3], "diffrange": pd.RangeIndex(j, j + n),
                  "listy": None}[e.get("index", "desc")]
            if e.get("index") == "listy" and j == 2:
                return xs
            return pd.Series(xs, index=ix) if n else pd.Series(xs, dtype="float64")
        if box == "array":
            # numpy has no tz-aware dtype: object there, native dtype elsewhere
            return pd.Series(xs).values if len(xs) and not all(isinstance(x, (int, float)) for x in xs) and dom.name not in ("tz", "dst", "tzpy") else (
                np.array(xs) if all(isinstance(x, (int, float)) for x in xs) else np.array(xs, dtype=object))
        return xs
    wrap.calls = 0
    if box == "frame":
        df = pd.DataFrame({"s": pd.Series(starts + [None] * (len(t) - len(starts))),
                           "e": pd.Series(ends + [None] * (len(t) - len(ends)))})
        df["v"] = [1 if v is None else v for _, _, v in t]
        df.index = {"range5": pd.RangeIndex(5, 5 + len(t)), "dup": [3] * len(t), "shuf": [2, 0, 3, 1][:len(t)]}.get(e.get("index"), idx)
        return s.layer("s", "e", "v", df) if vals is not None else s.layer("s", "e", None, df)
    return s.layer(wrap(starts) if starts else None, wrap(ends) if ends else None, wrap(vals))


def layer_check(case):
    dom = DOMS[case["dom"]]
    base = case["base"]
    want = op_pf(base)
    s = build(base, dom)
    if obs(s, dom) != want:
        return None
    if case.get("ctor") and "steps" in base and not base["steps"]:
        s = sc.Stairs(initial_value=want.init, closed=base["closed"])
    for e in case["hist"]:
        trips = [(a, b, 1 if v is None else v) for a, b, v in e["t"]]
        r = _layer_one(s, e, dom)
        if r is not s:
            return "layer does not return the receiver"
        want = ops.layer_model(want, trips)
        got = obs(s, dom)
        if not got.same(want):
            return "layer(%s): got %r, want %r" % (e["box"], got, want)
        if case.get("peek"):
            s.step_values
            s.step_changes
    if case.get("deep"):
        obs_eval(s, dom, want)


TYPED = {"float32": [16777216, 1, 3, -2, .5], "float16": [2048, 1, 3, -2, .5], "int8": [100, 127, 1, -128, -3], "uint8": [255, 1, 200, 3],
         "int16": [32767, 1, -32768, 3], "uint64": [5, 1, 300], "int32": [2 ** 31 - 1, 1, -5]}
LTYPES = ["float64", "int64", "int32", "int16", "int8", "float32"]


def typed_check(case):
    """vectors of narrow numpy types"""
    t = case["t"]
    want = ops.layer_model(PF(0), t)
    box = {"array": lambda x: x, "series": pd.Series}[case["box"]]
    a = box(np.array([x[0] for x in t], dtype=case["lt"]))
    b = box(np.array([x[1] for x in t], dtype=case["lt"]))
    v = box(np.array([x[2] for x in t], dtype=case["vt"]))
    s = sc.Stairs(closed=case["closed"])
    if case["split"]:
        k = len(t) // 2
        s.layer(a[:k], b[:k], v[:k]).layer(a[k:], b[k:], v[k:])
    else:
        s.layer(a, b, v)
    got = obs(s, DOMS["float"])
    if not got.same(want):
        return "layer of %s at %s labels: got %r, want %r" % (case["vt"], case["lt"], got, want)


def order_check(case):
    """order of layering and way of passing make no difference; constructor shorthand included"""
    dom = DOMS[case["dom"]]
    t = case["t"]
    want = ops.layer_model(PF(0), [(a, b, 1 if v is None else v) for a, b, v in t])
    res = []
    for perm in case["perms"]:
        s = sc.Stairs(closed=case["closed"])
        for i in perm:
            a, b, v = t[i]
            s.layer(ops.lab(dom, a), ops.lab(dom, b), v)
        res.append(s)
    res.append(sc.Stairs(start=[ops.lab(dom, a) for a, _, _ in t], end=[ops.lab(dom, b) for _, b, _ in t],
                         value=[1 if v is None else v for _, _, v in t], closed=case["closed"]))
    df = pd.DataFrame({"s": pd.Series([ops.lab(dom, a) for a, _, _ in t]), "e": pd.Series([ops.lab(dom, b) for _, b, _ in t]),
                       "v": [1 if v is None else v for _, _, v in t]})
    res.append(sc.Stairs(df, "s", "e", "v", closed=case["closed"]))
    for s in res:
        got = obs(s, dom)
        if not got.same(want):
            return "layer order/constructor: got %r, want %r" % (got, want)


LONG = [1 + 2.0 ** -30, -2.0 ** -30, 2049, -1 - 2.0 ** -29]      # not in single or half precision; sums are exact


def c02_cases(rng, n):
    pfs = all_pfs((0, 2))
    pts = [None] + list(range(-2, 8))
    for i in range(n):
        d, c = rand_cfg(rng)
        base = mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c) if rng.random() < .4 else (
            rand_operand(rng, c, maxn=4) if rng.random() < .6 else mk(PF(0), "values", "raw", c))
        hist = []
        for _ in range(rng.randint(1, 3)):
            box = rng.choice(["scalar", "list", "tuple", "series", "array", "frame"])
            k = 1 if box == "scalar" else rng.randint(1, 4)
            t = []
            novals = rng.random() < .2
            for _ in range(k):
                a, b = rng.choice(pts), rng.choice(pts)
                t.append([a, b, None if novals else rng.choice([1, 2, -1, -2, .5, 3] if rng.random() < .9 else LONG)])
            hist.append({"t": t, "box": box, "miss": rng.choice(["none", "none", "nan", "nat"]),
                         "index": rng.choice(["desc", "range", "range5", "rrange", "str", "dup", "shuf", "diff", "diffrange", "listy"]),
                         "sent": rng.random() < .3, "sv": rng.random() < .3,
                         "short": rng.choice([None, None, "start", "end", "both"])})
            if t[-1][0] is None and t[-1][1] is None and len({1 if x[2] is None else x[2] for x in t}) == 1:
                hist.pop()   # nothing but missing triples carries no length information
        if hist and any(all(a is None and b is None for a, b, _ in e["t"]) for e in hist) and d != "float":
            d = rng.choice(DOM_NAMES)
        if hist:
            yield {"kind": "layer", "base": base, "hist": hist, "dom": d, "peek": rng.random() < .3,
                   "deep": rng.random() < .1, "ctor": rng.random() < .5}
        if i % 8 == 0:
            vt = rng.choice(list(TYPED))
            yield {"kind": "typed", "t": [[*rng.sample(range(-10, 120, 2), 2), rng.choice(TYPED[vt])] for _ in range(rng.randint(1, 5))], "vt": vt,
                   "lt": rng.choice(LTYPES), "box": rng.choice(["array", "series"]), "split": rng.random() < .3, "closed": c}
        if i % 3 == 0:
            m = rng.randint(2, 4)
            t = [[rng.choice(pts), rng.choice(pts), rng.choice([1, 2, -1, None, .5] if rng.random() < .9 else LONG)] for _ in range(m)]
            if any(a is not None or b is not None for a, b, _ in t):
                perms = [rng.sample(range(m), m) for _ in range(2)]
                yield {"kind": "order", "t": t, "perms": perms, "dom": d, "closed": c}


# ---- C03 --------------------------------------------------------------------------------
def _vecs(dom, ks):
    ls = [dom.label(k) for k in ks]
    yield "list", ls
    yield "tuple", tuple(ls)
    yield "index", pd.Index(ls)
    yield "series", pd.Series(ls, index=range(5, 5 + len(ls)))
    if dom.name not in ("tz", "dst", "tzpy"):
        yield "array", pd.Series(ls).values


def eval_check(case):
    dom = DOMS[case["dom"]]
    o = case["f"]
    f = op_pf(o) if "op" not in o else ops.tree_pf(o, exact_only=False)
    s = build(o, dom) if "op" not in o else ops.tree_run(o, dom)
    closed = s.closed
    fwd = not dom.datetimelike
    ks = [k for k in query_points(f) if fwd or float(k).is_integer()]
    side = {"left": "right", "right": "left"}[closed]
    R, Lf = [f.at(k) for k in ks], [f.before(k) for k in ks]
    V = R if closed == "left" else Lf

    def bad(what, got, want):
        got = [float(x) for x in got]
        if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
            return "%s: got %r, want %r at %r of %r (%s closed)" % (what, got, want, ks, f, closed)
    order = case.get("order", ["eval", "views"])
    for part in order:
        if part == "eval":
            for k, r, l, v in zip(ks, R, Lf, V):
                x = dom.label(k)
                for what, got, w in (("limit right", s.limit(x, "right"), r), ("limit left", s.limit(x, side="left"), l),
                                     ("sample", s.sample(x), v), ("call", s(x), v)):
                    if np.ndim(got) != 0 or not same(float(got), w):
                        return "%s(%r) = %r, want %r in %r (%s closed)" % (what, k, got, w, f, closed)
                for what, got, w in (("limit", s.limit(x, "right", include_index=True), r),
                                     ("limitl", s.limit(x, "left", include_index=True), l),
                                     ("sample", s.sample(x, include_index=True), v)):
                    if not isinstance(got, pd.Series) or len(got) != 1 or not same(float(got.iloc[0]), w) or not got.index[0] == x:
                        return "%s(%r, include_index) = %r, want %r in %r" % (what, k, got, w, f)
            for name, xs in _vecs(dom, ks):
                for what, got, w in (("limit right " + name, s.limit(xs, "right"), R), ("limit left " + name, s.limit(xs, "left"), Lf),
                                     ("sample " + name, s.sample(xs), V), ("call " + name, s(xs), V)):
                    e = bad(what, list(got), w)
                    if e:
                        return e
                for what, got, w in (("limit ii " + name, s.limit(xs, "right", include_index=True), R),
                                     ("limitl ii " + name, s.limit(xs, "left", include_index=True), Lf),
                                     ("sample ii " + name, s.sample(xs, include_index=True), V)):
                    if not isinstance(got, pd.Series) or [dom.unlabel(x) for x in got.index] != ks:
                        return "%s: index %r" % (what, got)
                    e = bad(what, list(got.values), w)
                    if e:
                        return e
            if len(s.limit([], "right")) or len(s.sample([])):
                return "empty vector"
        else:
            got = obs(s, dom)
            if not got.same(f):
                return "to_frame: %r, want %r" % (got, f)
            init, rows = obs_rows(s, dom)
            sp = [dom.unlabel(x) for x in (s.step_changes.index if len(rows) else [])]
            if sp != [k for k, _ in rows] or len(s.step_points) != len(rows) or s.number_of_steps != len(rows):
                return "step_points %r / number_of_steps %r vs table %r" % (sp, s.number_of_steps, rows)
            if len(rows) and [dom.unlabel(x) for x in pd.DatetimeIndex(s.step_points).tz_localize("UTC").tz_convert(dom.label(0).tzinfo)] != sp \
                    if dom.name in ("tz", "dst", "tzpy") else [dom.unlabel(x) for x in s.step_points] != sp:
                return "step_points %r" % (s.step_points,)
            sv = s.step_values
            if len(rows) and [dom.unlabel(x) for x in sv.index] != sp:
                return "step_values index"
            if not all(same(float(a), f.at(k)) for k, a in zip(sp, sv.values)) or len(sv) != len(rows):
                return "step_values %r of %r" % (list(sv.values), f)
            if not same(float(s.initial_value), f.init):
                return "initial_value %r of %r" % (s.initial_value, f)
            if f.defined_everywhere():
                chg = s.step_changes
                run, tot = [], f.init
                for x in chg.values:
                    tot += float(x)
                    run.append(tot)
                if len(chg) != len(rows) or not all(same(a, f.at(k)) for k, a in zip(sp, run)):
                    return "step_changes %r of %r" % (list(chg.values), f)


def c03_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n):
        d, c = rand_cfg(rng)
        if i % 3 == 0:
            o = mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c)
        elif i % 3 == 1:
            o = rand_operand(rng, c)
        else:
            o = ops.rand_tree(rng, c, 1, pfs=pfs)
            if "op" in o:
                try:
                    ops.tree_pf(o)
                except ops.Skip:
                    continue
                except Exception:
                    continue
        yield {"kind": "eval", "f": o, "dom": d, "order": rng.choice([["eval", "views"], ["views", "eval"]])}


CHECKS = {"typed": typed_check, "layer": layer_check, "order": order_check, "eval": eval_check}


def cases(prop, rng, scale):
    n = int(2000 * scale)
    yield from {"C02": c02_cases, "C03": c03_cases}[prop](rng, n)
