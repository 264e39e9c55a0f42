"""Run-time contracts: C08 C09 C10 (statistics), C11 (slicing), C18 (collections), C19 (cov/corr), C20 (shift/rolling)."""
import math

from . import model, ops
from .dom import *
from .gen import *
from .pf import PF, NAN, isnan, same

TOL = 1e-7


def eq(a, b, tol=TOL):
    return same(float(a), float(b), tol)


def mad(what, got, want, f):
    return "%s: got %r, want %r for %r" % (what, got, want, f)


def is_td(dom, x):
    return isinstance(x, (pd.Timedelta, np.timedelta64)) if dom.datetimelike else not isinstance(x, (pd.Timedelta, np.timedelta64))


def length_ok(dom, x, want, tol=1e-6):
    if not is_td(dom, x):
        return False
    return same(dom.len_to(x), want, tol)


def built(o, dom):
    return (op_pf(o), build(o, dom)) if "op" not in o else (ops.tree_pf(o), ops.tree_run(o, dom))


# ---- C08 --------------------------------------------------------------------------------
def c08_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    if not model.fin(f):
        return None
    for q in case["order"]:
        if q == "value_sums":
            vs = s.value_sums()
            want = model.value_sums(f)
            if [float(x) for x in vs.index] != list(want) and not (len(vs) == len(want) and all(eq(a, b) for a, b in zip(vs.index, want))):
                return mad("value_sums keys", list(vs.index), list(want), f)
            if not all(length_ok(dom, x if not dom.datetimelike else pd.Timedelta(x), w) for x, w in zip(vs.values, want.values())):
                return mad("value_sums", list(vs.values), want, f)
        elif q == "integral":
            x = s.integral() if not case.get("agg") else s.agg("integral")
            if not length_ok(dom, x, model.integral(f)):
                return mad("integral", x, model.integral(f), f)
        elif q == "mean":
            x = s.mean() if not case.get("agg") else s.agg("mean")
            if not eq(x, model.mean(f)):
                return mad("mean", x, model.mean(f), f)
        elif q == "var":
            x = s.var() if not case.get("agg") else s.agg("var")
            if not eq(x, model.var(f), 1e-6):
                return mad("var", x, model.var(f), f)
        elif q == "std":
            x = s.std() if not case.get("agg") else s.agg("std")
            if not abs(float(x) - model.std(f)) < 1e-5:
                return mad("std", x, model.std(f), f)
        elif q == "window":
            lo, hi = case["win"]
            g = f.clip(lo, hi)
            if not model.fin(g):
                continue
            r = s.agg(["mean", "integral", "var"], (ops.lab(dom, lo), ops.lab(dom, hi)))
            if not (eq(r["mean"], model.mean(g)) and length_ok(dom, r["integral"], model.integral(g)) and eq(r["var"], model.var(g), 1e-6)):
                return mad("agg over window %r" % ((lo, hi),), list(r), (model.mean(g), model.integral(g), model.var(g)), f)


def big_check(case):
    """the integral over a datetime-like domain leaves the range of Timedelta: an error, never a wrong number; the mean survives"""
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    if not model.fin(f):
        return None
    lim = 2.0 ** 63 / pd.Timedelta(dom.unit).value
    total, part = abs(model.integral(f)), max(abs(v) * x for v, x in model.value_sums(f).items())
    for q in case["order"]:
        if q == "mean":
            x = s.mean()
            if not same(float(x), model.mean(f), 1e-6):
                return mad("mean", x, model.mean(f), f)
        else:
            try:
                x = s.integral()
            except OverflowError:
                if part < lim * .1 and total < lim * .1:
                    return mad("integral overflows", None, model.integral(f), f)
                continue
            if not same(dom.len_to(x), model.integral(f), 1e-6):
                return mad("integral", x, model.integral(f), f)


def leafish(rng, c, pfs, p=.25):
    if rng.random() < p:
        for _ in range(20):
            t = ops.rand_tree(rng, c, 1, pfs=pfs)
            try:
                ops.tree_pf(t)
                return t
            except Exception:
                pass
    return mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c) if rng.random() < .3 else rand_operand(rng, c, minn=1)


def c08_cases(rng, n):
    pfs = [p for p in all_pfs((0, 2, 6)) if model.fin(p)]
    qs = ["value_sums", "integral", "mean", "var", "std", "window"]
    for i in range(n // 20):
        c = rng.choice(["left", "right"])
        f = rand_pf(rng, maxn=4, minn=2, vals=[NAN, 0.0, 2.0 ** 20, -2.0 ** 24, 2.0 ** 25, 3 * 2.0 ** 26, 2.0 ** 30, 1.0])
        yield {"kind": "c08big", "f": mk(f, rng.choice(ROUTES), rng.choice(FORMS), c), "order": rng.choices(["mean", "integral"], k=3),
               "dom": rng.choice([d for d in DOM_NAMES if DOMS[d].datetimelike])}
    for i in range(n):
        d, c = rand_cfg(rng)
        yield {"kind": "c08", "f": leafish(rng, c, pfs), "dom": d, "order": rng.sample(qs, len(qs)),
               "win": list(ops.rand_bounds(rng)), "agg": rng.random() < .3}


# ---- C09 --------------------------------------------------------------------------------
PS = [0, 6.25, 12.5, 20, 25, 37.5, 50, 62.5, 75, 80, 87.5, 90, 100]


def c09_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    if not model.fin(f):
        return None
    for q in case["order"]:
        if q == "ecdf":
            ys = sorted(set(list(model.value_sums(f)) + [v + .25 for v in model.value_sums(f)] + [-10., 10.]))
            for y in ys:
                got = (float(s.ecdf(y)), float(s.ecdf.limit(y, "left")))
                want = (model.ecdf(f, y), model.ecdf(f, y, True))
                if not (eq(got[0], want[0]) and eq(got[1], want[1])):
                    return mad("ecdf(%r)" % y, got, want, f)
            if not all(eq(a, model.ecdf(f, y)) for a, y in zip(s.ecdf(ys), ys)):
                return mad("ecdf(vector)", s.ecdf(ys), None, f)
        elif q in ("percentile", "fractile"):
            ps, ws = [], []
            for p in PS:
                w = model.fractile(f, model.Fraction(p) / 100)
                if w is None:
                    continue
                got = s.percentile(p) if q == "percentile" else s.fractile(p / 100)
                if not eq(got, w):
                    return mad("%s(%r)" % (q, p), got, w, f)
                ps.append(p)
                ws.append(w)
            got = s.percentile(ps) if q == "percentile" else s.fractile([p / 100 for p in ps])
            if not all(eq(a, b) for a, b in zip(got, ws)):
                return mad(q + "(vector)", got, ws, f)
        elif q == "median":
            w = model.fractile(f, .5)
            if w is not None and not (eq(s.median(), w) and eq(s.agg("median"), w)):
                return mad("median", s.median(), w, f)
        elif q == "mode":
            m = s.mode()
            if not any(eq(m, w) for w in model.modes(f)):
                return mad("mode", m, model.modes(f), f)
        elif q == "quantiles":
            for n in (1, 2, 4, np.int64(8)):
                got = list(s.quantiles(n))
                ws = [model.fractile(f, model.Fraction(i, int(n))) for i in range(1, int(n))]
                if len(got) != len(ws) or not all(w is None or eq(a, w) for a, w in zip(got, ws)):
                    return mad("quantiles(%r)" % n, got, ws, f)
        elif q == "hist":
            bins, closed, stat = case["bins"], case["bclosed"], case["stat"]
            breaks = model.unit_breaks(f, closed) if bins == "unit" else bins
            vs = model.value_sums(f)
            covers = all((breaks[0] <= v < breaks[-1] if closed == "left" else breaks[0] < v <= breaks[-1]) for v in vs)
            want = model.hist(f, breaks, closed, stat)
            if want is None or (stat == "probability" and not covers):
                continue
            b = bins if bins == "unit" or case.get("form") == "list" else pd.IntervalIndex.from_breaks(breaks, closed=closed)
            got = s.hist(bins=b, closed=closed if not isinstance(b, pd.IntervalIndex) else case.get("cpass", closed), stat=stat)
            if not isinstance(got.index, pd.IntervalIndex) or [float(x) for x in got.index.left] != [float(x) for x in breaks[:-1]] \
                    or [float(x) for x in got.index.right] != [float(x) for x in breaks[1:]] or got.index.closed != closed:
                return mad("hist bins", got.index, breaks, f)
            for x, w in zip(got.values, want):
                ok = length_ok(dom, pd.Timedelta(x) if dom.datetimelike else x, w) if stat in ("sum", "frequency") else eq(x, w)
                if not ok:
                    return mad("hist(%r, %s, %s)" % (breaks, closed, stat), list(got.values), want, f)
        elif q == "describe":
            lo, hi = case["win"]
            g = f.clip(lo, hi)
            if not model.fin(g):
                continue
            r = s.describe((ops.lab(dom, lo), ops.lab(dom, hi))) if case.get("dw") else s.describe(where=[ops.lab(dom, lo), ops.lab(dom, hi)], percentiles=[10, 50])
            vals = model.values_in_range(f, lo, hi, "neither", "left")
            want = {"unique": len(model.value_sums(g)), "mean": model.mean(g), "std": model.std(g), "min": vals[0], "max": vals[-1]}
            for p in ((25, 50, 75) if case.get("dw") else (10, 50)):
                want["%d%%" % p] = model.fractile(g, model.Fraction(p) / 100)
            if set(r.index) != set(want):
                return mad("describe keys", list(r.index), list(want), f)
            for k, w in want.items():
                if not isinstance(r[k], (int, float, np.number)):
                    return mad("describe[%s]" % k, r[k], w, f)
                if w is not None and not same(float(r[k]), float(w), 1e-5):
                    return mad("describe[%s] over %r" % (k, (lo, hi)), r[k], w, f)


def c09_cases(rng, n):
    pfs = [p for p in all_pfs((0, 2, 8)) if model.fin(p)]
    qs = ["ecdf", "percentile", "fractile", "median", "mode", "quantiles", "hist", "describe"]
    for i in range(n):
        d, c = rand_cfg(rng)
        bins = rng.choice(["unit", [-3, -1, 0, 2, 6], [-2.5, 0, .5, 1, 7], [-4, 10], [-2, 1, 5]])
        yield {"kind": "c09", "f": leafish(rng, c, pfs), "dom": d, "order": rng.sample(qs, 5), "bins": bins,
               "bclosed": rng.choice(["left", "right"]), "stat": rng.choice(["sum", "frequency", "density", "probability"]),
               "form": rng.choice(["list", "ii"]), "cpass": rng.choice(["left", "right"]), "win": list(ops.rand_bounds(rng)), "dw": rng.random() < .5}


# ---- C10 --------------------------------------------------------------------------------
def c10_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    lo, hi = case["win"]
    closed = case["wclosed"]
    eff = closed or s.closed
    want = model.values_in_range(f, lo, hi, eff, s.closed)
    w = (ops.lab(dom, lo), ops.lab(dom, hi))
    if case.get("sent"):
        w = (-inf if lo is None else w[0], inf if hi is None else w[1])
    if case.get("plain") and lo is None and hi is None:
        got = s.values_in_range()
    else:
        got = s.values_in_range(w, closed) if closed else s.values_in_range(where=w)
    got = [float(x) for x in got]
    if len(got) != len(want) or not all(eq(a, b) for a, b in zip(sorted(got), want)):
        return mad("values_in_range(%r, %r) %s-closed f" % ((lo, hi), closed, s.closed), got, want, f)
    if not want:
        return None
    if case.get("plain") and lo is None and hi is None:
        got = [s.min(), s.max()]
    elif lo is None and hi is None and not closed and case.get("sent"):
        got = [s.agg("min"), s.agg("max")]
    else:
        r = s.agg(["min", "max"], w, closed)
        got = [r["min"], r["max"]]
        one = s.agg("max", where=w, closed=closed)
        if not eq(one, got[1]):
            return mad("agg('max')", one, got[1], f)
    if not (eq(got[0], want[0]) and eq(got[1], want[-1])):
        return mad("min/max over %r %r" % ((lo, hi), closed), got, (want[0], want[-1]), f)


def c10_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n):
        d, c = rand_cfg(rng)
        f = leafish(rng, c, pfs)
        lo, hi = ops.rand_bounds(rng, -1, 6) if i % 2 else ops.rand_bounds(rng)
        for wc in (None, "left", "right", "both", "neither"):
            yield {"kind": "c10", "f": f, "dom": d, "win": [lo, hi], "wclosed": wc, "sent": rng.random() < .5,
                   "plain": rng.random() < .5 and wc is None}


# ---- C11 --------------------------------------------------------------------------------
def _ii(case, dom):
    ivs = case["ivs"]
    if case.get("breaks"):
        return None
    return pd.IntervalIndex.from_arrays(dom.index([a for a, _ in ivs]), dom.index([b for _, b in ivs]), closed=case["iclosed"])


def c11_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    ivs, ic = case["ivs"], case["iclosed"]
    if case.get("breaks"):
        b = [a for a, _ in ivs] + [ivs[-1][1]]
        sl = s.slice(dom.index(b) if case["breaks"] == "index" else [dom.label(k) for k in b], ic)
    elif case.get("period"):
        pi = pd.period_range(dom.label(ivs[0][0]).tz_localize(None) if dom.name in ("tz", "dst") else dom.label(ivs[0][0]),
                             periods=len(ivs), freq="h")
        sl = s.slice(pi, ic)
    else:
        sl = s.slice(_ii(case, dom))
    gs = [f.clip(a, b) for a, b in ivs]
    alldef = all(model.fin(g) for g in gs)
    for q in case["order"]:
        if q == "mean":
            got = list(sl.mean().values) if case["how"] == 0 else list(sl.agg("mean")["mean"].values) if case["how"] == 1 else list(sl.apply(sc.Stairs.mean).values)
            want = [model.mean(g) for g in gs]
            if not all(eq(a, w) for a, w in zip(got, want)) or len(got) != len(want):
                return mad("slice mean %r" % ivs, got, want, f)
        elif q == "integral" and alldef:
            got = list(sl.integral())
            want = [model.integral(g) for g in gs]
            if not all(length_ok(dom, a, w) for a, w in zip(got, want)):
                return mad("slice integral", got, want, f)
        elif q in ("min", "max"):
            got = [float(x) for x in getattr(sl, q)().values] if case["how"] == 0 else [float(x) for x in sl.agg([q, "mean"])[q].values]
            want = []
            for a, b in ivs:
                v = model.values_in_range(f, a, b, ic, s.closed)
                want.append(NAN if not v else v[0] if q == "min" else v[-1])
            if not all(eq(a, w) for a, w in zip(got, want)) or len(got) != len(want):
                return mad("slice %s of %s-closed f over %s-closed %r" % (q, s.closed, ic, ivs), got, want, f)
        elif q == "median" and alldef:
            got = list(sl.median().values)
            want = [model.fractile(g, .5) for g in gs]
            if not all(w is None or eq(a, w) for a, w in zip(got, want)):
                return mad("slice median", got, want, f)
        elif q == "mode" and alldef:
            got = list(sl.mode().values)
            if not all(any(eq(a, m) for m in model.modes(g)) for a, g in zip(got, gs)):
                return mad("slice mode", got, [model.modes(g) for g in gs], f)
        elif q == "apply" and alldef:
            got = list(sl.apply(lambda x, k, m=0: x.agg("mean") * k + m, 2, m=1).values)
            want = [model.mean(g) * 2 + 1 for g in gs]
            if not all(eq(a, w) for a, w in zip(got, want)):
                return mad("slice apply", got, want, f)
        elif q == "hist" and alldef:
            bins, st = [-6, -1, 0, .5, 2, 8], case.get("hstat", "sum")
            got = sl.hist(bins, "right", st) if case["how"] == 0 else sl.hist(bins=bins, closed="right", stat=st)
            for (ix, row), g in zip(got.iterrows(), gs):
                want = model.hist(g, bins, "right", st)
                if want is None or (st == "probability" and any(not -6 < v <= 8 for v in model.value_sums(g))):
                    continue
                for x, w in zip(row.values, want):
                    if not (length_ok(dom, x, w) if st in ("sum", "frequency") else eq(x, w)):
                        return mad("slice hist %s" % st, list(row.values), want, g)
        elif q == "uhist" and alldef:
            got = sl.hist()
            for (ix, row), g in zip(got.iterrows(), gs):
                for ivl, x in row.items():
                    w = float(sum(l for v, l in model.value_sums(g).items() if ivl.left <= v < ivl.right))
                    if not length_ok(dom, x, w):
                        return mad("slice unit hist", row, w, g)
    # the function itself is untouched
    if not obs(s, dom).same(f):
        return "slicing changed the function"


def resample_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    cuts, st, ic = case["cuts"], case["stat"], case["iclosed"]
    ivs = list(zip(cuts, cuts[1:]))
    want = f
    for a, b in ivs:
        g = f.clip(a, b)
        if st in ("min", "max"):
            v = model.values_in_range(f, a, b, ic, s.closed)
            v = NAN if not v else v[0] if st == "min" else v[-1]
        elif st == "mean":
            v = model.mean(g)
        elif not model.fin(g):
            return None
        elif st == "median":
            v = model.fractile(g, .5)
        elif st == "integral":
            if dom.datetimelike:
                return None
            v = model.integral(g) * dom.unit
        else:
            m = model.modes(g)
            v = m[0] if len(m) == 1 else None
        if v is None:
            return None
        want = want.zip(PF.indicator(a, b), lambda x, i, v=v: v if i == 1 else x)
    r = s.slice(dom.index(cuts), ic).resample(st)
    got = obs(r, dom)
    if not got.same(want, 1e-7):
        return mad("resample(%s) %s over %s-closed %r" % (st, s.closed, ic, cuts), got, want, f)
    if want.xs and r.closed != s.closed:
        return "resample changed the closed side"


def c11_cases(rng, n):
    pfs = all_pfs((0, 2, 5))
    qs = ["mean", "integral", "min", "max", "median", "mode", "apply", "hist", "uhist"]
    for i in range(n):
        d, c = rand_cfg(rng)
        f = leafish(rng, c, pfs)
        ic = rng.choice(["left", "right", "both", "neither"])
        if i % 3 == 0:
            if ic == "both":     # adjacent closed slices overlap: rejected by contract
                ic = "left"
            yield {"kind": "resample", "f": f, "dom": d, "cuts": sorted(rng.sample(range(-1, 14), rng.randint(2, 5))),
                   "stat": rng.choice(["mean", "max", "min", "median", "mode", "integral"]), "iclosed": ic}
            continue
        case = {"kind": "c11", "f": f, "dom": d, "iclosed": ic, "order": rng.sample(qs, 5), "how": rng.randint(0, 2),
                "hstat": rng.choice(["sum", "frequency", "density", "probability"])}
        if i % 3 == 1:
            b = sorted(rng.sample(range(-1, 14), rng.randint(2, 5)))
            case["ivs"] = [list(x) for x in zip(b, b[1:])]
            case["breaks"] = rng.choice(["index", "list"])
            if d == "tsh" and rng.random() < .7:
                k = rng.randint(-1, 5)
                case["ivs"] = [[k + j, k + j + 1] for j in range(3)]
                del case["breaks"]
                case["period"] = True
        else:
            ivs = []
            for _ in range(rng.randint(1, 5)):
                a = rng.randint(-1, 12)
                ivs.append([a, a + rng.randint(1, 6)])
            case["ivs"] = ivs
        yield case


# ---- C18 --------------------------------------------------------------------------------
def _box(objs, how, labels=None):
    keys = labels if labels and len(set(labels)) == len(objs) else range(len(objs))
    return {"list": lambda: list(objs), "tuple": lambda: tuple(objs), "dict": lambda: dict(zip(keys, objs)),
            "series": lambda: pd.Series(list(objs), index=labels), "array": lambda: np.array(list(objs), dtype=object),
            "sa": lambda: sc.StairsArray(list(objs)), "sseries": lambda: pd.Series(list(objs), index=labels, dtype="Stairs")}[how]()


def agg_check(case):
    dom = DOMS[case["dom"]]
    fs = [op_pf(o) for o in case["fs"]]
    objs = [build(o, dom) for o in case["fs"]]
    if case.get("repeat"):     # one object several times
        objs, fs = [objs[i] for i in case["repeat"]], [fs[i] for i in case["repeat"]]
    labels = case.get("labels")
    name = case["name"]
    box = _box(objs, case["box"], labels)
    if case["box"] == "sseries" and name in ("logical_or", "logical_and"):
        r = getattr(box.sc, name)()
    elif case["box"] == "sseries" and case.get("red") and name in ("sum", "max", "min", "mean", "median"):
        r = getattr(box, name)()
    elif case["box"] == "sa" and case.get("red"):
        r = getattr(box, name)()
    else:
        r = getattr(sc, name)(box)
    want = PF.zipn(fs, model.AGGS[name])
    got = obs(r, dom)
    if not got.same(want):
        return mad("%s of %s" % (name, case["box"]), got, want, fs)
    closeds = [o.closed for o in objs if o.number_of_steps] or [objs[0].closed]
    if r.closed != closeds[0]:
        return "%s: closed %s" % (name, r.closed)
    if name == "sum" and len(objs) > 1:
        acc = objs[0]
        for o in objs[1:]:
            acc = acc + o
        if not obs(acc, dom).same(got):
            return "sum differs from folding +"
    for o, f in zip(objs, fs):
        if not obs(o, dom).same(f):
            return "aggregation changed a member"


OPNAMES = ["ge", "gt", "le", "lt", "eq", "ne", "add", "subtract", "multiply", "divide"]


def elem_check(case):
    dom = DOMS[case["dom"]]
    fs = [op_pf(o) for o in case["fs"]]
    a = sc.StairsArray(_box([build(o, dom) for o in case["fs"]], case.get("abox", "list"), case.get("labels")))
    op = case["op"]
    other = case["other"]
    if "box" in other:
        gs = [op_pf(o) for o in other["fs"]]
        b = _box([build(o, dom) for o in other["fs"]], other["box"], case.get("labels"))
    else:
        gs = [op_pf(other)] * len(fs)
        b = build(other, dom)
    fn = ops.BIN[op]
    how = case["how"]
    if how == "refl":      # reflected method: other op self
        r = getattr(a, "r" + op)(b)
        want = [g.zip(f, lambda x, y: fn(ops.A, x, y)) for f, g in zip(fs, gs)]
    else:
        r = ops.SYM[op](a, b) if how == "sym" else getattr(a, op)(b)
        want = [f.zip(g, lambda x, y: fn(ops.A, x, y)) for f, g in zip(fs, gs)]
    if not isinstance(r, sc.StairsArray) or len(r) != len(fs):
        return "%s: result %r" % (op, type(r))
    for x, w in zip(r, want):
        if not obs(x, dom).same(w):
            return mad("array " + op, obs(x, dom), w, (fs, gs))
    if case.get("neg"):
        for x, f in zip(-a, fs):
            if not obs(x, dom).same(f.map(lambda v: -v)):
                return "array negate"


def table_check(case):
    dom = DOMS[case["dom"]]
    fs = [op_pf(o) for o in case["fs"]]
    objs = [build(o, dom) for o in case["fs"]]
    labels = case.get("labels") or list(range(len(fs)))
    sr = pd.Series(objs, index=labels, dtype="Stairs")
    ks = case["ks"]
    xs = dom.index(ks) if case.get("vec", True) else dom.label(ks[0])
    kk = ks if case.get("vec", True) else ks[:1]
    for what, side in (("limit", "left"), ("limit", "right"), ("sample", None)):
        args = (xs,) if side is None else (xs, side)
        tabs = [(getattr(sr.sc, what)(*args), labels)]
        tabs.append((getattr(sc, what)(objs, *args), None))
        if case.get("dict"):
            tabs.append((getattr(sc, what)(_box(objs, "dict", case.get("labels")), *args), None))
        for tab, labs in tabs:
            if tab.shape != (len(fs), len(kk)):
                return "%s table has shape %r" % (what, tab.shape)
            if labs is not None and list(tab.index) != labs:
                return "%s table labels %r" % (what, list(tab.index))
            if [dom.unlabel(c) for c in tab.columns] != list(kk):
                return "%s table columns %r" % (what, list(tab.columns))
            for row, f, o in zip(tab.values, fs, objs):
                for k, v in zip(kk, row):
                    w = f.val(k, o.closed) if side is None else f.at(k) if side == "right" else f.before(k)
                    if not same(float(v), w):
                        return mad("%s table at %r" % (what, k), v, w, f)


def mat_check(case):
    dom = DOMS[case["dom"]]
    objs = [build(o, dom) for o in case["fs"]]
    lo, hi = case["win"]
    w = (dom.label(lo), dom.label(hi))
    fs = [op_pf(o) for o in case["fs"]]
    if any(model.cov(f, g, lo, hi) is None for f in fs for g in fs):
        return None
    for what in ("cov", "corr"):
        m = getattr(sc, what)(objs, where=w)
        m = np.asarray(m, dtype=float)
        sm = getattr(pd.Series(objs, index=case.get("labels"), dtype="Stairs").sc, what)(w).values.astype(float)
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                e = float(getattr(a, what)(b, where=w))
                if not same(m[i, j], e, 1e-6) or not same(m[j, i], m[i, j], 1e-6) or not same(sm[i, j], e, 1e-6):
                    if abs(m[i, j] - e) < 1e-6 and abs(m[j, i] - e) < 1e-6 and abs(sm[i, j] - e) < 1e-6:
                        continue
                    return "%s matrix [%d,%d] = %r / %r, pairwise %r" % (what, i, j, m[i, j], sm[i, j], e)


def c18_cases(rng, n):
    pfs = all_pfs((0, 2))

    def leaf(c):
        return mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c) if rng.random() < .4 else rand_operand(rng, c, maxn=4)
    for i in range(n):
        d, c = rand_cfg(rng)
        k = rng.randint(1, 5)
        fs = [leaf(c) for _ in range(k)]
        r = i % 8
        rep = None
        if r < 4 and rng.random() < .15:
            rep = [rng.randrange(k) for _ in range(rng.randint(2, 5))]
            k = len(rep)
        labels = rng.choice([None, [7] * k, list("vwxyz")[:k], list("yvzxw")[:k], list(range(k, 0, -1)), [10, 9, 11, 2, 1][:k]])
        if r < 4:
            yield {"kind": "agg", "fs": fs, "dom": d, "name": rng.choice(list(model.AGGS)), "labels": labels,
                   "box": rng.choice(["list", "tuple", "dict", "series", "array", "sa", "sseries"]), "red": rng.random() < .5,
                   **({"repeat": rep} if rep else {})}
        elif r < 6:
            t = rng.random()
            how = rng.choice(["sym", "method"])
            if t < .3:
                other = {"scalar": rng.choice([0., 1., 2., -2.]), "type": rng.choice(["int", "float", "np", "npint"])}
                how = rng.choice(["sym", "method", "refl"])
            elif t < .5:
                other = leaf(c)
                how = rng.choice(["sym", "method", "refl"])
            else:
                other = {"box": rng.choice(["sa", "list", "array"]), "fs": [leaf(c) for _ in range(k)]}
                if other["box"] == "array":
                    how = "method"
            op = rng.choice(OPNAMES if how != "refl" else OPNAMES[6:])
            yield {"kind": "elem", "fs": fs, "dom": d, "op": op, "other": other, "how": how, "neg": rng.random() < .2,
                   "abox": rng.choice(["list", "tuple", "dict", "series", "array", "sa"]), "labels": labels}
        elif r == 6:
            yield {"kind": "table", "fs": fs, "dom": d, "ks": sorted(rng.sample(range(-1, 16), rng.randint(1, 5))),
                   "labels": labels, "vec": rng.random() < .8, "dict": rng.random() < .3}
        elif i % 32 == 7:
            a = rng.randint(-1, 8)
            yield {"kind": "mat", "fs": fs[:3], "dom": d, "win": [a, a + rng.randint(1, 8)], "labels": (labels or [0] * k)[:3] if labels else None}


# ---- C19 --------------------------------------------------------------------------------
def cov_check(case):
    dom = DOMS[case["dom"]]
    f = op_pf(case["f"])
    g = f if case.get("alias") else op_pf(case["g"])
    x = build(case["f"], dom)
    y = x if case.get("alias") else build(case["g"], dom)
    unit = min(1, max([abs(v) for h in (f, g) for v in [h.init] + h.vs if not isnan(v)] or [1]) ** 2) or 1
    lo, hi = case["win"]
    lag, clip = case["lag"], case["clip"]
    kw = {"where": (dom.label(lo), dom.label(hi))}
    if case.get("lst"):
        kw["where"] = list(kw["where"])
    mg, mhi = g, hi
    if lag:
        kw["lag"] = dom.length(lag)
        kw["clip"] = clip
        mg = g.shift(-lag)
        if clip == "pre":
            mhi = hi - lag
        if mhi <= lo:
            return None
    c = model.cov(f, mg, lo, mhi)
    if c is None:
        return None
    got = float(x.cov(y, **kw))
    if not abs(got - c) < 1e-6 * max(unit, abs(c)):
        return mad("cov(where=%r, lag=%r, %s)" % ((lo, hi), lag, clip), got, c, (f, g))
    r = model.corr(f, mg, lo, mhi)
    got = float(x.corr(y, **kw))
    if isnan(r):
        if not isnan(got):
            return mad("corr of a constant", got, r, (f, g))
    elif not abs(got - r) < 1e-5 or abs(got) > 1 + 1e-9:
        return mad("corr(where=%r, lag=%r, %s)" % ((lo, hi), lag, clip), got, r, (f, g))
    if not lag:
        c2 = float(y.cov(x, **kw))
        r2 = float(y.corr(x, **kw))
        if not abs(c2 - c) < 1e-6 * max(unit, abs(c)) or not (same(r2, r, 1e-5) or abs(r2 - r) < 1e-5):
            return "cov/corr not symmetric"
        if case.get("self"):
            v = model.cov(f, f, lo, hi)
            if v is not None and not abs(float(x.cov(x, **kw)) - v) < 1e-6 * max(unit, v):
                return "cov(f, f) is not var(f)"
    if not obs(x, dom).same(f) or not obs(y, dom).same(g):
        return "cov/corr changed an operand"


def c19_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n):
        d, c = rand_cfg(rng)

        def leaf():
            return mk(rng.choice(pfs), rng.choice(ROUTES), rng.choice(FORMS), c) if rng.random() < .3 else rand_operand(rng, c)
        a = rng.randint(-1, 8)
        f, g = leaf(), leaf()
        k = rng.choice([0] * 6 + [-30, -20, 12] if not DOMS[d].datetimelike else [0, 0, 12])   # Timedelta keeps whole nanoseconds
        if k:
            f, g = ({**h, "init": jv(2.0 ** k * uv(h["init"])), "steps": [[p, jv(2.0 ** k * uv(v))] for p, v in h["steps"]],
                     "route": {"cancel": "values"}.get(h["route"], h["route"])} for h in (f, g))
        elif rng.random() < .3:      # values that are not dyadic: a constant still has no correlation
            q = rng.choice([.1, .7, 1.1])
            f, g = ({**h, "init": jv(q * uv(h["init"])), "steps": [[p, jv(q * uv(v))] for p, v in h["steps"]],
                     "route": "values", "form": "values"} for h in (f, g))
        yield {"kind": "cov", "f": f, "g": g, "dom": d, "alias": rng.random() < .1, "win": [a, a + rng.choice([1, 2, 4, 8, 8])],
               "lag": rng.choice([0, 0, 1, 2, -2, -3]), "clip": rng.choice(["pre", "post"]), "self": rng.random() < .3,
               "lst": rng.random() < .3}


# ---- C20 --------------------------------------------------------------------------------
def shift_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    d = case["d"]
    r = s.shift(dom.length(d))
    got = obs(r, dom)
    if not got.same(f.shift(d)):
        return mad("shift(%r)" % d, got, f.shift(d), f)
    if r.closed != s.closed:
        return "shift changed the closed side"
    if case.get("deep"):
        obs_eval(r, dom, f.shift(d))
    r = s.diff(dom.length(d))
    want = f.zip(f.shift(d), lambda a, b: a - b)
    got = obs(r, dom)
    if not got.same(want):
        return mad("diff(%r)" % d, got, want, f)
    if want.xs and r.closed != s.closed:
        return "diff changed the closed side"
    if not obs(s, dom).same(f):
        return "shift/diff changed the operand"


def roll_check(case):
    dom = DOMS[case["dom"]]
    f, s = built(case["f"], dom)
    l, r = case["window"]
    lo, hi = case["win"]
    g = f.clip(lo, hi)
    if not g.xs:
        return None
    kn = sorted(set([x - l for x in g.xs] + [x - r for x in g.xs]))
    kn = [k for k in kn if (lo is None or k >= lo - l) and (hi is None or k <= hi - r)]
    want = [(k, model.mean(g.clip(k + l, k + r))) for k in kn]
    w = (ops.lab(dom, lo), ops.lab(dom, hi))
    got = s.rolling_mean((dom.length(l), dom.length(r)), w) if not case.get("plain") or lo is not None or hi is not None else s.rolling_mean(window=[dom.length(l), dom.length(r)])
    gk = [dom.unlabel(x) for x in got.index]
    if gk != kn:
        return mad("rolling_mean%r knots" % ((l, r),), gk, kn, f)
    for (k, y), v in zip(want, got.values):
        if not eq(v, y):
            return mad("rolling_mean%r at %r over %r" % ((l, r), k, (lo, hi)), v, y, f)
    if f.defined_everywhere() and len(kn) > 1:
        for (a, ya), (b, yb) in zip(want, want[1:]):
            m = (a + b) / 2
            if not eq(model.mean(g.clip(m + l, m + r)), (ya + yb) / 2):
                return mad("rolling_mean interpolation", (ya, yb), m, f)
    if not obs(s, dom).same(f):
        return "rolling_mean changed the operand"


def c20_cases(rng, n):
    pfs = all_pfs((0, 2))
    for i in range(n):
        d, c = rand_cfg(rng)
        f = leafish(rng, c, pfs)
        if i % 2:
            yield {"kind": "shift", "f": f, "dom": d, "d": rng.choice([-7, -3, -2, -1, 0, 1, 2, 3, 4, 10]), "deep": rng.random() < .2}
        else:
            l = rng.choice([-4, -2, -1, 0, 1])
            yield {"kind": "roll", "f": f, "dom": d, "window": [l, l + rng.choice([1, 2, 3, 5])], "win": list(ops.rand_bounds(rng)),
                   "plain": rng.random() < .5}


CHECKS = {"c08": c08_check, "c08big": big_check, "c09": c09_check, "c10": c10_check, "c11": c11_check, "resample": resample_check,
          "agg": agg_check, "elem": elem_check, "table": table_check, "mat": mat_check, "cov": cov_check,
          "shift": shift_check, "roll": roll_check}


def cases(prop, rng, scale):
    n = int(2000 * scale)
    yield from {"C08": c08_cases, "C09": c09_cases, "C10": c10_cases, "C11": c11_cases, "C18": c18_cases,
                "C19": c19_cases, "C20": c20_cases}[prop](rng, n)
