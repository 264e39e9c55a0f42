"""Run-time contracts: C13 (frame conditions / aliasing), C14 (caches across layer), C15 (closed side)."""
import random

from . import model, ops
from .dom import *
from .gen import *
from .pf import PF, NAN, isnan, same

ClosedMismatch = sc.core.exceptions.ClosedMismatchError if hasattr(sc, "core") else None
if ClosedMismatch is None:
    from staircase.core.exceptions import ClosedMismatchError as ClosedMismatch


# ---- queries ---------------------------------------------------------------------------------
def q_index(dom, k=(0, 3, 7)):
    return dom.index(list(k))


QUERIES = {
    "integral": lambda s, d: s.integral(),
    "mean": lambda s, d: s.mean(),
    "var": lambda s, d: s.var(),
    "std": lambda s, d: s.std(),
    "median": lambda s, d: s.median(),
    "mode": lambda s, d: s.mode(),
    "min": lambda s, d: s.min(),
    "max": lambda s, d: s.max(),
    "value_sums": lambda s, d: s.value_sums(),
    "values_in_range": lambda s, d: s.values_in_range((d.label(1), d.label(6))),
    "values_in_range_all": lambda s, d: s.values_in_range(),
    "ecdf": lambda s, d: s.ecdf,
    "ecdf_at": lambda s, d: s.ecdf([-1, 0, .5, 1, 2]),
    "percentile": lambda s, d: s.percentile,
    "percentile_at": lambda s, d: s.percentile([3, 41, 97]),
    "fractile": lambda s, d: s.fractile,
    "fractile_at": lambda s, d: s.fractile([.03, .41, .97]),
    "hist": lambda s, d: s.hist(),
    "hist_bins": lambda s, d: s.hist(bins=[-9, -1, 0, 1, 9], stat="sum"),
    "hist_freq": lambda s, d: s.hist(bins=[-9, -1, 0, 1, 9], closed="right", stat="frequency"),
    "quantiles": lambda s, d: s.quantiles(4),
    "describe": lambda s, d: s.describe(),
    "describe_w": lambda s, d: s.describe(where=(d.label(1), d.label(6))),
    "agg": lambda s, d: s.agg(["mean", "integral", "min", "max"]),
    "agg_w": lambda s, d: s.agg(["mean", "max"], where=(d.label(1), d.label(6))),
    "limit_r": lambda s, d: s.limit(q_index(d), "right"),
    "limit_l": lambda s, d: s.limit(q_index(d), "left"),
    "limit_ii": lambda s, d: s.limit(q_index(d), "left", include_index=True),
    "sample": lambda s, d: s.sample(q_index(d), include_index=True),
    "call": lambda s, d: s(d.label(4)),
    "call_inf": lambda s, d: s(sc.inf) if False else s(d.label(2)),
    "step_values": lambda s, d: s.step_values,
    "step_changes": lambda s, d: s.step_changes,
    "step_points": lambda s, d: s.step_points,
    "nsteps": lambda s, d: s.number_of_steps,
    "to_frame": lambda s, d: s.to_frame(),
    "bool": lambda s, d: bool(s),
    "str": lambda s, d: (str(s), None)[1],
    "ident": lambda s, d: s.identical(s.copy()),
    "slice_mean": lambda s, d: s.slice(q_index(d)).mean(),
    "slice_max": lambda s, d: s.slice(q_index(d)).max(),
    "slice_min": lambda s, d: s.slice(q_index(d), "both").min(),
    "slice_median": lambda s, d: s.slice(q_index(d)).median(),
    "slice_hist": lambda s, d: s.slice(q_index(d)).hist(bins=[-9, -1, 0, 1, 9]),
    "slice_apply": lambda s, d: s.slice(q_index(d)).apply(lambda x: x),
    "slice_agg": lambda s, d: s.slice(q_index(d)).agg(["mean", "max"]),
    "rolling_mean": lambda s, d: s.rolling_mean(window=(d.length(-1), d.length(1)), where=(d.label(-2), d.label(18))),
    "pipe": lambda s, d: s.pipe(lambda x: x.mean()),
}
STATQ = ["integral", "mean", "var", "std", "median", "mode", "min", "max", "value_sums", "values_in_range",
         "values_in_range_all", "ecdf", "ecdf_at", "percentile", "percentile_at", "fractile", "fractile_at", "hist",
         "hist_bins", "hist_freq", "quantiles", "describe", "describe_w", "agg", "agg_w"]
PLAINQ = [q for q in QUERIES if q not in STATQ]
# two-operand queries
Q2 = {
    "cov": lambda a, b, d: a.cov(b, where=(d.label(0), d.label(9))),
    "corr": lambda a, b, d: a.corr(b, where=(d.label(0), d.label(9))),
    "identical2": lambda a, b, d: a.identical(b),
    "covm": lambda a, b, d: sc.cov([a, b], where=(d.label(0), d.label(9))),
    "table": lambda a, b, d: sc.sample([a, b], q_index(d)),
    "limits": lambda a, b, d: sc.limit({"a": a, "b": b}, q_index(d), "left"),
    "elem": lambda a, b, d: sc.StairsArray([a, b]) + a,
    "elemr": lambda a, b, d: 2 - sc.StairsArray([a, b]),
    "elem2": lambda a, b, d: sc.StairsArray([a, b]) * sc.StairsArray([b, a]),
    "neg": lambda a, b, d: -sc.StairsArray([a, b]),
    "sseries": lambda a, b, d: pd.Series([a, b], dtype="Stairs") > b,
    "ssum": lambda a, b, d: pd.Series([a, b], dtype="Stairs").sum(),
    "slices2": lambda a, b, d: [a.slice(q_index(d)).resample("mean"), b.slice(q_index(d)).resample("mean")],
}


def norm(v, dom):
    """observable content of an answer"""
    if isinstance(v, sc.Stairs):
        fr = v.to_frame()
        return ["stairs", [norm(x, dom) for x in fr["start"]], [norm(x, dom) for x in fr["value"]], v.closed if len(fr) > 1 else None]
    if isinstance(v, pd.DataFrame):
        return [[str(c) for c in v.columns], norm(v.index, dom), [[norm(x, dom) for x in r] for r in v.itertuples(index=False)]]
    if isinstance(v, pd.Series):
        return [norm(v.index, dom), [norm(x, dom) for x in v]]
    if isinstance(v, pd.Interval):
        return ["ivl", norm(v.left, dom), norm(v.right, dom), v.closed]
    if isinstance(v, (list, tuple, pd.Index, np.ndarray)) or type(v).__name__ == "StairsArray":
        return [norm(x, dom) for x in v]
    if isinstance(v, dict):
        return [norm(x, dom) for x in v.values()]
    if isinstance(v, (pd.Timestamp, pd.Timedelta, np.datetime64, np.timedelta64)):
        return str(pd.Timestamp(v) if isinstance(v, (pd.Timestamp, np.datetime64)) else pd.Timedelta(v).round("us"))
    if isinstance(v, (bool, np.bool_, int, float, np.number)):
        return float(v)
    return str(v)


def ans_eq(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(ans_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return same(a, b, 1e-6) or abs(a - b) < 1e-6
    return a == b


def ask(q, s, dom):
    try:
        return norm(QUERIES[q](s, dom), dom)
    except Exception as e:       # an answer about an undefined quantity may be an exception
        return ["raises", type(e).__name__]


def stairs_in(v):
    if isinstance(v, sc.Stairs):
        return [v]
    if isinstance(v, (list, tuple)) or type(v).__name__ == "StairsArray":
        return [y for x in v for y in stairs_in(x)]
    if isinstance(v, pd.Series) and (v.dtype == object or v.dtype == "Stairs"):
        return [y for x in v for y in stairs_in(x)]
    return []


def do_layer(s, m, dom):
    """m = {"how": scalar|vector|frame, "t": [[a, b, v]..]}"""
    t = m["t"]
    if m["how"] == "scalar":
        for a, b, v in t:
            s.layer(ops.lab(dom, a), ops.lab(dom, b), v)
    elif m["how"] == "vector":
        s.layer([ops.lab(dom, a) for a, _, _ in t], [ops.lab(dom, b) for _, b, _ in t], [v for _, _, v in t])
    else:
        df = pd.DataFrame({"a": pd.Series([ops.lab(dom, a) for a, _, _ in t]), "b": pd.Series([ops.lab(dom, b) for _, b, _ in t]),
                           "v": [v for _, _, v in t]})
        s.layer("a", "b", "v", df)
    return s


def rand_mut(rng, pf=None):
    if pf is not None and pf.xs and rng.random() < .4:     # hit existing step points
        pts = pf.xs
        t = []
        for _ in range(rng.randint(1, 2)):
            a = rng.choice(pts + [None])
            b = rng.choice([p for p in pts if a is None or p > a] + [None])
            t.append([a, b, rng.choice([1, 2, -1, -2, .5])])
    else:
        t = [[*ops.rand_bounds(rng), rng.choice([1, 2, -1, -2, .5])] for _ in range(rng.randint(1, 3))]
    return {"how": rng.choice(["scalar", "scalar", "vector", "frame"]), "t": t}


# ---- C13 ---------------------------------------------------------------------------------------
def c13_check(case):
    dom = DOMS[case["dom"]]
    leaves = case["args"]
    objs = [build(o, dom) for o in leaves]
    fs = [op_pf(o) for o in leaves]
    live = [(o, f, s.get("closed", "left"), "operand %d" % i) for i, (o, f, s) in enumerate(zip(objs, fs, leaves)) if isinstance(o, sc.Stairs)]
    for q in case.get("warm", []):
        for o, *_ in live:
            ask(q, o, dom)
    op = case["op"]
    res = []
    reps = []
    for _ in range(case.get("reps", 1)):
        try:
            if "q" in case:
                r = QUERIES[op](objs[0], dom) if op in QUERIES else Q2[op](objs[0], objs[1], dom)
            else:
                r = ops.apply(op, objs, case.get("p", {}), dom)
        except ClosedMismatch:
            raise
        except Exception as e:
            if "q" in case:          # undefined statistic
                r = None
            else:
                raise
        reps.append(r)
        res += stairs_in(r)
    # 1. frame: operands unchanged
    for o, f, c, name in live:
        m = frame_ok(o, f, c, dom)
        if m:
            return "%s changed %s: %s" % (op, name, m)
    if any(x is o for x in res for o, *_ in live):
        return "%s returned an operand itself" % op
    if any(x is y for i, x in enumerate(res) for y in res[:i]):
        if op not in ("slices2",):
            return "%s returned the same object twice" % op
    # 2. separation: mutate, observe the others
    cells = [[o, f, None, name] for o, f, c, name in live]
    special = op in ("ecdf", "percentile", "fractile")
    rdom = DOMS["float"] if special else dom
    for i, x in enumerate(res):
        cells.append([x, obs(x.copy(), rdom), rdom, "result %d" % i])
    for tgt, mut in case["muts"]:
        tgt = tgt % len(cells)
        cell = cells[tgt]
        d = cell[2] or dom
        do_layer(cell[0], mut, d)
        cell[1] = ops.layer_model(cell[1], mut["t"])
        for j, (o, f, dd, name) in enumerate(cells):
            got = obs(o.copy(), dd or dom) if case.get("viacopy") else obs(o, dd or dom)
            if not got.same(f):
                return "after %s, layering onto %s changed %s: got %r, want %r" % (op, cell[3], name, got, f)
        if special:      # the operand's own later answer must not be polluted
            twin = build(leaves[0], dom)
            t0 = cells[0][1]
            if tgt != 0 and t0.same(fs[0]) and not ans_eq(ask(op, objs[0], dom), ask(op, twin, dom)):
                return "layering onto a returned %s changed the operand's later answer" % op


def frame_ok(o, f, c, dom):
    if o.closed != c:
        return "closed became %r" % o.closed
    got = obs(o, dom)
    if not got.same(f):
        return "now %r, was %r" % (got, f)
    for k in (f.xs or [1]):
        if not same(float(o.limit(dom.label(k), "left")), f.before(k)) or not same(float(o(dom.label(k))), f.val(k, c)):
            return "evaluation changed at %r" % k
    return None


def fromvals_check(case):
    dom = DOMS[case["dom"]]
    f = op_pf(case["f"])
    s = pd.Series([_iv(v) for v in f.vs] if case.get("intd") and all(not isnan(v) and v == int(v) for v in f.vs) else f.vs, index=dom.index(f.xs))
    a = sc.Stairs.from_values(initial_value=f.init, values=s, closed=case["f"]["closed"])
    b = sc.Stairs.from_values(initial_value=f.init, values=s, closed=case["f"]["closed"])
    if case.get("touch"):
        a.step_changes, b.step_changes
    m = case["mut"]
    do_layer(a, m, dom)
    if not obs(b, dom).same(f):
        return "two functions built from one Series share state: %r" % obs(b, dom)
    if not obs(a, dom).same(ops.layer_model(f, m["t"])):
        return "layer after from_values: %r, want %r" % (obs(a, dom), ops.layer_model(f, m["t"]))
    c = sc.Stairs.from_values(initial_value=f.init, values=s, closed=case["f"]["closed"])
    if not obs(c, dom).same(f):
        return "layering onto a from_values result changed the input Series"


def _iv(v):
    return int(v)


def c13_cases(rng, n):
    small = all_pfs((0, 4), [NAN, 0.0, 1.0, 2.0])
    fnops = ops.OPS
    qs = list(QUERIES) + list(Q2)
    i = 0

    def leaf(c):
        r = rng.choice(ROUTES + ["intvalues"])
        return mk(rng.choice(small), r, rng.choice(FORMS), c) if rng.random() < .5 else rand_operand(rng, c, maxn=5)
    while i < n:
        d, c = rand_cfg(rng)
        i += 1
        if i % 12 == 0:
            f = leaf(c)
            if f["steps"]:
                yield {"kind": "fromvals", "f": f, "dom": d, "mut": rand_mut(rng, op_pf(f)), "touch": rng.random() < .5, "intd": rng.random() < .5}
            continue
        if i % 3:
            def one(op):
                t = ops.rand_node(rng, lambda: leaf(c), [op])
                if op in ops.BIN and rng.random() < .12:       # identity-like operands
                    t["args"][rng.randint(0, 1) if op in ops.SYM else 1] = mk(PF(rng.choice([0., 1., NAN])), "values", "raw", c)
                if op in ("clip", "where_t", "mask_t") and rng.random() < .3:
                    t["p"] = {"lo": None, "hi": None} if op == "clip" else {"lo": None, "hi": rng.choice([None, 3])}
                    if t["p"]["lo"] is None and t["p"]["hi"] is None and op != "clip":
                        t["p"]["hi"] = 3
                if op in ("shift", "diff") and rng.random() < .3:
                    t["p"]["d"] = 0
                return t
            op = fnops[(i // 3 * 2 + i % 3) % len(fnops)]
            t = one(op)
            try:
                ops.tree_pf(t)
            except ops.Skip:
                continue
            case = {"kind": "c13", "op": op, "args": t["args"], "p": t.get("p", {})}
        else:
            op = qs[(i // 3) % len(qs)]
            case = {"kind": "c13", "op": op, "q": 1, "args": [leaf(c)] + ([leaf(c)] if op in Q2 else [])}
        case.update(dom=d, reps=rng.choice([1, 1, 2]), warm=rng.sample(STATQ + PLAINQ, rng.choice([0, 0, 1, 2])),
                    viacopy=rng.random() < .3)
        muts = []
        for _ in range(rng.randint(1, 3)):
            fo = [o for o in case["args"] if "scalar" not in o]
            muts.append([rng.randint(0, 5), rand_mut(rng, op_pf(rng.choice(fo)) if fo else None)])
        case["muts"] = muts
        yield case


# ---- C14 ---------------------------------------------------------------------------------------
def c14_check(case):
    dom = DOMS[case["dom"]]
    f, s = op_pf(case["f"]), build(case["f"], dom)
    c = case["f"]["closed"]
    kept = []
    for step in case["hist"]:
        if "q" in step:
            q = step["q"]
            got = ask(q, s, dom)
            fresh = build(mk(f, "values", step.get("form", "raw"), c), dom)
            want = ask(q, fresh, dom)
            if not ans_eq(got, want):
                return "%s after %r: %r, fresh function answers %r (now %r)" % (
                    q, [list(x.values())[0] if "q" in x else "layer" for x in case["hist"][:case["hist"].index(step)]], got, want, f)
            if step.get("poke"):     # tamper with the returned object, not with the function
                r = None
                try:
                    r = QUERIES[q](s, dom)
                except Exception:
                    pass
                if isinstance(r, sc.Stairs):
                    r.layer(0, 1, 3)
                if not ans_eq(ask(q, s, dom), want):
                    return "%s: layering onto the returned object changed later answers" % q
        elif "copy" in step:
            kept.append((s, f))
            s = s.copy()
        elif "swap" in step and kept:
            kept.append((s, f))
            s, f = kept.pop(0)
        elif "m" in step:
            do_layer(s, step["m"], dom)
            f = ops.layer_model(f, step["m"]["t"])
            if not ops.exact(f):
                return None
    if not obs(s, dom).same(f):
        return "queries changed the function: %r, want %r" % (obs(s, dom), f)


def inverse(m):
    return {"how": m["how"], "t": [[a, b, -v] for a, b, v in m["t"]]}


def c14_cases(rng, n):
    small = all_pfs((0, 4), [NAN, 0.0, 1.0, 2.0])
    for i in range(n):
        d, c = rand_cfg(rng)
        f = mk(rng.choice(small), rng.choice(ROUTES + ["intvalues"]), rng.choice(FORMS), c) if rng.random() < .4 else rand_operand(rng, c, maxn=5)
        pf = op_pf(f)
        hist = []
        lead = STATQ[i % len(STATQ)]
        m = rand_mut(rng, pf)
        style = i % 4
        pool = STATQ if rng.random() < .75 else STATQ + PLAINQ

        def q(x=None):
            return {"q": x or rng.choice(pool), "form": rng.choice(["raw", "both"]), "poke": rng.random() < .3}
        if style == 0:
            hist = [q(lead), {"m": m}, q(lead), q()]
        elif style == 1:
            hist = [q(lead), {"m": m}, q(), {"m": inverse(m)}, q(lead), q()]
        elif style == 2:
            hist = [q(lead), {"copy": 1}, {"m": m}, q(lead), {"swap": 1}, q(lead), q()]
        else:
            for _ in range(rng.randint(3, 6)):
                hist.append(q(rng.choice([lead, None])) if rng.random() < .6 else {"m": rand_mut(rng, pf)})
            hist += [{"m": m}, q(lead)]
        if rng.random() < .3:
            hist.insert(0, q())
        yield {"kind": "c14", "f": f, "dom": d, "hist": hist}


# ---- C15 ---------------------------------------------------------------------------------------
def c15_check(case):
    dom = DOMS[case["dom"]]
    leaves = case["args"]
    objs = [build(o, dom) for o in leaves]
    op, p = case["op"], case.get("p", {})
    for q in case.get("warm", []):
        for o in objs:
            if isinstance(o, sc.Stairs):
                ask(q, o, dom)
    st = [(op_pf(o), o["closed"]) for o in leaves if "scalar" not in o]
    sides = {c for f, c in st if f.xs}
    run = lambda: (ops.apply(op, objs, p, dom) if not case.get("q") else Q2[op](objs[0], objs[1], dom))
    merging = op not in ("table", "limits", "identical2", "slices2") and len(st) > 1
    if op in ("elem", "elemr", "elem2", "neg", "sseries"):
        return c15_elem(op, objs, st, dom)
    if merging and len(sides) > 1:
        try:
            r = run()
        except ClosedMismatch:
            return None
        except Exception as e:
            return "%s of a left- and a right-closed function raised %s: %s" % (op, type(e).__name__, str(e)[:80])
        return "%s silently merged a left- and a right-closed function" % op
    if case.get("q") and op in ("cov", "corr", "covm"):
        w = [f.clip(0, 9) for f, _ in st]
        if any(model.cov(f, g, 0, 9) is None for f in w for g in w):
            return None
    if op == "identical2":
        return None
    if len(sides) > 1:     # non merging operations: nothing may raise
        run()
        return None
    r = run()
    want = sides.pop() if sides else (st[0][1] if len({c for _, c in st}) == 1 or not op.startswith("agg_") else None)
    rs = stairs_in(r)
    if op == "slices2":
        for x, (f, c) in zip(rs, st):
            if x.closed != c:
                return "resample of a %s-closed function is %s-closed" % (c, x.closed)
        return None
    for x in rs:
        if want and x.closed != want:
            return "%s returned a %s-closed function, want %s (operands %r)" % (op, x.closed, want, st)
    if not case.get("q"):
        h = ops.pf_apply(op, [op_pf(o) for o in leaves], p)
        for k in (h.xs or [2]):
            got = float(rs[0](dom.label(k)))
            if want and not same(got, h.val(k, want), 1e-7):
                return "%s evaluates to %r at step point %r, want %r (%s-closed)" % (op, got, k, h.val(k, want), want)


def c15_elem(op, objs, st, dom):
    pairs = {"elem": [(0, 0), (1, 0)], "elemr": [(0, None), (1, None)], "elem2": [(0, 1), (1, 0)], "neg": [(0, None), (1, None)],
             "sseries": [(0, 1), (1, 1)]}[op]
    bad = False
    want = []
    for i, j in pairs:
        ms = [st[i]] + ([st[j]] if j is not None else [])
        sides = {c for f, c in ms if f.xs}
        bad |= len(sides) > 1
        want.append(sides.pop() if sides else ms[0][1])
    try:
        r = Q2[op](objs[0], objs[1], dom)
    except ClosedMismatch:
        return None if bad else "%s on consistent operands raised a mismatch" % op
    if bad:
        return "%s silently merged opposite sides" % op
    for x, w in zip(stairs_in(r), want):
        if x.closed != w:
            return "%s element is %s-closed, want %s" % (op, x.closed, w)


def fn15_check(case):
    """operations returning functions that are not in the tree table"""
    dom = DOMS[case["dom"]]
    f, s = op_pf(case["f"]), build(case["f"], dom)
    c = s.closed
    if c != case["f"]["closed"]:
        return "construction route %s lost the closed side" % case["f"]["route"]
    how = case["how"]
    if how == "slice_apply":
        rs = stairs_in(s.slice(dom.index(case["cuts"])).apply(lambda x: x))
    elif how == "resample":
        rs = []
        for st in ["mean", "max", "min"]:
            rs.append(s.slice(dom.index(case["cuts"]), case["iclosed"]).resample(st))
    elif how == "tuple":
        a, b = case["lohi"]
        w = (ops.lab(dom, a), ops.lab(dom, b))
        rs = [s.clip(*w)]
        if (a, b) != (None, None):
            rs += [s.mask(w), s.where(w)]
    elif how == "inplace":
        s.layer(ops.lab(dom, case["lohi"][0]), ops.lab(dom, case["lohi"][1]), 2)
        s.layer([dom.label(1)], [dom.label(4)], [1])
        rs = [s]
    elif how == "fill":
        rs = [s.fillna(0), s.fillna("ffill"), s.fillna("bfill"), s.fillna(s), s.isna(), s.notna(), ~s, -s, s.make_boolean()]
    elif how == "from_values":
        if not f.xs:
            return None
        rs = [sc.Stairs.from_values(initial_value=f.init, values=pd.Series(f.vs, index=dom.index(f.xs)), closed=c)]
    elif how == "ctor":
        a, b = case["lohi"]
        rs = [sc.Stairs(start=ops.lab(dom, a), end=ops.lab(dom, b), closed=c), sc.Stairs(start=[dom.label(1)], end=[dom.label(3)], closed=c),
              sc.Stairs(closed=c), sc.Stairs(initial_value=3, closed=c)]
    for x in rs:
        if x.closed != c:
            return "%s: %s-closed result from a %s-closed function" % (how, x.closed, c)


def c15_cases(rng, n):
    small = all_pfs((0, 4), [NAN, 0.0, 1.0])
    consts = [p for p in small if not p.xs]

    def leaf(c):
        t = rng.random()
        if t < .25:
            return mk(rng.choice(consts), rng.choice(ROUTES), rng.choice(FORMS), c)
        if t < .6:
            return mk(rng.choice(small), rng.choice(ROUTES), rng.choice(FORMS), c)
        return rand_operand(rng, c, maxn=4)
    qs = list(Q2)
    hows = ["slice_apply", "resample", "tuple", "inplace", "fill", "from_values", "ctor"]
    for i in range(n):
        d, c = rand_cfg(rng)
        c2 = "left" if c == "right" else "right"
        mixed = rng.random() < .55
        if i % 4 == 0:
            yield {"kind": "fn15", "how": hows[(i // 4) % len(hows)], "f": leaf(c), "dom": d, "lohi": list(ops.rand_bounds(rng)),
                   "cuts": sorted(rng.sample(range(-1, 14), rng.randint(2, 5))), "iclosed": rng.choice(["left", "right", "neither"])}
            continue
        sel = lambda: leaf(rng.choice([c, c2]) if mixed else c)
        if i % 4 == 1:
            op = qs[(i // 4) % len(qs)]
            yield {"kind": "c15", "q": 1, "op": op, "args": [sel(), sel()], "dom": d}
            continue
        op = rng.choice(ops.OPS)
        t = ops.rand_node(rng, sel, [op])
        try:
            ops.tree_pf(t)
        except ops.Skip:
            continue
        yield {"kind": "c15", "op": op, "args": t["args"], "p": t.get("p", {}), "dom": d, "warm": rng.sample(STATQ + PLAINQ, rng.choice([0, 0, 1]))}


CHECKS = {"c13": c13_check, "fromvals": fromvals_check, "c14": c14_check, "c15": c15_check, "fn15": fn15_check}


def cases(prop, rng, scale):
    if prop == "C13":
        yield from c13_cases(rng, int(4000 * scale))
    elif prop == "C14":
        yield from c14_cases(rng, int(4000 * scale))
    else:
        yield from c15_cases(rng, int(4000 * scale))
