"""Which tasks decide which property."""
from . import contracts, roll as C

STEPPED = ("V", "D", "VD")
FORMS = ("S",) + STEPPED
ARITH = ("add", "subtract", "multiply", "divide")
REL = ("lt", "le", "gt", "ge", "eq", "ne")
LOGIC = ("logical_and", "logical_or", "logical_xor")
POINT = {"pointwise", "rep", "noexc"}


def make(src):
    return eval(src, dict(vars(C)))


def b(op, fa, fb, via=None, ca="left", cb="left"):
    s = "binary(%r, %r, %r" % (op, fa, fb)
    if via:
        s += ", via=%r" % via
    if (ca, cb) != ("left", "left"):
        s += ", ca=%r, cb=%r" % (ca, cb)
    return s + ")"


def binaries(ops, thorough, forms=None):
    out = []
    for op in ops:
        full = [(x, y) for x in FORMS for y in FORMS]
        out += [b(op, x, y) for x, y in (forms or full)]
        sym = "sym"
        out += [b(op, "V", "K"), b(op, "V", "K", sym), b(op, "S", "K", sym)]
        out += [b(op, "K", x, C.REFL_NAME(op)) for x in (FORMS if thorough else ("S", "V", "VD"))]
        if thorough:
            out += [b(op, x, "K", v) for x in FORMS for v in (None, sym)]
            out += [b(op, x, y, sym) for x in FORMS for y in FORMS]
            out += [b(op, x, y, ca="right", cb="right") for x in STEPPED for y in STEPPED]
    return uniq(out)


def uniq(l):
    return list(dict.fromkeys(l))


def unaries(ops, forms=FORMS, vias=("method",)):
    return ["unary(%r, %r, via=%r)" % (o, f, v) for o in ops for f in forms for v in vias if v == "method" or o in ("negate", "invert")]


RED = [("V", "V"), ("V", "D"), ("D", "D"), ("S", "V"), ("V", "S"), ("VD", "VD"), ("D", "V")]


BOUNDS = (("none", "none"), ("inf", "inf"), ("inf", "q"), ("none", "q"), ("q", "none"), ("q", "inf"), ("q", "q"))


def shards(src, n):
    return ["%s#%d/%d" % (src, i, n) for i in range(n)] if n > 1 else [src]


def clips(thorough, full=False):
    """`full`: all bounds of all forms, else a cross-section"""
    heavy, out = [], []
    for f in FORMS:
        for lo, hi in BOUNDS:
            src = "clip('clip', %r, %r, %r)" % (f, lo, hi)
            if f == "S":
                out.append(src)
            elif thorough or full:
                two = lo == hi == "q"
                (heavy if two or hi in ("inf", "none") else out).extend(shards(src, 15 if two and f != "D" else 6 if two else 3 if f != "D" and lo == "q" else 1))
            elif (f, lo, hi) in (("V", "none", "q"), ("V", "inf", "q"), ("D", "q", "inf")):
                out.append(src)
    return heavy + out


def tuples(thorough):
    out = []
    for how in ("where", "mask"):
        for f in FORMS if thorough else ("S", "V", "D"):
            for lo, hi in BOUNDS if thorough else (("q", "q"), ("none", "q"), ("q", "inf")):
                if how == "where" and f != "S" and not thorough:
                    continue                   # where(tuple) is clip; in quick only on constants
                src = "clip(%r, %r, %r, %r)" % (how, f, lo, hi)
                out += shards(src, 4 if f != "S" else 1)
    return out


def layers(thorough, full=False):
    out, heavy = [], []
    for lo, hi in (("q", "q"), ("q", "none"), ("none", "q"), ("q", "nan"), ("nan", "q"), ("q", "inf"), ("inf", "q"), ("none", "none"), ("inf", "inf")):
        for f in FORMS:
            for v in ("K", "none") if f == "S" or thorough else ("K",):
                src = "layer(%r, %r, %r, %r)" % (f, lo, hi, v)
                n = 1 if f == "S" else 8 if lo == hi == "q" else 2
                if f == "S" or thorough:
                    heavy += shards(src, n) if n > 1 else []
                    out += [src] if n == 1 else []
                elif full and (f == "D" or (f == "V" and (lo, hi) in (("q", "q"), ("q", "none"), ("none", "q"), ("none", "none"))) or
                               (f == "VD" and (lo, hi) in (("q", "none"), ("none", "q")))):
                    heavy += shards(src, n)
                elif not full and (f, lo, hi) in (("D", "q", "none"), ("D", "none", "q"), ("V", "none", "none")):
                    out.append(src)
    return heavy + out


LENGTHS = ((3, 3, 3), (2, 3, 3), (3, 2, 3), (2, 2, 3), (3, 3, 0), (2, 3, 0), (0, 2, 0), (2, 0, 0), (0, 3, 3), (3, 0, "s"), (0, 0, 3), (1, 3, "s"), (3, 2, "s"))


def vectors(thorough):
    out = []
    boxes = ("list", "tuple", "array", "series", "frame")
    for i, f in enumerate(FORMS):
        for j, (a, b, c) in enumerate(LENGTHS):
            for k, box in enumerate(boxes):
                for n, kind in enumerate("fiub"):
                    if thorough or (f in "SD" and (k + n) % 2 == 0) or (i + j + k + 2 * n) % 9 == 0:
                        out.append("layervec(%r, %r, %r, %r, %r, %r)" % (f, a, b, c, box, kind))
    return out + ["layervec(%r, 3, 3, 3, 'list', 'f', 'right')" % f for f in FORMS]


SIDES = ("left", "right")


def evals(thorough):
    return ["evaluate(%r, %r, %r, %r)" % (h, f, a, c) for h in ("left", "right", "sample", "call") for f in FORMS
            for a in ("scalar", "vector") for c in SIDES if c == "left" or thorough or (a == "vector" or h in ("sample", "call"))]


def viewtasks(thorough):
    return ["views(%r, %r)" % (w, f) for w in ("step_values", "step_changes", "step_points", "number_of_steps", "to_frame") for f in FORMS]


def idents(thorough):
    return ["identical(%r, %r)" % (x, y) for x in FORMS for y in FORMS + ("K",)] + ["truth(%r)" % f for f in FORMS]


def simple(thorough):
    """copy, shift, diff, from_values on every form"""
    return ["%s(%r, %r)" % (k, f, c) for k in ("copy", "shift", "diff") for f in FORMS for c in SIDES] + \
        ["from_values(closed=%r)" % c for c in SIDES]


def maskwheres(thorough):
    return ["maskwhere(%r, %r, %r)" % (o, x, y) for o in ("mask", "where") for x in FORMS for y in FORMS]


def fills(thorough):
    out = ["fillna(%r, 'K')" % f for f in FORMS] + ["fillna(%r, %r)" % (x, y) for x in FORMS for y in FORMS]
    out += ["fillmethod(%r, %r)" % (f, m) for f in FORMS for m in ("ffill", "pad", "bfill", "backfill")]
    return out


def everything(thorough):
    """a cross-section of all functions under contract, for the properties about all operations"""
    forms = None if thorough else [("V", "V"), ("D", "VD"), ("S", "V")]
    out = []
    for op in ARITH + REL + LOGIC:
        out += [b(op, x, y) for x, y in (forms or [(p, q) for p in FORMS for q in FORMS])]
    out += [b(op, "V", "K", "sym") for op in ARITH + REL + LOGIC]
    out += unaries(("negate", "invert", "make_boolean", "isna", "notna"), FORMS if thorough else ("S", "V", "VD"))
    out += ["maskwhere(%r, %r, %r)" % (o, x, y) for o in ("mask", "where") for x, y in (forms or [(p, q) for p in FORMS for q in FORMS])]
    out += ["fillna('V', 'K')", "fillna('V', 'V')", "fillna('VD', 'D')", "fillmethod('V', 'ffill')", "fillmethod('V', 'bfill')"]
    out += clips(thorough) + layers(thorough) + vectors(thorough)[::1 if thorough else 12] + simple(thorough)
    out += ["aggregate(%r, %r)" % (n, fs) for n in C.AGGS for fs in (("V", "V"), ("S", "D"), ("S", "S"))]
    return uniq(out)


def sides(thorough):
    out = []
    combos = [("right", "right"), ("left", "right"), ("right", "left")]
    ops = ARITH + REL + LOGIC
    for op in ops:
        for ca, cb in combos:
            for x, y in ([(p, q) for p in FORMS for q in FORMS] if thorough else [("V", "V"), ("S", "V"), ("V", "S"), ("S", "S")]):
                out.append(b(op, x, y, ca=ca, cb=cb))
    for op in ("mask", "where"):
        out += ["maskwhere(%r, %r, %r, ca=%r, cb=%r)" % (op, x, y, ca, cb) for ca, cb in combos for x, y in (("V", "V"), ("S", "V"), ("V", "S"), ("D", "V"))]
    out += ["fillna(%r, %r, ca=%r, cb=%r)" % (x, y, ca, cb) for ca, cb in combos for x, y in (("V", "V"), ("S", "V"), ("V", "S"))]
    out += ["unary(%r, %r, ca='right')" % (o, f) for o in ("negate", "invert", "make_boolean", "isna", "notna") for f in ("S", "V")]
    out += ["clip('clip', 'S', 'q', 'q', ca='right')", "clip('clip', 'V', 'inf', 'q', ca='right')", "layer('S', 'q', 'q', 'K', ca='right')",
            "layer('D', 'q', 'none', 'K', ca='right')"]
    out += simple(thorough) + asides(thorough)
    out += ["moment(%r, %r, %r, 'q', 'q', %r, ca=%r, cb=%r)" % (w, x, y, lag, ca, cb) for w in ("cov", "corr") for lag in (None, "pre") for ca, cb in combos
            for x, y in (("V", "V"), ("S", "V"), ("V", "S"))]
    return uniq(out)


def stats(thorough):
    orders = (("integral",), ("mean",), ("integral", "mean", "integral"), ("mean", "integral", "mean"))
    return ["integral_mean(%r, %r, %r)" % (q, f, c) for q in orders for f in FORMS for c in SIDES if c == "left" or thorough] + \
        ["value_sums(%r, ca=%r)" % (f, c) for f in FORMS for c in SIDES if c == "left" or thorough]


HOWS = ("left", "right", "both", "neither")


def windows(thorough):
    out = []
    for f in FORMS:
        for lo, hi in BOUNDS:
            for how in HOWS:
                for c in SIDES:
                    if f == "V" or thorough or (lo, hi, how, c) in (("q", "q", "both", "left"), ("inf", "inf", "left", "left"), ("q", "inf", "right", "right"), ("none", "q", "left", "left")):
                        if thorough or (lo, hi) not in (("none", "none"), ("inf", "q"), ("q", "none")) or how == "both":
                            out.append("values_in_range(%r, %r, %r, %r, %r)" % (f, lo, hi, how, c))
            out.append("values_in_range(%r, %r, %r, 'left', 'left', given=False)" % (f, lo, hi))
            if f in ("S", "V") or thorough:
                out.append("values_in_range(%r, %r, %r, 'right', 'right', given=False)" % (f, lo, hi))
    for w in ("min", "max"):
        for via in ("method", "agg"):
            for f in FORMS if thorough else ("S", "V"):
                for lo, hi in BOUNDS if thorough else (("q", "q"), ("none", "q"), ("q", "inf"), ("inf", "inf")):
                    for how in HOWS if thorough or (lo, hi) == ("q", "q") and f == "V" else ("both", "left"):
                        for c in SIDES:
                            if thorough or f == "V" or c == "left":
                                out.append("extremes(%r, %r, %r, %r, %r, %r, %r)" % (w, f, lo, hi, how, c, via))
        out += ["extremes(%r, %r, 'inf', 'inf', %r, %r, 'plain')" % (w, f, c, c) for f in FORMS for c in SIDES]
    return uniq(out)


def moments(thorough):
    out = []
    for w in ("cov", "corr"):
        for x, y in [(p, q) for p in FORMS for q in FORMS] if thorough else [("V", "V"), ("S", "V"), ("V", "S"), ("D", "VD"), ("S", "S")]:
            for lo, hi in BOUNDS:
                for lag in (None, "zero", "pre", "post"):
                    out.append("moment(%r, %r, %r, %r, %r, %r)" % (w, x, y, lo, hi, lag))
    return out


def dists(thorough):
    kinds = ("Percentiles", "Fractiles")
    out = ["ecdf()", "median()", "mode()", "variance('var')", "variance('std')"]
    out += ["xtiles(%r, %r)" % (k, f) for k in kinds for f in STEPPED]
    out += ["xsample(%r, %r)" % (k, h) for k in kinds for h in ("sample", "call")]
    out += ["quantiles(%d)" % n for n in (range(1, 31) if thorough else (1, 2, 3, 4, 5, 10))]
    out += ["describe(%r, %r)" % (h, q) for h, q in (("all", None), ("none", None), ("infs", None), ("both", None), ("both", (0, 10, 99.5, 100)),
                                                     ("list", (50,)), ("lower", None), ("upper", ()))]
    out += ["hist(%r, %r, %r)" % (s, c, g) for s in ("sum", "probability", "frequency", "density") for c in SIDES for g in ("index", "breaks", "unit")]
    out += ["distcache(%r)" % w for w in ("ecdf", "percentile", "fractile")]
    out += ["public(%r)" % w for w in ("ecdf", "percentile", "fractile", "hist", "quantiles")]
    out += ["xcopy(%r, %r)" % (k, f) for k in kinds for f in ("V", "VD")] + ["xcopy('ECDF', %r)" % f for f in STEPPED]
    return out + ["value_sums(%r, ca=%r)" % (f, c) for f in FORMS for c in SIDES]


STATISTICS = ("mean", "integral", "median", "mode", "min", "max")


def slicings(thorough):
    out = ["slicestat(%r, %r, %r)" % (n, c, h) for n in STATISTICS for c in SIDES for h in HOWS]
    out += ["slicestat(%r, 'left', 'both', True)" % n for n in STATISTICS]
    out += ["slicecuts(%r, %r)" % (k, h) for k in ("intervals", "cuts", "periods") for h in HOWS]
    out += ["sliceapply()", "slicehist((), {})", "slicehist((), {'bins': 'unit', 'stat': 'probability'})", "slicehist(([0, 1, 2],), {})",
            "sliceagg('max')", "sliceagg(['mean', 'max', 'min'])", "sliceagg(['median', 'mode', 'integral'])"]
    out += ["resample(%r, %r, %r)" % (n, f, c) for n in (STATISTICS if thorough else ("mean", "max", "median")) for f in FORMS for c in SIDES]
    return out


BOXES = ("list", "tuple", "dict", "array", "series", "stairsarray")
MEMBERS = (("S",), ("V",), ("D",), ("VD",), ("S", "S"), ("S", "V"), ("V", "S"), ("V", "V"), ("V", "D"), ("D", "D"), ("VD", "S"), ("D", "S"), ("S", "S", "S"), ("S", "V", "S"),
           ("V", "S", "D"), ("V", "V", "V"), ("S", "V", "V"))


def collections(thorough):
    out = []
    for i, n in enumerate(C.AGGS):
        for j, fs in enumerate(MEMBERS):
            for k, box in enumerate(BOXES):
                if thorough or (box == "list" and len(fs) < 3) or (i + j + k) % 6 == 0:
                    out.append("aggregate(%r, %r, %r%s)" % (n, fs, box, ", via='array'" if (i + j + k) % 2 else ""))
    out += asides(thorough)
    for i, op in enumerate(ARITH + REL + ("radd", "rsubtract", "rmultiply", "rdivide")):
        for j, o in enumerate(("number", "function", "list", "tuple", "array", "series", "stairsarray", "short")):
            out.append("elementwise(%r, %r)" % (op, o))
    for op in ("add", "sub", "mul", "truediv", "radd", "rsub", "rmul", "rtruediv", "lt", "le", "gt", "ge", "eq", "ne"):
        full = {"sub": "subtract", "mul": "multiply", "truediv": "divide"}.get(op.lstrip("r") if op[0] == "r" else op, op.lstrip("r") if op[0] == "r" else op)
        out.append("elementwise(%r, 'list', '__%s__')" % (("r" if op[0] == "r" else "") + full, op))
    out += ["table(%r, %r)" % (w, v) for w in ("sample", "limit") for v in ("array", "accessor")]
    out += ["matrix(%r, %d, %r, %r)" % (w, n, b, v) for w in ("cov", "corr") for n in (1, 2, 3) for b in (False, True) for v in ("array", "accessor")]
    return out


def rolls(thorough):
    return ["rolling(%r, %r, %r, %r)" % (lo, hi, k, c) for lo, hi in BOUNDS for k in ("steps", "const") for c in SIDES] + ["interpolation()"]


def asides(thorough):
    """aggregates of functions closed on different sides"""
    out = []
    for n in C.AGGS if thorough else ("sum", "max", "logical_or"):
        for fs, ss in ((("V", "V"), ("left", "right")), (("S", "V"), ("left", "right")), (("V", "S"), ("right", "left")), (("S", "S"), ("right", "left")),
                       (("V", "D"), ("right", "right")), (("S", "V", "D"), ("left", "right", "left")), (("S", "V", "D"), ("left", "right", "right"))):
            out.append("aggregate(%r, %r, 'list', %r)" % (n, fs, ss))
    return out


def dated(srcs, thorough):
    """the same contracts with Timestamps / Timedeltas for labels; in quick every other task in each of the two"""
    doms, out = {}, []
    for s in srcs:
        body, _, sh = s.partition("#")
        d = doms.setdefault(body, ("ts", "td") if thorough else (("ts", "td")[len(doms) % 2],))
        out += ["indomain(%r, %s)%s" % (x, body, "#" + sh if sh else "") for x in d]
    return out


def plan(prop, tier):
    """-> (categories, task sources)"""
    th = tier == "thorough"
    if prop == "C01":
        return POINT, binaries(ARITH, th) + unaries(("negate",), vias=("method", "sym"))
    if prop == "C04":
        return POINT, binaries(REL, th, None if th else RED)
    if prop == "C05":
        return POINT, binaries(LOGIC, th) + unaries(("invert", "make_boolean"), vias=("method", "sym"))
    if prop == "C02":
        return POINT, vectors(th) + layers(th, True) + ["from_values(closed=%r)" % c for c in SIDES]
    if prop == "C03":
        return POINT, evals(th) + viewtasks(th)
    if prop == "C06":
        return POINT, clips(th, True) + tuples(th) + maskwheres(th) + unaries(("isna", "notna"))
    if prop == "C07":
        return POINT, fills(th)
    if prop == "C08":
        return POINT | {"cache"}, stats(th)
    if prop == "C09":
        return POINT, dists(th)
    if prop == "C10":
        return POINT, windows(th)
    if prop == "C11":
        return POINT | {"cache"}, slicings(th)
    if prop == "C12":
        return {"minimal", "rep"}, idents(th) + everything(th)
    if prop == "C13":
        return {"frame"}, everything(th) + stats(th) + evals(th) + viewtasks(th) + idents(th) + dists(th)[:-8] + slicings(th)
    if prop == "C14":
        return {"cache"}, stats(th) + dists(th)[:-8] + slicings(th) + everything(th)
    if prop == "C15":
        return {"closed"}, sides(th)
    if prop == "C16":
        return POINT, everything(th) + stats(False) + evals(False)
    if prop == "C17":
        mom = moments(th)
        return POINT | {"closed"}, dated(everything(th) + evals(th) + viewtasks(th) + idents(th) + stats(th) + windows(th)[::1 if th else 3] + mom[::1 if th else 5], th)
    if prop == "C18":
        return POINT | {"closed", "frame"}, collections(th)
    if prop == "C19":
        return POINT, moments(th)
    if prop == "C20":
        return POINT | {"frame"}, rolls(th) + [t for t in simple(th) if t.startswith(("shift", "diff"))]
    return set(), []


TRUSTED = [
    "z3 (and its Python bindings) deciding the generated formulas",
    "vf/sym/shim.py, vf/sym/mods.py, and the index / collection stand-ins of vf/sym/bags.py, colls.py, dist.py, slices.py, roll.py: the contracts assumed of the "
    "pandas / numpy operations /repo calls (union, reindex, ffill, diff, shift, where, searchsorted, concat, ...), stated over streams of rows; cross-checked only "
    "indirectly: what is proved through them agrees with real pandas in the bounded checks, also on mutated copies of /repo (DESIGN.md, section 7)",
    "vf/sym/core.py, vf/sym/prove.py: path exploration of the real functions, inference and checking of the inductive invariants",
    "CPython executing /repo's source unchanged (imported from the working tree on every run; only the pandas, numpy, matplotlib, sortedcontainers modules are replaced)",
]
ASSUMED = [
    "floating point is treated as exact real arithmetic extended with NaN and infinities",
    "products and quotients of two unknown reals are uninterpreted up to the axioms listed in vf/sym/core.py (zero, one, sign, monotonicity as needed)",
    "domain labels are an ordered group isomorphic to a subset of the reals, without missing or duplicate labels in an operand's index",
    "operands satisfy the representation invariant (one or both of the value / step-change columns valid and consistent, minimal, sorted, finite or NaN values); "
    "every operation under contract is shown to re-establish it",
    "a numeric scalar is a Python or numpy real number, possibly NaN, never infinite",
    "in modular tasks the callee's contract replaces its body; each such callee (add, subtract, multiply, divide, negate, isna, notna, mask, where, fillna, shift) is verified "
    "against its body in tasks of its own",
    "in var: the mean of a function over its defined finite pieces lies between its least and its greatest value",
    "in the date-like tasks of C17: Timestamps / Timedeltas are ordered reals tagged as points or lengths; points and lengths mixed with plain numbers raise or compare false as "
    "pandas does, calendars, units and nanosecond ranges are not modelled",
    "matplotlib back ends, warnings and docstring machinery do not influence results",
]
