"""Run-time contracts of the pointwise operators (C01, C04, C05, C06, C07)."""
import operator

from .. import spec
from .dom import *
from .gen import *
from .model import bfill, ffill
from .pf import PF, NAN, isnan, same

A = spec.FloatAlg
SYM = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
       "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
       "logical_and": operator.and_, "logical_or": operator.or_, "logical_xor": operator.xor}
SPECS = {**spec.BINARY_ARITH, **spec.BINARY_REL, **spec.BINARY_LOGIC}


def twin(o, dom):
    """the function an operand denotes, read off an identically built twin"""
    if "scalar" in o:
        return op_pf(o)
    return obs(build(o, dom), dom)


def expect(got, want, what):
    if not got.same(want):
        return "%s: got %r, want %r" % (what, got, want)


def observe_result(r, dom, minimal=False):
    pf = obs(r, dom, minimal)
    return pf


def pointwise_check(case):
    dom = DOMS[case["dom"]]
    a, b = case["args"]
    op = case["op"]
    if case.get("alias"):      # one object as both operands
        b = a
    fa, fb = twin(a, dom), twin(b, dom)
    want = fa.zip(fb, lambda x, y: SPECS[op](A, x, y))
    x = build(a, dom)
    y = x if case.get("alias") else build(b, dom)
    via = case.get("via", "sym")
    if via == "sym":
        r = SYM[op](x, y)
    elif via == "method":
        r = getattr(x, op)(y)
    else:
        r = getattr(y, via)(x)
    e = expect(obs(r, dom), want, op)
    if e:
        return e
    if case.get("deep"):
        obs_eval(r, dom, want)
    # the result is an ordinary step function: layer / + / identical complete
    if case.get("follow") and (r.number_of_steps or not isnan(want.init)):
        z = dom.label(1)
        r2 = r + 1
        e = expect(obs(r2, dom), want.map(lambda v: v + 1), op + " then +1")
        if e:
            return e
        r3 = r.copy().layer(z, None, 2)
        e = expect(obs(r3, dom), want.zip(PF.indicator(1, None, 2.0), lambda u, w: u + w), op + " then layer")
        if e:
            return e
        if not r.identical(r.copy()) or not (r * 1).identical(r):
            return op + ": identical with its own copy is False"


REFL = {v: k for k, v in spec.REFLECTED.items()}


def binary_cases(ops, rng, n, seedpfs, follow=False):
    """exhaustive pairs on a small grid (float, left) in shuffled order + random configurations"""
    pairs = [(p, q) for p in seedpfs for q in seedpfs]
    rng.shuffle(pairs)
    k = 0
    for i in range(n):
        if i % 2 == 0 and k < len(pairs):
            p, q = pairs[k]
            k += 1
            d, c = ("float", "left") if i % 4 == 0 else rand_cfg(rng)
            a = mk(p, rng.choice(ROUTES), rng.choice(FORMS), c)
            b = mk(q, rng.choice(ROUTES), rng.choice(FORMS), c)
        else:
            d, c = rand_cfg(rng)
            a = rand_operand(rng, c)
            b = rand_operand(rng, c)
        t = rng.random()
        if t < 0.15:
            b = rand_scalar(rng)
        elif t < 0.3:
            a = rand_scalar(rng)
        for op in ops:
            case = {"kind": "binary", "op": op, "args": [a, b], "dom": d, "follow": follow or rng.random() < .1,
                    "deep": rng.random() < .1}
            vias = ["sym"]
            if "scalar" not in a:
                vias.append("method")
            elif "scalar" not in b and op in REFL:
                vias.append(REFL[op])
            case["via"] = rng.choice(vias)
            if "scalar" not in a and rng.random() < .05:
                case["alias"] = True
            yield case


def unary_check(case):
    dom = DOMS[case["dom"]]
    a = case["args"][0]
    fa = twin(a, dom)
    op = case["op"]
    x = build(a, dom)
    fn = {"negate": spec.negate, "invert": spec.invert, "make_boolean": spec.make_boolean,
          "isna": spec.isna, "notna": spec.notna}[op]
    via = case.get("via", "method")
    r = {"negate": operator.neg, "invert": operator.invert}[op](x) if via == "sym" else getattr(x, op)()
    return expect(obs(r, dom), fa.map(lambda v: fn(A, v)), op)


def unary_cases(ops, rng, n, seedpfs):
    pfs = list(seedpfs)
    rng.shuffle(pfs)
    for i in range(n):
        d, c = rand_cfg(rng)
        a = mk(pfs[i], rng.choice(ROUTES), rng.choice(FORMS), c) if i < len(pfs) else rand_operand(rng, c)
        for op in ops:
            yield {"kind": "unary", "op": op, "args": [a], "dom": d,
                   "via": rng.choice(["method", "sym"]) if op in ("negate", "invert") else "method"}


# ---- C06 -------------------------------------------------------------------------------
def clip_check(case):
    dom = DOMS[case["dom"]]
    a = case["args"][0]
    lo, hi = case["lo"], case["hi"]
    fa = twin(a, dom)
    x = build(a, dom)

    def lab(k, none):
        if k is None:
            return none
        l = dom.label(k)
        if case.get("str") and case["dom"] in ("ts", "tsh", "tz", "dst"):
            return str(l)
        return l
    how = case["how"]
    nl, nh = (None, None) if case.get("none") else (-inf, inf)
    if how == "clip":
        r = x.clip(lab(lo, nl), lab(hi, nh))
        want = fa.clip(lo, hi)
    elif how == "clipkw":
        kw = {}
        if lo is not None:
            kw["lower"] = lab(lo, nl)
        if hi is not None:
            kw["upper"] = lab(hi, nh)
        r = x.clip(**kw)
        want = fa.clip(lo, hi)
    elif how == "where":
        r = x.where((lab(lo, None), lab(hi, None)))
        want = fa.clip(lo, hi)
    else:
        r = x.mask((lab(lo, None), lab(hi, None)))
        ind = PF.indicator(lo, hi)
        want = fa.zip(ind, lambda v, g: spec.mask(A, v, g))
    return expect(obs(r, dom), want, how)


def maskwhere_check(case):
    dom = DOMS[case["dom"]]
    a, b = case["args"]
    if case.get("alias"):
        b = a
    fa, fb = twin(a, dom), twin(b, dom)
    op = case["op"]
    x = build(a, dom)
    r = getattr(x, op)(x if case.get("alias") else build(b, dom))
    fn = {"mask": spec.mask, "where": spec.where}[op]
    return expect(obs(r, dom), fa.zip(fb, lambda u, g: fn(A, u, g)), op)


def c06_cases(rng, n, pfs):
    pairs = [(p, q) for p in pfs for q in pfs]
    rng.shuffle(pairs)
    pts = [None, -1, 0, 1, 2, 3, 4, 5]
    for i in range(n):
        if i < len(pairs) and i % 2 == 0:
            p, q = pairs[i]
            d, c = ("float", "left") if i % 4 == 0 else rand_cfg(rng)
            a, b = mk(p, rng.choice(ROUTES), rng.choice(FORMS), c), mk(q, rng.choice(ROUTES), rng.choice(FORMS), c)
        else:
            d, c = rand_cfg(rng)
            a, b = rand_operand(rng, c), rand_operand(rng, c)
        for op in ("mask", "where"):
            yield {"kind": "maskwhere", "op": op, "args": [a, b], "dom": d, "alias": rng.random() < .05}
        while True:
            lo, hi = rng.choice(pts), rng.choice(pts + [7, 9, 20])
            if lo is None or hi is None or lo < hi:
                break
        for how in ("clip", "clipkw", "where", "mask"):
            yield {"kind": "clip", "how": how, "args": [a], "lo": lo, "hi": hi, "dom": d,
                   "str": rng.random() < .3, "none": rng.random() < .5}
    yield from unary_cases(["isna", "notna"], rng, n // 2, pfs)


# ---- C07 -------------------------------------------------------------------------------
def fillna_check(case):
    dom = DOMS[case["dom"]]
    a = case["args"][0]
    fa = twin(a, dom)
    x = build(a, dom)
    if "method" in case:
        m = case["method"]
        r = x.fillna(m)
        want = ffill(fa) if m in ("ffill", "pad") else bfill(fa)
        return expect(obs(r, dom), want, m)
    b = a if case.get("alias") else case["args"][1]
    fb = twin(b, dom)
    r = x.fillna(x if case.get("alias") else build(b, dom))
    return expect(obs(r, dom), fa.zip(fb, lambda u, g: spec.fillna(A, u, g)), "fillna")


def c07_cases(rng, n, pfs):
    pairs = [(p, q) for p in pfs for q in pfs]
    rng.shuffle(pairs)
    for i in range(n):
        if i < len(pairs) and i % 2 == 0:
            p, q = pairs[i]
            d, c = ("float", "left") if i % 4 == 0 else rand_cfg(rng)
            a, b = mk(p, rng.choice(ROUTES), rng.choice(FORMS), c), mk(q, rng.choice(ROUTES), rng.choice(FORMS), c)
        else:
            d, c = rand_cfg(rng)
            a, b = rand_operand(rng, c), rand_operand(rng, c)
        yield {"kind": "fillna", "args": [a, b], "dom": d, "alias": rng.random() < .05}
        yield {"kind": "fillna", "args": [a, rand_scalar(rng)], "dom": d}
        for m in ("pad", "ffill", "backfill", "bfill"):
            yield {"kind": "fillna", "args": [a], "method": m, "dom": d}


CHECKS = {"binary": pointwise_check, "unary": unary_check, "clip": clip_check, "maskwhere": maskwhere_check,
          "fillna": fillna_check}


def _small():
    return all_pfs((0, 2), VALS)


def cases(prop, rng, scale):
    n = int(1200 * scale)
    if prop == "C01":
        yield from binary_cases(list(spec.BINARY_ARITH), rng, n, _small())
        yield from unary_cases(["negate"], rng, n // 2, all_pfs((0, 2, 4)))
    elif prop == "C04":
        yield from binary_cases(list(spec.BINARY_REL), rng, n // 2, _small(), follow=True)
    elif prop == "C05":
        yield from binary_cases(list(spec.BINARY_LOGIC), rng, n, _small())
        yield from unary_cases(["invert", "make_boolean"], rng, n // 2, all_pfs((0, 2, 4)))
    elif prop == "C06":
        yield from c06_cases(rng, n, _small())
    elif prop == "C07":
        yield from c07_cases(rng, n, _small())
