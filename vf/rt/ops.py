"""Operation table: every public function-valued operation with its pointwise model.

A program is a JSON tree: a leaf operand spec (dom.mk / {"scalar": ..}) or
{"op": name, "args": [tree, ...], "p": {...}}.
"""
import math
import operator

import numpy as np
import pandas as pd

import staircase as sc
from .. import spec
from . import model
from .dom import *
from .gen import *
from .pf import PF, NAN, isnan

A = spec.FloatAlg
BIN = {**spec.BINARY_ARITH, **spec.BINARY_REL, **spec.BINARY_LOGIC, "mask": spec.mask, "where": spec.where,
       "fillna": spec.fillna}
UN = {"negate": spec.negate, "invert": spec.invert, "make_boolean": spec.make_boolean, "isna": spec.isna,
      "notna": spec.notna}
SYM = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
       "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
       "logical_and": operator.and_, "logical_or": operator.or_, "logical_xor": operator.xor}
SCALAR_OK = set(SYM) | {"fillna"}
AGG = list(model.AGGS)


def lab(dom, k, none=None):
    return none if k is None else dom.label(k)


def apply(op, args, p, dom):
    if op in SYM:
        return SYM[op](*args)
    if op in ("mask", "where", "fillna"):
        return getattr(args[0], op)(args[1])
    if op in UN:
        return getattr(args[0], op)()
    f = args[0]
    if op == "clip":
        return f.clip(lab(dom, p["lo"]), lab(dom, p["hi"]))
    if op == "where_t":
        return f.where((lab(dom, p["lo"]), lab(dom, p["hi"])))
    if op == "mask_t":
        return f.mask((lab(dom, p["lo"]), lab(dom, p["hi"])))
    if op == "fill_m":
        return f.fillna(p["m"])
    if op == "shift":
        return f.shift(dom.length(p["d"]))
    if op == "diff":
        return f.diff(dom.length(p["d"]))
    if op == "copy":
        return f.copy()
    if op == "layer":
        return f.copy().layer(lab(dom, p["lo"]), lab(dom, p["hi"]), p["v"])
    if op == "layer_v":
        return f.copy().layer([lab(dom, a) for a, b, v in p["t"]], [lab(dom, b) for a, b, v in p["t"]],
                              [v for a, b, v in p["t"]])
    if op == "rebuild":
        if not f.number_of_steps:
            return f.copy()
        return sc.Stairs.from_values(initial_value=f.initial_value, values=f.step_values, closed=f.closed)
    if op == "resample":
        return f.slice(dom.index(p["cuts"])).resample(p["stat"])
    if op.startswith("agg_"):
        c = list(args)
        c = {"list": lambda: c, "tuple": lambda: tuple(c), "dict": lambda: dict(enumerate(c)),
             "series": lambda: pd.Series(c, index=[0] * len(c)), "array": lambda: np.array(c, dtype=object),
             "sa": lambda: sc.StairsArray(c)}[p.get("box", "list")]()
        return getattr(sc, op[4:])(c)
    raise KeyError(op)


class Skip(Exception):
    """the program is not well formed / not exactly representable"""


def resample_model(f, cuts, stat):
    ind = PF.indicator(cuts[0], cuts[-1])
    out = f
    for a, b in zip(cuts, cuts[1:]):
        g = f.clip(a, b)
        if not model.fin(g):
            v = NAN
            if stat in ("median", "mode"):
                raise Skip
        elif stat == "mean":
            v = model.mean(g)
        elif stat == "integral":
            v = model.integral(g)
        elif stat == "mode":
            m = model.modes(g)
            if len(m) > 1:
                raise Skip
            v = m[0]
        elif stat == "median":
            v = model.fractile(g, .5)
            if v is None:
                raise Skip
        else:
            vs = [x for _, x in model.fin(g)]
            v = max(vs) if stat == "max" else min(vs)
        ind = PF.indicator(a, b)
        out = out.zip(ind, lambda x, i, v=v: v if i == 1 else x)
    return out


def pf_apply(op, fs, p):
    if op in BIN:
        return fs[0].zip(fs[1], lambda x, y: BIN[op](A, x, y))
    if op in UN:
        return fs[0].map(lambda x: UN[op](A, x))
    f = fs[0]
    if op in ("clip", "where_t"):
        return f.clip(p["lo"], p["hi"])
    if op == "mask_t":
        return f.zip(PF.indicator(p["lo"], p["hi"]), lambda v, g: spec.mask(A, v, g))
    if op == "fill_m":
        return (model.ffill if p["m"] in ("pad", "ffill") else model.bfill)(f)
    if op == "shift":
        return f.shift(p["d"])
    if op == "diff":
        return f.zip(f.shift(p["d"]), lambda a, b: a - b)
    if op in ("copy", "rebuild"):
        return f
    if op == "layer":
        return layer_model(f, [(p["lo"], p["hi"], p["v"])])
    if op == "layer_v":
        return layer_model(f, p["t"])
    if op == "resample":
        return resample_model(f, p["cuts"], p["stat"])
    if op.startswith("agg_"):
        return PF.zipn(fs, model.AGGS[op[4:]])
    raise KeyError(op)


def layer_model(f, trips):
    for a, b, v in trips:
        f = f.zip(PF.indicator(a, b, v), lambda x, y: x + y)
    return f


def exact(f):
    vs = [v for v in [f.init] + f.vs if not isnan(v)]
    return all(abs(v) < 2 ** 20 and float(v * 2 ** 16).is_integer() for v in vs) or (
        all(abs(v) < 16 and float(v * 2 ** 41).is_integer() for v in vs))


# ---- programs -----------------------------------------------------------------------------
def tree_pf(t, leaf=op_pf, exact_only=True):
    if "op" not in t:
        return leaf(t)
    r = pf_apply(t["op"], _aliased(t, [tree_pf(a, leaf, exact_only) for a in t["args"]]), t.get("p", {}))
    if exact_only and not exact(r):
        raise Skip
    return r


def _aliased(t, args):
    """{"alias": [0, 1, 0]}: the same object in several places"""
    return [args[i] for i in t["alias"]] if "alias" in t else args


def tree_run(t, dom, poke=None):
    if "op" not in t:
        return build(t, dom)
    args = _aliased(t, [tree_run(a, dom, poke) for a in t["args"]])
    r = apply(t["op"], args, t.get("p", {}), dom)
    if poke:
        poke(r)
    return r


def tree_leaves(t):
    if "op" not in t:
        yield t
    else:
        for a in t["args"]:
            yield from tree_leaves(a)


def rand_bounds(rng, lo=-1, hi=17):
    while True:
        a, b = rng.choice([None] + list(range(lo, hi))), rng.choice([None] + list(range(lo, hi)))
        if a is None or b is None or a < b:
            return a, b


OPS = (list(SYM) + ["add", "subtract", "multiply", "mask", "where", "fillna"] + list(UN)
       + ["clip", "where_t", "mask_t", "fill_m", "shift", "diff", "copy", "layer", "layer_v", "rebuild", "resample"]
       + ["agg_" + a for a in AGG])


ROUNDS = ("multiply", "divide", "resample", "agg_mean")


def rand_node(rng, sub, ops=OPS):
    """one random operation over subtrees produced by sub()"""
    op = rng.choice(ops)
    if op in ROUNDS and (TINY[0] or EXACT[0]):     # values closer than the rounding of the operation decide nothing
        keep, TINY[0], EXACT[0] = (TINY[0], EXACT[0]), False, False
        try:
            return rand_node(rng, sub, [op])
        finally:
            TINY[0], EXACT[0] = keep
    p = {}
    if op in BIN:
        args = [sub(), sub()]
        t = rng.random()
        if op in SCALAR_OK and t < .2:
            args[1] = rand_scalar(rng)
        elif op in SYM and t < .35:
            args[0] = rand_scalar(rng)
    elif op in ("clip", "where_t", "mask_t"):
        args = [sub()]
        p["lo"], p["hi"] = rand_bounds(rng)
    elif op == "fill_m":
        args, p["m"] = [sub()], rng.choice(["pad", "ffill", "backfill", "bfill"])
    elif op in ("shift", "diff"):
        args, p["d"] = [sub()], rng.choice([-4, -2, -1, 0, 1, 2, 3])
    elif op == "layer":
        args = [sub()]
        p["lo"], p["hi"] = rand_bounds(rng)
        p["v"] = rng.choice([1, 2, -1, -2, .5])
    elif op == "layer_v":
        args = [sub()]
        p["t"] = [[*rand_bounds(rng), rng.choice([1, 2, -1, -2, .5])] for _ in range(rng.randint(1, 4))]
    elif op == "resample":
        args = [sub()]
        p["cuts"] = sorted(rng.sample(range(-1, 18), rng.randint(2, 5)))
        p["stat"] = rng.choice(["mean", "median", "mode"])
    elif op.startswith("agg_"):
        args = [sub() for _ in range(rng.randint(1, 4))]
        p["box"] = rng.choice(["list", "tuple", "dict", "series", "array", "sa"])
    else:
        args = [sub()]
    t = {"op": op, "args": args, **({"p": p} if p else {})}
    if len(args) > 1 and "scalar" not in args[0] and rng.random() < .08:
        t["alias"] = [0, 0] if op in BIN else [0] + [rng.randrange(len(args)) for _ in range(rng.randint(1, 3))]
    return t


def rand_tree(rng, closed, depth, ops=OPS, maxn=4, pfs=None):
    if depth == 0 or rng.random() < .12:
        if pfs and rng.random() < .5:
            return mk(rng.choice(pfs), rng.choice(ROUTES + ["intvalues"]), rng.choice(FORMS), closed)
        return rand_operand(rng, closed, maxn=maxn)
    return rand_node(rng, lambda: rand_tree(rng, closed, depth - 1, ops, maxn, pfs), ops)
