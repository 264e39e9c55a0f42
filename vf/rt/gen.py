"""Generators of operand specs (small-scope exhaustive core + seeded random)."""
import itertools
import random

from .dom import DOM_NAMES, FLAVOURS, FORMS, ROUTES, jv, mk
from .pf import NAN, PF

VALS = [NAN, 0.0, 1.0, -2.0]
RVALS = [NAN, NAN, 0.0, 0.0, 1.0, 1.0, 2.0, -1.0, -2.0, 3.0, 0.5, -0.5, 5.0]

EXACT = [False]     # switched on where the operations of the property do no rounding on values like YVALS
TINY = [False]      # switched on where near ties of values matter and nothing divides by a difference of values
E40, E20 = 2.0 ** -40, 2.0 ** -20
TVALS = [NAN, 0.0, E40, -E40, 1.0, 1.0 + E40, 1.0 - E40, 1.0 + E20, 2.0, 2.0 + E20, -1.0, -1.0 - E40]
YVALS = [NAN, 0.0, 2.0 ** -60, -2.0 ** -60, 2.0 ** -59, 2.0 ** -70]
WVALS = [NAN, 0.0, 1.0, 100.0, -300.0, 4096.0, 255.0, 256.0, 0.015625, -0.015625, 70000.0]


def all_pfs(points=(0, 2), vals=VALS):
    out = []
    for n in range(len(points) + 1):
        for pts in itertools.combinations(points, n):
            for vs in itertools.product(vals, repeat=n + 1):
                p = PF(vs[0], zip(pts, vs[1:]))
                if len(p.xs) == n:
                    out.append(p)
    return out


def rand_pf(rng, maxn=6, grid=8, nan=True, minn=0, vals=None):
    n = rng.randint(minn, maxn)
    pts = sorted(rng.sample(range(0, 2 * grid, 2), min(n, grid)))
    if vals is None and maxn >= 4:      # now and then: step points below 0, spread out, many of them, larger values
        t = rng.random()
        if t < .08:
            pts = [p - 10 for p in pts]
        elif t < .11:
            pts = [13 * p - 40 for p in pts]
        elif t < .115:
            pts = sorted(rng.sample(range(-20, 400, 2), rng.randint(66, 150)))
        elif t < .17:
            vals = WVALS
        elif TINY[0] and t < .21:
            vals = TVALS
        elif EXACT[0] and t < .27:
            vals = YVALS
    vals = vals or RVALS
    pool = vals if nan else [v for v in vals if v == v]
    prev = rng.choice(pool)
    init, steps = prev, []
    for p in pts:
        while True:
            v = rng.choice(pool)
            if not (v == prev or (v != v and prev != prev)):
                break
        steps.append((p, v))
        prev = v
    return PF(init, steps)


def rand_operand(rng, closed="left", **kw):
    return mk(rand_pf(rng, **kw), rng.choice(ROUTES + ["intvalues"]), rng.choice(FORMS), closed)


def rand_cfg(rng):
    return rng.choice(DOM_NAMES if rng.random() < .88 else FLAVOURS), rng.choice(["left", "right"])


SCALARS = [0.0, 1.0, -2.0, 3.0, 0.5, NAN]


def rand_scalar(rng):
    return {"scalar": jv(rng.choice(SCALARS)), "type": rng.choice(["int", "float", "np", "npint", "np32", "npuint", "bool"])}
