"""Domains, construction routes and observation of real Stairs objects."""
import math
import operator
import warnings

import numpy as np
import pandas as pd

import staircase as sc
from .pf import PF, NAN, isnan, same

warnings.simplefilter("ignore")
inf = sc.inf


class Dom:
    """abstract coordinate k  <->  label ; unit = length of one abstract step"""

    def __init__(self, name, label, unlabel, unit, index):
        self.name, self.label, self.unlabel, self.unit, self._index = name, label, unlabel, unit, index

    def len_to(self, dx):
        """length in abstract units of a real length"""
        if isinstance(self.unit, (int, float)):
            return float(dx) / self.unit
        return pd.Timedelta(dx) / self.unit

    def length(self, k):
        return k * self.unit

    def index(self, ks):
        return self._index([self.label(k) for k in ks])

    @property
    def datetimelike(self):
        return not isinstance(self.unit, (int, float))


H = pd.Timedelta("1h")
NS7 = pd.Timedelta(7 - 3 * H.value, "ns")


def _tsdom(name, origin):
    o = pd.Timestamp(origin) if not isinstance(origin, pd.Timestamp) else origin
    return Dom(
        name,
        lambda k: o + k * H,
        lambda t: _num((pd.Timestamp(t) if o.tz is not None or not hasattr(t, "tzinfo") else t) - o, H),
        H,
        lambda ls: pd.DatetimeIndex(ls),
    )


def _num(d, unit):
    q = d / unit
    r = round(q)
    return int(r) if r == q else float(q)


def _numf(x):
    x = float(x)
    return int(x) if x == int(x) else x


DOMS = {
    "int": Dom("int", lambda k: k, _numf, 1, lambda ls: pd.Index(ls)),
    "float": Dom("float", lambda k: float(k), _numf, 1.0, lambda ls: pd.Index(ls, dtype="float64")),
    "mix": Dom("mix", lambda k: k // 2 if k == int(k) and k % 2 == 0 else k / 2, lambda x: _numf(2 * x), 0.5, lambda ls: pd.Index(ls)),
    "ts": _tsdom("ts", "1969-12-31 21:00:00.000000123"),     # odd nanoseconds, on both sides of the epoch
    "tsh": _tsdom("tsh", "2020-01-01 06:00"),
    "tz": _tsdom("tz", pd.Timestamp("2020-01-01 06:00", tz="Etc/GMT-5")),
    "dst": _tsdom("dst", pd.Timestamp("2020-04-04 23:00", tz="Australia/Adelaide")),
    "td": Dom("td", lambda k: k * H, lambda t: _num(pd.Timedelta(t), H), H,
              lambda ls: pd.TimedeltaIndex(ls)),
    "tdn": Dom("tdn", lambda k: k * H + NS7, lambda t: _num(pd.Timedelta(t) - NS7, H), H,
               lambda ls: pd.TimedeltaIndex(ls)),
}
DOM_NAMES = list(DOMS)


def _flavour(name, base, conv, dconv=lambda d: d, index=None):
    """the same labels as other Python / numpy scalars"""
    b = DOMS[base]
    d = Dom(name, lambda k: conv(b.label(k)), b.unlabel, b.unit, lambda ls: b._index([pd.Timestamp(l) if base in ("ts", "tsh", "tz") else l for l in ls]))
    d.length = lambda k: dconv(b.length(k))
    DOMS[name] = d


_flavour("ts64", "ts", lambda l: l.to_datetime64(), lambda d: d.to_timedelta64())
_flavour("tspy", "tsh", lambda l: l.to_pydatetime(), lambda d: d.to_pytimedelta())
_flavour("tzpy", "tz", lambda l: l.to_pydatetime(), lambda d: d.to_pytimedelta())
_flavour("td64", "tdn", lambda l: l.to_timedelta64(), lambda d: d.to_timedelta64())
_flavour("tdpy", "td", lambda l: l.to_pytimedelta(), lambda d: d.to_pytimedelta())
_flavour("i64", "int", lambda l: np.int64(l) if l == int(l) else l, np.int64)
_flavour("f64", "float", np.float64, np.float64)
_flavour("i32", "int", lambda l: np.int32(l) if l == int(l) else l, np.int32)
FLAVOURS = [d for d in DOMS if d not in DOM_NAMES]


def jv(v):
    """json encode a value"""
    if isinstance(v, float) and isnan(v):
        return "nan"
    return v


def uv(v):
    return NAN if v == "nan" else v


# ---- operand specs --------------------------------------------------------------------
# {"init": v, "steps": [[k, v]...], "route": r, "form": f, "closed": c}
# {"scalar": v, "type": "int|float|np"}
ROUTES = ["values", "layers", "vector", "frame", "copy", "sum", "double_neg", "fill", "cancel"]
FORMS = ["raw", "values", "deltas", "both"]


def op_pf(o):
    if "scalar" in o:
        return PF(uv(o["scalar"]))
    return PF(uv(o["init"]), [(k, uv(v)) for k, v in o["steps"]])


def mk(pf, route="values", form="raw", closed="left"):
    return {"init": jv(pf.init), "steps": [[k, jv(v)] for k, v in zip(pf.xs, pf.vs)],
            "route": route, "form": form, "closed": closed}


def _scalar(o):
    v = uv(o["scalar"])
    t = o.get("type", "float")
    if t == "int" and not isnan(v) and v == int(v):
        return int(v)
    if t == "np":
        return np.float64(v)
    if t == "np32":
        return np.float32(v)
    if t == "npuint" and not isnan(v) and v == int(v) and v >= 0:
        return np.uint8(v)
    if t == "npint" and not isnan(v) and v == int(v):
        return np.int64(v)
    if t == "bool" and v in (0, 1):
        return bool(v)
    return float(v)


def build(o, dom):
    """Build the real object for an operand spec."""
    if "scalar" in o:
        return _scalar(o)
    pf = op_pf(o)
    s = _build(pf, o.get("route", "values"), dom, o.get("closed", "left"))
    form = o.get("form", "raw")
    if form in ("values", "both"):
        s.step_values
    if form in ("deltas", "both"):
        s.step_changes
    return s


def _iv(v):
    """int when exactly representable as such (exercises int dtypes)"""
    return int(v) if (not isnan(v) and v == int(v)) else v


def _from_values(pf, dom, closed, intdtype=False):
    if not pf.xs:
        return sc.Stairs(initial_value=pf.init if isnan(pf.init) else _iv(pf.init), closed=closed)
    allint = all((not isnan(v)) and v == int(v) for v in pf.vs)
    vals = [int(v) for v in pf.vs] if (intdtype and allint) else pf.vs
    return sc.Stairs.from_values(initial_value=pf.init, values=pd.Series(vals, index=dom.index(pf.xs)), closed=closed)


def _ld_filled(pf):
    """everywhere-defined completion + indicator of undefinedness"""
    base, last = [], 0.0 if isnan(pf.init) else pf.init
    i0 = last
    for x, v in zip(pf.xs, pf.vs):
        if not isnan(v):
            last = v
        base.append((x, last))
    return PF(i0, base), pf.map(lambda v: 1.0 if isnan(v) else 0.0)


def _layered(pf, dom, closed, how):
    base, ind = _ld_filled(pf)

    def lay(p):
        s = sc.Stairs(initial_value=_iv(p.init), closed=closed)
        prev = p.init
        trip = []
        for x, v in zip(p.xs, p.vs):
            trip.append((x, _iv(v - prev)))
            prev = v
        if not trip:
            if how == "vector":  # leaves a numpy initial value behind
                x = dom.label(0)
                s.initial_value = s.initial_value - 1
                s.layer([None, x], [None, dom.label(2)], [1, 1]).layer([x], [dom.label(2)], [-1])
            return s
        if how == "layers":
            # reverse order, mixture of start-only and end-only layers
            for i, (x, j) in enumerate(reversed(trip)):
                if i % 2 == 0:
                    s.layer(start=dom.label(x), value=j)
                else:
                    s.layer(end=dom.label(x), value=-j)
                    s.layer(value=j)
        elif how == "vector":
            s.layer([dom.label(x) for x, _ in reversed(trip)], None, [j for _, j in reversed(trip)])
        elif how == "frame":
            df = pd.DataFrame({"a": dom.index([x for x, _ in trip]), "v": [j for _, j in trip]},
                              index=range(10, 10 + len(trip)))
            s.layer("a", None, "v", df)
        return s

    s = lay(base)
    if ind.xs or ind.init:
        if not ind.xs and ind.init == 1:
            return sc.Stairs(initial_value=NAN, closed=closed)
        s = s.mask(lay(ind)) if ind.xs else s
    return s


def _build(pf, route, dom, closed):
    if route == "values" or any(0 < abs(v) < 2.0 ** -44 for v in [pf.init] + list(pf.vs)):   # no rounding on the way
        return _from_values(pf, dom, closed)
    if route == "intvalues":
        return _from_values(pf, dom, closed, True)
    if route in ("layers", "vector", "frame"):
        return _layered(pf, dom, closed, route)
    if route == "copy":
        return _from_values(pf, dom, closed).copy()
    if route == "double_neg":
        return -(-_layered(pf, dom, closed, "vector"))
    if route == "sum":
        half = pf.map(lambda v: v / 2)
        return _from_values(half, dom, closed) + _layered(half, dom, closed, "vector")
    if route == "fill":   # restrict a bigger function
        filled, ind = _ld_filled(pf)
        return _from_values(filled, dom, closed).where(_from_values(ind, dom, closed) == 0)
    if route == "cancel":  # extra layers that cancel exactly
        s = _layered(pf, dom, closed, "layers")
        if pf.defined_everywhere():
            pts = pf.xs or [0]
            s.layer(dom.label(pts[0]), dom.label(pts[-1] + 3), 2)
            s.layer([dom.label(pts[0])], [dom.label(pts[-1] + 3)], [-2])
        return s
    raise KeyError(route)


# ---- observation ------------------------------------------------------------------------
class Malformed(Exception):
    pass


def _lab(dom, x):
    return dom.unlabel(x)


def obs_rows(s, dom):
    """raw piece table: (init, [(k, v)])"""
    fr = s.to_frame()
    starts, ends, vals = list(fr["start"]), list(fr["end"]), list(fr["value"])
    if starts[0] is not sc.inf.__neg__() and not starts[0] == -sc.inf:
        raise Malformed("first row does not start at -inf: %r" % (starts,))
    if ends[-1] is not sc.inf:
        raise Malformed("last row does not end at inf")
    for a, b in zip(ends[:-1], starts[1:]):
        if not a == b:
            raise Malformed("rows do not tile")
    ks = [_lab(dom, x) for x in starts[1:]]
    for a, b in zip(ks, ks[1:]):
        if not a < b:
            raise Malformed("step points not strictly increasing: %r" % ks)
    vv = []
    for v in vals:
        if v is None or isinstance(v, str):
            raise Malformed("value %r" % (v,))
        v = float(v)
        if math.isinf(v):
            raise Malformed("infinite value")
        vv.append(v)
    return vv[0], list(zip(ks, vv[1:]))


def obs(s, dom, minimal=False):
    if not isinstance(s, sc.Stairs):
        raise Malformed("not a Stairs: %r" % (s,))
    init, rows = obs_rows(s, dom)
    pf = PF(init, rows)
    if minimal and len(pf.xs) != len(rows):
        raise Malformed("not minimal: init=%r rows=%r" % (init, rows))
    return pf


def obs_eval(s, dom, pf):
    """check that limit() agrees with the piece table"""
    for k in query_points(pf):
        lab = dom.label(k)
        r, l = s.limit(lab, "right"), s.limit(lab, "left")
        if not same(float(r), pf.at(k)) or not same(float(l), pf.before(k)):
            raise Malformed("limit(%r) = (%r, %r), table says (%r, %r)" % (k, l, r, pf.before(k), pf.at(k)))


def query_points(pf):
    xs = pf.xs or [0]
    q = [xs[0] - 1]
    for a, b in zip(xs, xs[1:]):
        q += [a, (a + b) / 2 if (a + b) % 2 else (a + b) // 2]
    return q + [xs[-1], xs[-1] + 1]
