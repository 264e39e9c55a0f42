"""Execution of one task: path exploration, discharge, counterexamples."""
import time
import traceback

import z3

from . import contracts, mods, prove
from .core import *

_SC = None


def load():
    global _SC
    if _SC is None:
        _SC = mods.load(contracts.REPO)
    return _SC


def run_task(task, deadline, cats=None, max_cex=2, shard=(0, 1)):
    """-> {"name", "function", "clauses": {clause: {...}}, "paths", "unsupported", ...}

    A clause is proved when it is discharged on every path; `failed` when a path has a
    counterexample or stays open after complete inference; `unknown` on timeout.
    shard (i, n): only every n-th path starting with the i-th."""
    res = {"name": task.name, "function": task.fn, "paths": 0, "clauses": {}, "unsupported": None, "wall": 0, "reach": 0}
    t0 = time.time()
    ncex = 0
    try:
        sc = load()
    except Exception as e:      # the tree uses something at import time the shim does not have
        res["unsupported"] = "import: %s: %s" % (type(e).__name__, str(e)[:300])
        return res

    def run(m):
        return task.execute(sc, m)

    def clause(o):
        c = res["clauses"].setdefault(o.name, {"cat": o.cat, "status": "proved", "n": 0, "cases": [], "detail": ""})
        c["n"] += 1
        return c
    try:
        for k, (m, R) in enumerate(explore(run)):
            Machine.cur = m
            res["reach"] += 1
            if k % shard[1] != shard[0]:
                continue
            res["paths"] += 1
            obls = [o for o in R.obls + [prove.Obligation("%s: %s" % (task.name, n), "event", t, "model") for n, t in m.CHECKS]]
            if cats is not None:
                obls = [o for o in obls if o.cat in cats or o.cat in ("pre", "model")]
            if ncex >= max_cex or time.time() > deadline:
                for o in obls:
                    c = clause(o)
                    if c["status"] == "proved":
                        c["status"], c["detail"] = "timeout", "not attempted"
                continue
            extra = R.extra()

            def refute(o, n):
                b = prove.bmc(m, o, max_events=n)
                if b is None:
                    return False
                c = clause(o)
                c["soft"] = c.get("soft", True) and R.soft
                md, subs, state = b
                c["status"], c["detail"] = "failed", "path %s; counterexample %s" % ([d for d, _ in m.decisions], str(md)[:1500])
                try:
                    cc = contracts.Conc(R, md, subs)
                    c["cases"] += task.mkcases(R, cc) if task.mkcases else []
                except Exception as e:      # replay material only
                    c["detail"] += " (no replay: %r)" % e
                return True
            todo = prove.discharge(m, obls, extra, deadline, levels=(0, 0.5))
            bad = []
            for o in todo:
                if ncex < max_cex and refute(o, 3):
                    ncex += 1
                    bad.append(o)
            todo = [o for o in todo if o not in bad]
            if bad and todo:
                for o in todo:
                    c = clause(o)
                    c["status"] = "timeout" if c["status"] == "proved" else c["status"]
                todo = []
            if todo:
                rest = prove.discharge(m, todo, extra, deadline, levels=(1, 2))
                for o in rest:
                    c = clause(o)
                    if time.time() > deadline or o.status == "timeout":
                        c["status"] = "timeout" if c["status"] == "proved" else c["status"]
                    elif refute(o, 5):
                        ncex += 1
                    else:
                        c["soft"] = c.get("soft", True) and R.soft
                        c["status"] = "open" if c["status"] in ("proved", "timeout") else c["status"]
                        c["detail"] = c["detail"] or "path %s: no inductive invariant found, no counterexample up to 5 events" % [d for d, _ in m.decisions]
            for o in obls:
                if o.status == "proved":
                    clause(o)
        if not res["reach"]:
            res["unsupported"] = "no feasible path"
        for k in [k for k, c in res["clauses"].items() if c["cat"] == "model"]:
            c = res["clauses"].pop(k)
            if c["status"] != "proved":
                res["unsupported"] = "model condition not shown: " + k
    except Unsupported as e:
        res["unsupported"] = str(e)[:300]
    except PathLimit:
        res["unsupported"] = "too many paths"
    except RecursionError:
        res["unsupported"] = "recursion"
    except Exception as e:
        res["unsupported"] = "engine: %s: %s" % (type(e).__name__, traceback.format_exc()[-600:])
    res["wall"] = round(time.time() - t0, 2)
    res["solver_s"], prove.STATS["solver_s"] = round(prove.STATS["solver_s"], 2), 0.0
    return res
