"""Deductive check of one property:  python3-vt -m vf.sym.main C01 --tier quick --out FILE

Runs the tasks (function x operand forms) the property depends on, in parallel, and writes the
obligations with their status.
"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time

from . import tasks

PER_TASK = {"quick": 60, "thorough": 900}
BUDGET = {"quick": 200, "thorough": 3000}
STOP_AFTER = 4
WORSE = {"proved": 0, "unknown": 1, "failed": 2}


def work(job):
    src, cats, deadline, per = job
    now = time.time()
    if now >= deadline or STOP.value >= STOP_AFTER:
        return {"name": src, "function": "", "skipped": True}
    from . import contracts, runner
    signal.signal(signal.SIGALRM, _hard)
    d = min(deadline, now + per)
    signal.alarm(int(d - now) + 20)
    try:
        body, _, sh = src.partition("#")
        shard = tuple(int(x) for x in sh.split("/")) if sh else (0, 1)
        r = runner.run_task(tasks.make(body), d, cats, shard=shard)
    except _Hard:
        return {"name": src, "function": "", "skipped": True}
    finally:
        signal.alarm(0)
    if any(c["status"] == "failed" for c in r["clauses"].values()):
        with STOP.get_lock():
            STOP.value += 1
    r["src"] = src
    return r


class _Hard(BaseException):
    pass


def _hard(*a):
    raise _Hard()


def _init(stop):
    global STOP
    STOP = stop


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = a.budget or BUDGET[tier]
    deadline = t0 + budget
    cats, srcs = tasks.plan(a.prop, tier)
    stop = mp.get_context("fork").Value("i", 0)
    res = []
    done = set()
    with mp.get_context("fork").Pool(min(a.jobs, max(1, len(srcs))), _init, (stop,)) as pool:
        it = pool.imap_unordered(work, [(s, cats, deadline, PER_TASK[tier]) for s in srcs], chunksize=1)
        while len(res) < len(srcs):
            try:
                r = it.next(timeout=max(1, deadline + 40 - time.time()))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            res.append(r)
            done.add(r.get("src", r["name"]))
        pool.terminate()
    obl, unsup, by, fns, paths, solver = {}, [], {}, set(), 0, 0.0
    partial = {src.partition("#")[0] for src in srcs if src not in done}
    partial |= {r["src"].partition("#")[0] for r in res if not r.get("skipped") and r["unsupported"]}
    partial |= {r["name"].partition("#")[0] for r in res if r.get("skipped")}
    for s in srcs:
        if s not in done:
            unsup.append(s + ": ran out of time")
    for r in res:
        if r.get("skipped"):
            unsup.append(r["name"] + ": ran out of time" if stop.value < STOP_AFTER else r["name"] + ": not attempted after earlier failures")
            continue
        paths += r["paths"]
        solver += r.get("solver_s", 0)
        if r["unsupported"]:
            unsup.append("%s: %s" % (r["name"], r["unsupported"]))
        for k, c in sorted(r["clauses"].items()):
            if r["src"].partition("#")[0] in partial and c["status"] == "proved":
                continue                      # not all paths were seen
            st = {"proved": "proved", "failed": "failed", "open": "unknown", "timeout": "unsupported"}[c["status"]]
            if st == "unsupported":
                unsup.append("%s: no decision within the time given" % k)
                continue
            o = obl.setdefault(k, {"name": k, "status": st, "function": r["function"], "category": c["cat"], "instances": 0, "soft": True,
                                   "detail": "", "cases": []})
            o["instances"] += c["n"]
            if st != "proved":
                o["soft"] = o["soft"] and c.get("soft", False)
            if WORSE[st] > WORSE[o["status"]]:
                o["status"] = st
            o["detail"] = (o["detail"] + c["detail"])[:3000]
            o["cases"] = (o["cases"] + c["cases"])[:100]
    # a clause undecided on some path is not discharged
    und = {u.split(": no decision")[0] for u in unsup}
    obl = [o for k, o in obl.items() if not (o["status"] == "proved" and k in und)]
    for o in obl:
        b = by.setdefault(o["function"], {"discharged": 0, "not": 0})
        b["discharged" if o["status"] == "proved" else "not"] += 1
        fns.add(o["function"])
    out = {"obligations": obl, "functions": sorted(fns), "by_function": by, "paths": paths, "solver_s": round(solver, 1),
           "unsupported": unsup, "backend": "z3 (python bindings %s)" % _z3(), "trusted_base": tasks.TRUSTED, "assumptions": tasks.ASSUMED,
           "vacuity": "every task counted reached at least one feasible path whose assumptions are satisfiable; %d paths in all" % paths,
           "wall_s": round(time.time() - t0, 1)}
    txt = json.dumps(out, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    bad = [o for o in obl if o["status"] != "proved"]
    print(a.prop, "%d/%d obligations, %d paths, %d undecided, %.1f s" % (len(obl) - len(bad), len(obl), paths, len(unsup), out["wall_s"]))
    for o in bad:
        print("  ", o["status"], o["name"], o["detail"][:300], len(o["cases"]))
    for u in unsup:
        print("   -", u[:250])


def _z3():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
