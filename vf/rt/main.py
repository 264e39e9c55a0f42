"""Bounded run-time contract checking: runs the contracts of a property on the real code.

  python -m vf.rt.main PROP --scale S --seed N --deadline SEC --procs P   -> one JSON line
  python -m vf.rt.main PROP --replay FILE                                  -> replays one case
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

MODULES = {**{p: "c01_07" for p in ("C01", "C04", "C05", "C06", "C07")}, **{p: "c_struct" for p in ("C02", "C03")},
           **{p: "c_stats" for p in ("C08", "C09", "C10", "C11", "C18", "C19", "C20")},
           **{p: "c_prog" for p in ("C12", "C16", "C17")}, **{p: "c_state" for p in ("C13", "C14", "C15")}}


NEAR_TIES = ["C%02d" % i for i in range(1, 21) if i != 19]
EXACT = ("C03", "C04", "C05", "C06", "C07", "C10")


def load(prop):
    repo = os.environ.get("VF_REPO", "/repo")
    sys.path.insert(0, repo)
    import staircase
    if not os.path.realpath(staircase.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit("staircase imported from %s" % staircase.__file__)
    return importlib.import_module("vf.rt." + MODULES[prop])


class Case(dict):
    """a case; a missing entry is a fault of the case, not of the code under test"""

    def __missing__(self, k):
        raise BadCase(k)


class BadCase(Exception):
    pass


def run_case(mod, case):
    """None or a message"""
    if case["kind"] not in mod.CHECKS:
        return None                       # another property's case
    try:
        return mod.CHECKS[case["kind"]](Case(case))
    except BadCase as e:
        print("incomplete case: no %s in %s" % (e, json.dumps(case)[:300]), file=sys.stderr)
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((t for t in reversed(tb) if "/staircase/" in t.filename), None)
        at = " at %s:%s" % (where.filename.split("/staircase/", 1)[1], where.name) if where else ""
        return "raised %s: %s%s" % (type(e).__name__, str(e)[:200], at)


def trivial(case):
    """no operand in the case has a step"""
    return '"steps": [[' not in json.dumps(case)


def worker(args):
    prop, scale, seed, deadline, i, n, t0 = args
    mod = load(prop)
    rng = random.Random("%s/%s" % (prop, seed))
    gen = importlib.import_module("vf.rt.gen")
    gen.TINY[0], gen.EXACT[0] = prop in NEAR_TIES, prop in EXACT
    out = {"evals": 0, "seen": [], "fails": [], "truncated": False, "kinds": {}, "samples": []}
    for j, case in enumerate(mod.cases(prop, rng, scale)):
        if j % n != i:
            continue
        if time.time() - t0 > deadline:
            out["truncated"] = True
            break
        key = json.dumps(case, sort_keys=True)
        out["evals"] += 1
        out["kinds"][case["kind"]] = out["kinds"].get(case["kind"], 0) + 1
        if not trivial(case):
            out["seen"].append(hashlib.md5(key.encode()).hexdigest()[:16])
            if len(out["samples"]) < 1:
                out["samples"].append(case)
        m = run_case(mod, case)
        if m:
            out["fails"].append((len(key), case, m))
            if len(out["fails"]) > 40:
                break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--deadline", type=float, default=600)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--cases", help="file with a JSON list of cases to run instead of generating")
    a = ap.parse_args()
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        m = run_case(load(a.prop), case)
        print(json.dumps({"case": case, "message": m}))
        sys.exit(1 if m else 0)
    if a.cases:
        mod = load(a.prop)
        print(json.dumps([run_case(mod, c) for c in json.load(open(a.cases))]))
        return
    t0 = time.time()
    ctx = mp.get_context("spawn")
    jobs = [(a.prop, a.scale, a.seed, a.deadline, i, a.procs, t0) for i in range(a.procs)]
    with ctx.Pool(a.procs) as pool:
        res = pool.map(worker, jobs)
    fails = sorted((f for r in res for f in r["fails"]), key=lambda f: (f[0], f[2]))
    kinds = {}
    for r in res:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    print(json.dumps({
        "evaluations": sum(r["evals"] for r in res), "distinct_nontrivial": len({h for r in res for h in r["seen"]}),
        "kinds": kinds, "truncated": any(r["truncated"] for r in res), "n_fails": len(fails), "wall": round(time.time() - t0, 2),
        "samples": [s for r in res for s in r["samples"]][:3], "fails": [{"case": c, "message": m} for _, c, m in fails[:25]]}))


if __name__ == "__main__":
    main()
