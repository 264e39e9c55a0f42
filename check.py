#!/usr/bin/env python3
"""Entry point of every check:  check.py Cxx [--tier quick|thorough] [--replay FILE]

Runs (1) the deductive engine (vf/sym, python3-vt) on the functions the property depends on
and (2) the bounded run-time contract checks (vf/rt, /opt/venv) on the real code in /repo,
writes evidence/Cxx.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
RTPY, VTPY = "/opt/venv/bin/python", "python3-vt"
# scale of the bounded checks (quick); thorough multiplies by THOROUGH
SCALE = {"C01": 1.2, "C02": 4, "C03": 4, "C04": 1.2, "C05": 1.3, "C06": 1, "C07": 1, "C08": 4, "C09": 5, "C10": 1.6, "C11": 3,
         "C12": 1.1, "C13": 2, "C14": 1.3, "C15": 3.5, "C16": 2.5, "C17": 1.2, "C18": 1.5, "C19": 1.3, "C20": 4}
THOROUGH = 12
LEVEL = {k: v["level"] for k, v in json.load(open(os.path.join(HERE, "levels.json"))).items()}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
             MPLCONFIGDIR=tempfile.gettempdir(), PYTHONPATH=HERE, PYTHONHASHSEED="0", TZ="UTC", VF_REPO=REPO)
    return e


def rt(args, timeout):
    r = subprocess.run([RTPY, "-m", "vf.rt.main"] + args, cwd=HERE, env=env(), capture_output=True, text=True, timeout=timeout)
    line = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    try:
        return json.loads(line), r.returncode
    except ValueError:
        return {"error": (r.stderr or r.stdout)[-3000:]}, r.returncode


def sym_start(prop, tier):
    if not os.path.exists(os.path.join(HERE, "vf", "sym", "main.py")):
        return None
    out = tempfile.NamedTemporaryFile("w+", delete=False, suffix=".json")
    p = subprocess.Popen([VTPY, "-m", "vf.sym.main", prop, "--tier", tier, "--out", out.name], cwd=HERE, env=env(),
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out.name


def sym_wait(h, timeout):
    if h is None:
        return None
    p, name = h
    try:
        _, err = p.communicate(timeout=timeout)
        with open(name) as f:
            txt = f.read()
        return json.loads(txt) if txt.strip() else {"error": err[-3000:]}
    except subprocess.TimeoutExpired:
        p.kill()
        return {"error": "deductive engine timed out"}
    finally:
        os.unlink(name)


def save_replay(prop, rec):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    key = hashlib.md5(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, key))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", choices=["rt", "sym"])
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        rec = json.load(open(a.replay))
        if "case" not in rec:
            print(json.dumps(rec, indent=1)[:20000])
            return 1
        r, _ = rt([prop, "--replay", a.replay], 300)
        print(json.dumps(r, indent=1))
        return 1 if r.get("message") or r.get("error") else 0
    t0 = time.time()
    quick = tier != "thorough"
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop]
    h = None if a.only == "rt" else sym_start(prop, tier)
    scale = SCALE[prop] * (1 if quick else THOROUGH)
    b = {"evaluations": 0, "distinct_nontrivial": 0, "kinds": {}, "samples": [], "fails": [], "n_fails": 0, "truncated": False}
    if a.only != "sym":
        b, _ = rt([prop, "--scale", str(scale), "--seed", str(seed), "--deadline", "240" if quick else "3600"],
                  600 if quick else 7200)
    s = sym_wait(h, 500 if quick else 7200)
    errors = [b["error"]] if "error" in b else []
    engine_error = (s or {}).get("error")      # the bounded checks decide alone; the evidence says so

    violations, notes = [], []
    # ---- deductive obligations
    obl = (s or {}).get("obligations", [])
    failed = [o for o in obl if o["status"] in ("failed", "unknown")]
    soft = []
    for o in failed:
        cases = o.get("cases", [])
        hit = None
        if cases:
            with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
                json.dump(cases, f)
            msgs, _ = rt([prop, "--cases", f.name], 300)
            if isinstance(msgs, list) and prop == "C17" and any(msgs):
                # the domains differ only when the same case holds with numbers for labels
                with open(f.name, "w") as g:
                    json.dump([dict(c, dom="float") for c in cases], g)
                plain, _ = rt([prop, "--cases", f.name], 300)
                msgs = [m and not p and m for m, p in zip(msgs, plain)] if isinstance(plain, list) else []
            os.unlink(f.name)
            if isinstance(msgs, list):
                hit = next(((c, m) for c, m in zip(cases, msgs) if m), None)
        rec = {"property": prop, "obligation": o["name"], "status": o["status"], "function": o.get("function"), "detail": o.get("detail")}
        if hit:
            rec.update(case=hit[0], message=hit[1])
            violations.append((rec, False))
        elif o["status"] == "unknown":
            soft.append(o["name"] + ": not decided (no inductive invariant found, no counterexample up to 5 events, and no input fails)")
        elif o.get("soft"):
            soft.append(o["name"] + ": not decided (the callee contracts leave the outcome open, and no input fails)")
        else:
            violations.append((rec, True))
    undecided = {x.split(": not decided (")[0] for x in soft}
    failed = [o for o in failed if o["name"] not in undecided]
    # ---- bounded checks
    for f in b.get("fails", []):
        violations.append(({"property": prop, "case": f["case"], "message": f["message"]}, False))
    # ---- listed findings
    for k in known:
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(k["cases"], f)
        msgs, _ = rt([prop, "--cases", f.name], 120)
        os.unlink(f.name)
        if isinstance(msgs, list):
            for c, m in zip(k["cases"], msgs):
                if m and any(m.startswith(p) for p in k["message_prefix"]):
                    notes.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["what"], m))
                elif m:
                    violations.append(({"property": prop, "case": c, "message": m}, False))

    # a failing input, when one exists anywhere, is the better report of a failed obligation
    concrete = [v for v in violations if not v[1]]
    lines = []
    for rec, noinput in (concrete[:5] or violations[:5]):
        if concrete and failed:
            rec = dict(rec, failed_obligations=[o["name"] for o in failed][:20])
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, save_replay(prop, rec), " no-failing-input-found" if noinput else ""))

    # ---- evidence
    ndis = sum(o["status"] == "proved" for o in obl)
    level = LEVEL.get(prop, "exploration") if ndis and not errors else "exploration"
    cov = {"evaluations": b.get("evaluations", 0), "distinct_nontrivial": b.get("distinct_nontrivial", 0),
           "rule": "bounded run-time contract checks on the real code: small-scope exhaustive core plus VERIF_SEED-seeded random "
                   "operands over domains x closed sides x construction routes x materialised forms x scalar types; a case is "
                   "non-trivial when at least one operand has a step point; distinctness by content hash",
           "samples": b.get("samples", []), "bounded_kinds": b.get("kinds", {}), "bounded_truncated": b.get("truncated", False)}
    if s and "error" not in s:
        cov.update(obligations=len(obl), discharged=ndis, checker_cmd="python3-vt -m vf.sym.main %s --tier %s --out FILE" % (prop, tier),
                   trusted_base=s.get("trusted_base", []), functions_under_contract=s.get("functions", []),
                   obligations_by_function=s.get("by_function", {}), solver_s=s.get("solver_s"), paths=s.get("paths"),
                   backend=s.get("backend"), outside_reach=s.get("unsupported", []) + soft, obligation_samples=[o["name"] for o in obl[:5]],
                   failed_obligations=[o["name"] for o in failed][:20], vacuity=s.get("vacuity"))
    if engine_error:
        cov["deductive_engine_error"] = engine_error
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (s or {}).get("assumptions", []) + ["values in the bounded checks are dyadic rationals of small magnitude"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n in notes:
        print(n)
    for l in lines:
        print(l)
    for rec, _ in (concrete[:2] or violations[:2]):
        print("  " + (rec.get("message") or rec.get("obligation") or "")[:400])
    if errors and not lines:
        print("ERROR " + errors[0])
        return 2
    if not lines:
        print("%s ok: %d/%d obligations discharged, %d bounded evaluations, %.1f s" % (prop, ndis, len(obl), cov["evaluations"], ev["wall_s"]))
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
