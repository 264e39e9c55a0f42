"""Regenerates MANIFEST.json (committed); not run by checks."""
import json
PROVED = json.load(open("levels.json"))
T_RT = "contracts checked at run time on the real code (bounded stand-in), small-scope exhaustive + seeded"
checks = []
for l in open("properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    lv = PROVED.get(p, {})
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": lv.get("technique", T_RT), "level": lv.get("level", "exploration"),
                   "level_note": lv.get("note", "Bounded run-time contract checking only; see DESIGN.md.")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed: /repo carries fix: commits only. See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
