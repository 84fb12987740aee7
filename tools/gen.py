#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from properties.py (the one place they are edited)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows, checks, man, na = [], {}, [], []
for p in P.PROPS:
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p.get("observe", []), "hook_needed": None}})
    assert len(p["title"]) <= 80, p["title"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks[p["id"]] = p["check"]
    man.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                "level": "exploration", "level_note": p["note"]})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(r) + "\n" for r in rows))
json.dump(checks, open(V + "/checks.json", "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": man, "not_applicable": na,
           "notes": "No hooks in /repo: the library is compiled with -fsanitize=thread and linked against the simulator's own runtime, which "
                    "is the seam for threads, atomics, allocation, initialisation guards, entropy and clocks. KNOWN_FINDINGS lists "
                    "repaired and recorded defects."},
          open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for f, s in (("MANIFEST.json", "MANIFEST"),):
        jsonschema.validate(json.load(open(V + "/" + f)), json.load(open("/root/.vp/%s.schema.json" % s)))
    for r in rows:
        jsonschema.validate(r, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
print(len(rows), "properties,", len(man), "checks")
