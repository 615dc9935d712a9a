"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "bin", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/ checked with TLC; harness/ binds them to the code in /repo (built from its working tree on every run). No hooks in /repo: the harness reads state through the classes' own members and link-time wrapping."}
for p in props:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": T[p]["technique"], "level": "model_checking", "level_note": T[p]["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "not claimed: the check for this property is still being built"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
