#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the table below
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "claims.py")).read())
TECH = "contract-based deductive verification of the Go source (own verification condition generator, z3/cvc5), failing obligations replayed on the real engine"
checks, na = [], []
for p in props:
    if p["id"] in CLAIMS:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": TECH, "level": "proof", "level_note": CLAIMS[p["id"]]})
    else:
        na.append({"property": p["id"], "reason": NOT.get(p["id"], "no contracts written for it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: the verifier reads /repo's sources, the harness is overlaid (go test -overlay)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
