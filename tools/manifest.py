#!/usr/bin/env python3
"""writes MANIFEST.json; the claimed properties are those listed here"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                            "technique": "contract-based deductive verification (VC generation over go/ssa of the real code, discharged by z3/cvc5)",
                            "level": "proof", "level_note": CLAIMS[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
