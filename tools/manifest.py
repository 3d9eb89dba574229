#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
MODE = {"asan": "AddressSanitizer+UBSan+libstdc++ assertions", "asan_nd": "the same with NDEBUG", "tsan": "ThreadSanitizer",
        "plain": "uninstrumented build"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c 'import checks, run'",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        tech = c.get("technique", "runtime monitoring: online checker against a reference model") 
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "technique": tech + "; executions under " + ", ".join(MODE[x] for x in c["modes"]) +
                         ("; injected scheduling delays" if c.get("delay") else ""),
            "level": "exploration",
            "level_note": "Holds on the executions observed: " + c["rule"] + "." +
                          ("" if not c.get("assumptions") else " Assumes: " + "; ".join(c["assumptions"]) + ".")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
