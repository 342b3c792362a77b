#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harnesses present in src/ and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/coverage-notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/src/%s.cpp" % (V, i.lower())):
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": ("stateless exhaustive enumeration of the interleavings of calls and of single preemptions inside a call, on the real code under a controlled scheduler, against the same histories run alone" if i == "C21" else "stateless exhaustive enumeration of bounded operation sequences / input classes on the real code, lock-step against a reference model"),
            "level": "model_checking",
            "level_note": "Exhaustive within the stated bounds: " + n.get("bounds", "see DESIGN.md") +
                          ". Trusts the reference model in src/%s.cpp, the enumeration driver src/mc.hpp and the compiler; results are compared up to rounding." % i.lower(),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\" && g++ --version >/dev/null",
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
