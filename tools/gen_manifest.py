#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTES = json.load(open(H + "/tools/notes.json"))
B = H + "/tools/bounds.json"  # the quick tier's bounds, as the harnesses state them in their evidence
bnd = json.load(open(B)) if os.path.exists(B) else {}
def bounds(i):
    e = H + "/evidence/%s.json" % i
    if os.path.exists(e):
        e = json.load(open(e))
        if e["tier"] == "quick":
            bnd[i] = e["coverage"]["bounds"].strip().rstrip(".") + "."
    return bnd[i]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/harness/%s.cpp" % i.lower()):
        t, n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": "model_checking",
            "level_note": "Bounds: " + bounds(i) + " " + n,
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "MC_RNG", "enable": "none needed in /repo: checks compile /repo's sources with -include mc/shim.hpp -DMC_RNG, which substitutes the random engine", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Explicit exploration of the real code (stateless model checking); see DESIGN.md.",
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
json.dump(bnd, open(B, "w"), indent=0)
