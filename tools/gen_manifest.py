#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses that exist."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/h/*.go"):
    have |= {m[:3] for m in re.findall(r"^func (C\d\d_\w+)\(", open(f).read(), re.M)}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check executes /repo's current source symbolically (Go SSA) and asks z3; see DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the repository's Go SSA, decided by an SMT solver (z3); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs within the bounds listed in the evidence file (all paths explored unless it says truncated); trusts the symbolic executor, its models of the standard library and of the cryptographic primitives (ideal), and z3. Path summaries are validated against native runs of the real code.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks;", [n["property"] for n in m["not_applicable"]])
