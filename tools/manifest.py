#!/usr/bin/env python3
"""writes MANIFEST.json from the properties that have harness entries"""
import json, re, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
claimed = set()
for f in glob.glob(H + "/harness/src/c*.rs"):
    claimed |= set(re.findall(r'harness!\(\w+, \w+, "(C\d\d)"', open(f).read()))
NOTE = ("Holds for every value of the symbolic inputs within the bounds listed per entry in the evidence file, on the LLVM IR rustc produces from /repo's current source. "
        "Trusted: the symbolic executor in /verif/engine (cross-checked on sampled paths against the native build in every run), z3, rustc's translation, and the models of allocation, hashing seed and output streams described in DESIGN.md. "
        "Nothing is claimed beyond the bounds.")
TECH = "symbolic execution of the real code's LLVM IR with SMT (z3) deciding every branch and assertion; counterexamples replayed natively"
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"], "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in props if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in claimed]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
