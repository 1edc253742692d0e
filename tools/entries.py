#!/usr/bin/env python3
"""writes ENTRIES.md from the harness registry of the last build"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.loads(subprocess.run([H + "/build/native/replay/replay", "--list"], stdout=subprocess.PIPE, text=True).stdout)
with open(H + "/ENTRIES.md", "w") as f:
    f.write("# Harness entries and their bounds (generated by tools/entries.py)\n\n| property | entry | cases quick | thorough adds | bounds |\n|---|---|---|---|---|\n")
    for h in sorted(r, key=lambda h: h["prop"]):
        n = lambda x: " ".join("%d-%d" % (a, b - 1) for a, b in x) or "none"
        f.write("| %s | %s | %s | %s | %s |\n" % (h["prop"], h["name"], n(h["quick"]), n(h["thorough"]), h["bounds"].replace("|", "/")))
