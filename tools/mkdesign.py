#!/usr/bin/env python3-vt
"""Writes /verif/DESIGN.md from tools/design/*, the suite, the known findings and the recorded results on planted bugs."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools", "design"))
from harness.suite import SPEC          # noqa: E402
from props import TEXT                  # noqa: E402


def read(name):
    return open(os.path.join(ROOT, "tools", "design", name)).read()


props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
out = [read("head.md")]
out.append("## 4. Per property\n\nTechnique everywhere: section 1. \"Thorough\" runs the same harnesses with larger bounds (listed where they differ).\n")
for p in props:
    pid = p["id"]
    oracle, why = TEXT[pid]
    s = SPEC[pid]
    q, t = s["bounds"]("quick"), s["bounds"]("thorough")
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("* **Oracle:** %s" % oracle)
    out.append("* **Why tests cannot settle it:** %s." % why)
    out.append("* **Bounds (quick):** %s." % q)
    if t != q:
        out.append("* **Bounds (thorough):** %s." % t)
    if s["outside"]:
        out.append("* **Outside:** %s." % s["outside"])
    out.append("")
fixed = ["| property | commit | what failed |", "|---|---|---|"]
for line in open(os.path.join(ROOT, "known_findings.txt")):
    if line.startswith("fixed:"):
        _, prop, commit, what = line.split(" ", 3)
        fixed.append("| %s | %s | %s |" % (prop.split("=")[1], commit, what.strip()))
res = json.loads(read("planted.json"))
seeds = sorted(d for d in os.listdir(os.path.join(ROOT, "seeded")) if os.path.exists(os.path.join(ROOT, "seeded", d, "meta.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
missed = []
for d in seeds:
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    r = res.get(d)
    caught = ", ".join(r["by"]) if r and r["by"] else "-"
    if not (r and r["by"]):
        missed.append(d)
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught))
out.append(read("tail.md") % dict(
    fixed="\n".join(fixed), nseed=len(seeds), ncaught=len(seeds) - len(missed),
    missed="Not caught: " + (", ".join("`%s`" % d for d in missed) if missed else "none") + ".", table="\n".join(rows),
    mutants=read("mutants.md")))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print(len(out), "parts;", len(missed), "missed")
