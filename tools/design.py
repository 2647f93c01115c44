#!/usr/bin/env python3
"""Writes DESIGN.md from the property table, design_how.py and the results of plant.py --check (tools/caught.txt)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402
from design_how import HOW  # noqa: E402

out = [open(HERE + "/design_head.md").read().rstrip(), "", "## 2. Per property", ""]
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if p.get("na"):
        continue
    low = p["id"].lower()
    names = []
    f = ROOT + "/specs/%s.py" % low
    if os.path.exists(f):
        names = [l[len("def impl_"):].split("(")[0] for l in open(f) if l.startswith("def impl_")]
    out.append("- **%s %s.** %s" % (p["id"], p["title"], HOW[p["id"]]) + (" Drivers: %s." % ", ".join(names) if names else ""))
out += ["", "## 3. Not applicable", "", "Listed with their reasons in MANIFEST.json:", ""]
for p in props.PROPS:
    if p.get("na"):
        out.append("- **%s %s.** %s" % (p["id"], p["title"], p["na"]))
out += ["", open(HERE + "/design_tail.md").read().rstrip(), "", "## 7. Planted bugs and what catches them", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(HERE + "/caught.txt"):
    for l in open(HERE + "/caught.txt"):
        if " caught by " in l:
            caught[l.split()[0]] = ", ".join(x.split(":")[0] for x in l.rsplit(" caught by ", 1)[1].strip().split(", ") if x.endswith(":1")) or "none"
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(ROOT + "/seeded/%s/meta.json" % s))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), caught.get(s, "?")))
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
