#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

TECH = "static analysis: gated value-graph comparison of the source with a reference definition"
NOTE = ("Decides the stated equalities for all symbolic inputs by normalising both value graphs; nothing is executed. Trusts the "
        "analyser's model of Python, of the numpy operations it names, and real-number arithmetic; library calls are uninterpreted.")


def main():
    seen = set()
    checks, na, lines = [], [], []
    for p in props.PROPS:
        assert p["id"] not in seen, p["id"]
        seen.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": sorted(set(w.split(":")[0] for _, w in p["at"])),
                        "mechanism": [{"name": n, "where": w} for n, w in p["at"]]},
        }))
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        low = p["id"].lower()
        assert os.path.exists(os.path.join(ROOT, "specs", low + ".py")) or os.path.exists(os.path.join(ROOT, "checks", low + ".py")), p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"],
            "technique": p.get("tech", TECH), "level": "other", "level_note": p.get("note", NOTE)})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q gvg checks specs tools",
           "checks": checks, "not_applicable": na,
           "notes": "Every check parses /repo/swprocess on each run; nothing in /repo is imported or executed. No hooks."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(lines), "properties", len(checks), "checks", len(na), "n/a")


main()
