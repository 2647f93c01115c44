"""Development tool: makes the planted bugs of tools/plants.py, confirms each in a scratch copy of /repo, and stores it under
/verif/seeded. Usage: plant.py [ids...]; with --check only reports what the checks say about those already stored."""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen")
BASE = [l for l in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if os.path.exists("/opt/vp/BASELINE.json") else []
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, env=None, t=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def copy(id):
    root = "/tmp/plant/" + id
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", root], check=True)
    return root


def checks(root, prop=None, skip=()):
    """ids of the checks that report a violation for the tree at root"""
    out = {}
    ids = [c["property"] if "property" in c else c.get("property_id") for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    for i in ids:
        if prop and i != prop or i in skip:
            continue
        c, o = run([sys.executable, VERIF + "/check.py", i], VERIF, dict(ENV, SWP_REPO=root, SWP_EVIDENCE=root + "/.evidence"), 900)
        if c:
            out[i] = (c, [l for l in o.splitlines() if "VIOLATION" in l or "violat" in l][:3])
    return out


def apply(root, edits):
    for path, old, new in edits:
        p = os.path.join(root, path)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if n == 0:      # blank lines do not matter
            loose = re.findall(r"\s*\n\s*?".join(re.escape(l) for l in old.split("\r\n" if crlf else "\n")), s)
            if len(loose) == 1:
                old, n = loose[0], 1
        if n != 1:
            return "%s: %d occurrences of %r" % (path, n, old[:60])
        open(p, "w", newline="").write(s.replace(old, new))


def one(p):
    id = p["id"]
    root = copy(id)
    try:
        d = os.path.join(root, ".demo")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(p["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        env = dict(ENV, PYTHONPATH=root)
        c, o = run(["bash", d + "/demo.sh"], root, env)
        if c:
            return id, "demo fails on the unchanged tree:\n" + o[-1500:]
        e = apply(root, p["edits"])
        if e:
            return id, e
        c, o = run(["bash", d + "/demo.sh"], root, env)
        if c == 0:
            return id, "demo passes with the change"
        why = o.strip().splitlines()[-1:] or [""]
        c, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "--deselect", "nothing"], root + "/test", env)
        if c:
            return id, "tests fail: " + "\n".join(l for l in o.splitlines() if l.startswith("FAILED") or "Error" in l)[:600]
        c, diff = run(["git", "diff", "--binary", "--", "swprocess"], root)
        dst = os.path.join(SEEDED, id)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        with open(dst + "/patch.diff", "w", newline="") as f:
            f.write(subprocess.run(["git", "diff", "--", "swprocess"], cwd=root, stdout=subprocess.PIPE).stdout.decode())
        shutil.copy(d + "/demo.py", dst)
        open(dst + "/demo.sh", "w").write(DEMO)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        r = checks(root)
        return id, "KEPT (%s) demo: %s | caught by %s" % ("CAUGHT" if r.get(p["prop"], (0,))[0] == 1 else "MISSED " + p["prop"], why[0][:80], ", ".join("%s:%d" % (k, v[0]) for k, v in r.items()) or "none")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def recheck(id):
    root = copy(id)
    try:
        c, o = run(["git", "apply", SEEDED + "/" + id + "/patch.diff"], root)
        if c:
            return id, "does not apply: " + o[:200]
        prop = json.load(open(SEEDED + "/" + id + "/meta.json"))["property"]
        r = checks(root, skip=() if prop == "C07" else os.environ.get("SWP_SKIP", "").split())
        return id, "%s caught by %s" % ("CAUGHT" if r.get(prop, (0,))[0] == 1 else "MISSED " + prop, ", ".join("%s:%d" % (k, v[0]) for k, v in r.items()) or "none")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    args = sys.argv[1:]
    with ThreadPoolExecutor(7) as ex:
        if "--check" in args:
            args.remove("--check")
            ids = args or sorted(os.listdir(SEEDED))
            jobs = ex.map(recheck, ids)
        else:
            sys.path.insert(0, HERE)
            import plants
            ps = [p for p in plants.ALL if (p["id"] in args if args else not os.path.exists(os.path.join(SEEDED, p["id"])))]
            jobs = ex.map(one, ps)
        for id, r in jobs:
            print("%-28s %s" % (id, r), flush=True)


if __name__ == "__main__":
    main()
