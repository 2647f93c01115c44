"""Development tool: applies each edit of tools/refactorings.py to a scratch copy of /repo, confirms the tests still pass, and
runs every check on it; none may report a violation or fail to answer. Usage: refactor.py [-t] [name-prefixes...]; -t runs the tests."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plant
import refactorings

TESTS = "-t" in sys.argv
ONLY = [a for a in sys.argv[1:] if a != "-t"]
IDS = [c.get("property") or c.get("property_id") for c in json.load(open(plant.VERIF + "/MANIFEST.json"))["checks"]]
IDS = os.environ.get("SWP_CHECKS", "").split() or IDS


def one(r):
    name, path, pairs = r
    root = "/tmp/plant/rf-" + name
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    if TESTS:
        subprocess.run(["cp", "-a", "/repo", root], check=True)
    else:
        os.makedirs(root)
        subprocess.run(["cp", "-a", "/repo/swprocess", root], check=True)
    try:
        err = plant.apply(root, [(path, o, n) for o, n in pairs])
        if err:
            return name, ["CANNOT APPLY " + err]
        out = []
        if TESTS:
            c, o = plant.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300"] , root + "/test",
                             dict(plant.ENV, PYTHONPATH=root))
            last = o.strip().splitlines()[-1:]
            if c and "99 passed" not in (last or [""])[0]:
                out.append("TESTS " + " | ".join(o.strip().splitlines()[-4:]))
        for i in IDS:
            c, o = plant.run([sys.executable, plant.VERIF + "/check.py", i], plant.VERIF,
                             dict(plant.ENV, SWP_REPO=root, SWP_EVIDENCE=root + "/.evidence"), 900)
            und = [l for l in o.splitlines() if l.startswith("UNDECIDED")]
            if c == 1:
                out.append("%s VIOLATION %s" % (i, [l[:150] for l in o.splitlines() if "iolat" in l or "VIOL" in l][:2]))
            elif c:
                out.append("%s EXIT %d %s" % (i, c, o.strip().splitlines()[-1:]))
            elif und:
                out.append("%s undecided %d: %s" % (i, len(und), und[0][:150]))
        return name, out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    todo = [r for r in refactorings.R if not ONLY or any(r[0].startswith(o) for o in ONLY)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(one, todo):
            bad += bool(out)
            print("%-24s %s" % (name, "quiet" if not out else ""), flush=True)
            for l in out:
                print("      " + l, flush=True)
    print("%d edits, %d not quiet" % (len(todo), bad))


if __name__ == "__main__":
    main()
