#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property from the source text of /repo."""
import ast
import gc
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(pid):
    """lines 'property=<id> key=<obligation key> :: text' of known-findings.txt"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            head, _, text = line.partition(" :: ")
            kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
            if kv.get("property") == pid:
                out[kv["key"].replace("~", " ")] = text
    return out


GVG = ("Value-graph comparison: every driver calls the public entry points on symbolic arguments; the analysis evaluates the "
       "current source abstractly into gated value terms (calls inlined through the package's own call graph, loops summarised "
       "as maps, sums, filters and recurrences), brings them and the reference definition to one normal form and compares each "
       "returned component and the condition under which an error is raised. Nothing is executed. ")


def explanation(K, low, spec, mod):
    out = ""
    if spec:
        out = GVG + "Reference: " + (ast.get_docstring(K.spec(low).tree) or "")
    if mod is not None and mod.__doc__:
        out += (" " if out else "") + " ".join(mod.__doc__.split())
    return out


def main(pid):
    from gvg import kit
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pkg = kit.Package()
    K = kit.Kit(pkg, pid)
    K.tier = tier
    low = pid.lower()
    mod = importlib.import_module("checks." + low) if os.path.exists(os.path.join(HERE, "checks", low + ".py")) else None
    spec = os.path.exists(os.path.join(HERE, "specs", low + ".py"))
    broken = None
    try:
        if spec:
            K.drivers(low)
        if mod is not None:
            mod.check(K)
    except kit.AnalysisBroken as e:
        broken = str(e)
    need = getattr(mod, "MIN_OBLIGATIONS", 1)
    if broken is None and len(K.obs) < need:
        broken = "only %d obligations instead of at least %d: the rule lost its subject" % (len(K.obs), need)
    known = known_findings(pid)
    viol = [o for o in K.obs if o.verdict == "VIOLATION"]
    fresh = [o for o in viol if o.key not in known]
    old = [o for o in viol if o.key in known]
    und = [o for o in K.obs if o.verdict == "UNDECIDED"]
    held = [o for o in K.obs if o.verdict == "HOLDS"]
    wall = time.time() - t0
    out = os.environ.get("SWP_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": explanation(K, low, spec, mod),
            "functions_analysed": sorted("%s:%s" % x for x in K.funcs),
            "files_parsed": len(pkg.repo_modules()),
            "obligations": len(K.obs), "discharged": len(held), "undecided": len(und),
            "normal_form_cases": K.cases, "calls_in_value_graph": K.nevents, "sites": K.sites,
            "samples": [{"obligation": o.name, "where": o.where, "verdict": o.verdict, "detail": o.detail[:400]} for o in K.obs],
        },
        "assumptions": list(getattr(mod, "ASSUMES", ())) + K.notes,
        "wall_s": round(wall, 3), "violations": len(fresh),
    }
    with open(os.path.join(out, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations over %d functions: %d hold, %d undecided, %d violated (%.1f s)" % (
        pid, len(K.obs), len(K.funcs), len(held), len(und), len(viol), wall))
    for o in und:
        print("UNDECIDED %s @ %s: %s" % (o.name, o.where, o.detail[:300]))
    for o in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[o.key], o.key))
    if fresh:
        path = os.path.join(out, pid + ".violation.txt")
        with open(path, "w") as f:
            for o in fresh:
                f.write("rule: %s\nwhere: %s\nkey: %s\n%s\n\n" % (o.name, o.where, o.key, o.detail))
        for o in fresh:
            print("  %s @ %s\n    %s" % (o.name, o.where, o.detail[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if broken:
        print("ANALYSIS BROKEN: " + broken)
        return 2
    if not held and not old:
        print("ANALYSIS BROKEN: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    gc.disable() if os.environ.get("SWP_NOGC") else None
    rc = [3]

    def go():
        try:
            rc[0] = main(sys.argv[1])
        except BaseException:
            traceback.print_exc()
            rc[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
