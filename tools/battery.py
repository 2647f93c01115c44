"""Development tool: small edits of the sources of /repo, one at a time in a scratch copy, and what the checks say.
battery.py [module|module:function|CHECK]... ; prints edits that no check reports, by function."""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SWAP_CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SWAP_BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.Pow: "*"}
NAMES = {"x": "y", "y": "x", "min": "max", "max": "min", "fmin": "fmax", "fmax": "fmin", "begin": "end", "end": "begin", "sin": "cos", "_x": "_y",
         "noise": "signal", "signal": "noise", "xs": "ys", "ys": "xs", "start": "stop", "start_time": "end_time", "vmin": "vmax", "argmax": "argmin",
         "argmin": "argmax", "log": "linear", "mean": "sum", "zeros": "ones", "ones": "zeros", "row": "col", "col": "row", "map_x": "map_y", "map_y": "map_x",
         "int_x": "int_y", "int_y": "int_x", "greater": "greater_equal", "less": "less_equal", "nanmean": "mean", "nanstd": "std", "dt": "delay", "append": "remove"}


def qualnames(tree):
    out = []

    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                qq = q + [c.name]
                if isinstance(c, ast.FunctionDef) and not any(isinstance(p, ast.FunctionDef) for p in [n]):
                    out.append((".".join(qq), c))
                if isinstance(c, ast.ClassDef):
                    go(c, qq)
    go(tree, [])
    return out


def edits(src, fn):
    """(description, start, end, replacement) in offsets"""
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    blines = [l.encode() for l in lines]

    def off(line, col):
        return starts[line - 1] + len(blines[line - 1][:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append(("%d: %s -> %s" % (n.lineno, re.sub(r"\s+", " ", src[a:b])[:70], re.sub(r"\s+", " ", new)[:70]), a, b, new))
    doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, ast.Call):
            t = ast.unparse(n.func)
            if t.startswith(("logger.", "logging.", "warnings.warn")):
                skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "msg" or isinstance(n, ast.AugAssign) and ast.unparse(n.target) == "msg" or isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP_CMP:
            add(n, text(n.left) + " " + SWAP_CMP[type(n.ops[0])] + " " + text(n.comparators[0]), "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP_BIN and not isinstance(n.left, ast.Constant):
            add(n, "(" + text(n.left) + " " + SWAP_BIN[type(n.op)] + " " + text(n.right) + ")", "bin")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div, ast.Add)):
            add(n, text(n.left), "left")
            add(n, text(n.right), "right")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, repr(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            add(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in NAMES:
            add(n, repr(NAMES[n.value]), "str")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 2 < len(n.value) < 40 and "{" not in n.value:
            add(n, repr(n.value + "q"), "str")
        if isinstance(n, ast.BoolOp):
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values), "bool")
            add(n, text(n.values[0]), "first")
            add(n, text(n.values[-1]), "last")
        if isinstance(n, ast.UnaryOp):
            add(n, text(n.operand), "unary")
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "if")
            add(n.test, "False", "if")
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            add(n, text(n.value) + "." + NAMES[n.attr], "attr")
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load) and NAMES[n.id] in {a.arg for a in fn.args.args} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
            add(n, NAMES[n.id], "name")
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                add(n, text(n.value), "noslice")
                if n.slice.lower is not None:
                    add(n, text(n.value) + "[%s+1:%s]" % (text(n.slice.lower), text(n.slice.upper) if n.slice.upper else ""), "slice")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                add(n, text(n.func) + "(" + ", ".join(a + [text(k) if hasattr(k, "col_offset") else "" for k in n.keywords]) + ")", "swap")
            for k in n.keywords:
                if k.arg:
                    rest = [text(x) for x in n.args] + [text(y) for y in n.keywords if y is not k]
                    add(n, text(n.func) + "(" + ", ".join(rest) + ")", "dropkw")
            if ast.unparse(n.func) in ("abs", "np.abs", "np.array", "float", "int", "str", "round", "min", "max", "np.conjugate", "np.transpose", "np.flipud", "sorted", "list", "dict", "bool", "np.isnan") and len(n.args) >= 1:
                add(n, "(" + text(n.args[0]) + ")", "unwrap")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)) and n is not doc and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "msg" or isinstance(n, ast.AugAssign) and ast.unparse(n.target) == "msg":
                continue
            add(n, "pass", "del")
        if isinstance(n, ast.Continue):
            add(n, "break", "brk")
        if isinstance(n, ast.Break):
            add(n, "continue", "cnt")
    for n in ast.walk(fn):
        for body in [getattr(n, "body", None), getattr(n, "orelse", None)]:
            if isinstance(body, list):
                for a, b in zip(body, body[1:]):
                    if isinstance(a, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b, (ast.Assign, ast.AugAssign, ast.Expr)) and a is not doc and not any("msg" in ast.unparse(x)[:4] or "logg" in ast.unparse(x)[:5] for x in (a, b)):
                        (s1, e1), (s2, e2) = span(a), span(b)
                        out.append(("%d: swap with next statement" % a.lineno, s1, e2, src[s2:e2] + src[e1:s2] + src[s1:e1]))
    return out


def main():
    want = sys.argv[1:]
    ids = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    uses = {}
    for i in ids:
        try:
            ev = json.load(open("%s/evidence/%s.json" % (VERIF, i)))
        except OSError:
            continue
        for f in ev["coverage"]["functions_analysed"]:
            uses.setdefault(f, set()).add(i)
    jobs = []
    for f in sorted(os.listdir("/repo/swprocess")):
        if not f.endswith(".py") or f.startswith("__") or "spac" in f:
            continue
        mod = "swprocess." + f[:-3]
        src = open("/repo/swprocess/" + f, newline="").read().replace("\r\n", "\n")
        for q, fn in qualnames(ast.parse(src)):
            key = mod + ":" + q
            if want and not any(w in (f[:-3], f[:-3] + ":" + q, q) or w in uses.get(key, ()) for w in want):
                continue
            if key not in uses:
                print("no check analyses %s" % key)
                continue
            if "plot" in q or q in ("Array1D.waterfall",):
                continue
            run = sorted(uses[key] & set(want) or uses[key])
            seen = set()
            for what, a, b, new in edits(src, fn):
                s = src[:a] + new + src[b:]
                if s in seen:
                    continue
                seen.add(s)
                try:
                    ast.parse(s)
                except SyntaxError:
                    continue
                jobs.append((f, q, what, s, run))
    print("%d edits" % len(jobs), flush=True)
    local = threading.local()
    n = [0]
    lock = threading.Lock()

    def go(job):
        f, q, what, s, run = job
        if not hasattr(local, "root"):
            with lock:
                n[0] += 1
                local.root = "/tmp/battery/%d" % n[0]
            shutil.rmtree(local.root, ignore_errors=True)
            os.makedirs(local.root)
            subprocess.run(["cp", "-a", "/repo/swprocess", local.root], check=True)
        p = os.path.join(local.root, "swprocess", f)
        orig = open("/repo/swprocess/" + f, newline="").read()
        open(p, "w", newline="").write(s)
        res = {}
        try:
            for i in run:
                try:
                    r = subprocess.run([sys.executable, VERIF + "/check.py", i], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900,
                                       env=dict(os.environ, SWP_REPO=local.root, SWP_EVIDENCE=local.root + "/ev"))
                    und = r.stdout.count("\nUNDECIDED")
                    res[i] = "C" if r.returncode == 1 else ("B" if r.returncode else ("u" if und else "h"))
                except subprocess.TimeoutExpired:
                    res[i] = "T"
                if res[i] == "C":
                    break
        finally:
            open(p, "w", newline="").write(orig)
        return job, res
    tally = {}
    with ThreadPoolExecutor(8) as ex:
        for (f, q, what, s, run), res in ex.map(go, jobs):
            v = set(res.values())
            k = "caught" if "C" in v else "broken" if v & {"B", "T"} else "undecided" if "u" in v else "holds"
            tally[k] = tally.get(k, 0) + 1
            if k != "caught":
                print("%-9s %s:%s %s  %s" % (k, f[:-3], q, what, ",".join("%s%s" % x for x in res.items())), flush=True)
    print(tally)
    shutil.rmtree("/tmp/battery", ignore_errors=True)


main()
