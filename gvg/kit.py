"""Obligations, verdicts and the comparison of a driver with its reference."""
import ast
import os
import fnmatch
import re
import sys
import time
from .interp import *
from . import interp as I
from . import norm
from .loader import *
from .terms import binder, subst, ite, conj, fresh, open_binder
from .interp import mk_exists

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
TOTAL = 600.0       # seconds a check may spend deciding
UNKNOWN_OPS = {"opaque", "mu", "stops", "stopsat", "setdyn", "prefix", "cell", "lost-ref"}


class Outcome:
    HOLDS, VIOLATION, UNDECIDED = "HOLDS", "VIOLATION", "UNDECIDED"


class Ob:
    def __init__(self, name, verdict, detail="", where="", cases=0, key=None):
        self.name, self.verdict, self.detail, self.where, self.cases = name, verdict, detail, where, cases
        self.key = key or name


class RunR:
    """result of abstractly evaluating one function"""

    def __init__(self, it, st, val, exits, f):
        self.it, self.st, self.val, self.exits, self.f = it, st, val, exits, f
        self.events = it.events

    @property
    def term(self):
        return self.it.tt(self.val, self.st)

    def raises(self):
        return disj(merge_exists([conj(e.st.pc) for e in self.exits if e.kind == "raise"]))

    def falls(self):
        return not self.st.dead

    def calls(self, *names):
        return [e for e in self.events if e.name in names and e.kind in ("call", "mcall")]


def merge_exists(conds):
    """some element is refused for one reason or another: one quantifier over either reason"""
    groups, out = {}, []
    for c in conds:
        parts = list(c.args) if c.op == "and" else [c]
        j = next((i for i in range(len(parts) - 1, -1, -1) if parts[i].op == "exists"), None)
        if j is None:
            out.append(c)
            continue
        key = (tuple(parts[:j] + parts[j + 1:]), parts[j].args[0])
        if key in groups:
            groups[key].append(parts[j])
        else:
            groups[key] = [parts[j]]
            out.append(key)
    res = []
    for o in out:
        if not isinstance(o, tuple):
            res.append(o)
            continue
        xs = groups[o]
        if len(xs) == 1:
            e = xs[0]
        else:
            k = fresh()
            e = mk_exists(o[1], k, disj([open_binder(x, k)[1] for x in xs]))
        res.append(conj(list(o[0]) + [e]))
    return res


def ann_type(a):
    if a is None:
        return None
    s = a.value if isinstance(a, ast.Constant) else ast.unparse(a)
    m = re.match(r"(list|List|dict)\[(\w+)\]$", s)
    if m:
        return (m.group(1).lower(), m.group(2))
    return s


# methods of library objects that only answer
QUIET = {"count", "zfill", "lower", "upper", "strip", "split", "iterrows", "itertuples", "isoformat", "strftime", "total_seconds", "group", "groups"}


class Kit:
    lost = None             # what the analysis could not follow in the drivers compared
    positional = False      # effects are compared without their keyword arguments

    def __init__(self, pkg, pid):
        self.pkg, self.pid = pkg, pid
        self.obs = []
        self.funcs = set()
        self.nevents = 0
        self.sites = 0
        self.cases = 0
        self.notes = []
        self.t0 = time.monotonic()
        self.vocab = None

    # ------------------------------------------------------------ loading
    def spec(self, name):
        mn = "spec_" + name
        if mn not in self.pkg.modules:
            path = os.path.join(SPECS, name + ".py")
            with open(path) as f:
                tree = ast.parse(f.read(), path)
            m = Module(mn, path, tree)
            m.stub = True
            self.pkg.modules[mn] = m
        return self.pkg.modules[mn]

    def interp(self, **kw):
        return Interp(self.pkg, **kw)

    def run(self, f, args=None, types=None, params=None, **kw):
        """f: FuncV; every parameter not in args becomes a symbolic parameter"""
        it = self.interp(types=types, **kw)
        st = State()
        vals = []
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        anns = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
        if f.cls is not None and is_classm(f.node):
            args = dict(args or {})
            args.setdefault(names[0], ClassV(f.cls))
        kws = {}
        for n in names:
            if args and n in args:
                v = args[n]
                if v is not None:
                    kws[n] = v
                continue
            ty = ann_type(anns.get(n))
            p = mk("param", n, "float") if ty == "float" else mk("param", n)
            if ty == "const_default":
                continue
            if n == "self" and f.cls is not None and ty is None:
                ty = f.cls.name
            if ty and p not in it.types:
                it.types[p] = ty
            kws[n] = p
        v = it.call_func(f, [], kws, st, f.node)
        self.funcs |= {x for x in it.funcs_seen if not x[0].startswith("spec_")}
        self.nevents += len(it.events)
        return RunR(it, st, v, it.sink, f)

    def method(self, cls, name):
        ci = self.pkg.cls(cls)
        m = self.pkg.find_method(ci, name)
        if m is None:
            raise AnalysisBroken("%s.%s is gone from the package" % (cls, name))
        return FuncV(m[1], m[0].module, None, ci if is_classm(m[1]) else m[0])

    def func(self, mod, name):
        m = self.pkg.modules.get(mod)
        r = self.pkg.lookup(m, name) if m else None
        if not r or r[0] != "func":
            raise AnalysisBroken("%s.%s is gone from the package" % (mod, name))
        return FuncV(r[2], r[1])

    def where(self, f):
        return "%s:%d %s" % (os.path.relpath(f.module.path, self.pkg.root), f.node.lineno, (f.cls.name + "." if f.cls else "") + f.name)

    # ------------------------------------------------------------ recording
    def add(self, name, verdict, detail="", where="", cases=0, key=None):
        self.obs.append(Ob(name, verdict, detail, where, cases, key))
        self.cases += cases

    def require(self, name, cond, detail="", where="", key=None):
        self.add(name, Outcome.HOLDS if cond else Outcome.VIOLATION, "" if cond else detail, where, 1, key)
        return cond

    def undecided(self, name, detail, where=""):
        self.add(name, Outcome.UNDECIDED, detail, where)

    # ------------------------------------------------------------ vocabulary
    def known_vocab(self):
        """library functions the package uses at the analysed commit (frozen) plus modelled ones"""
        if self.vocab is None:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.txt")
            v = set(open(p).read().split()) if os.path.exists(p) else set()
            self.vocab = v
        return self.vocab

    def ours(self, name):
        """a function of the package that the drivers keep opaque"""
        root = name.split(".")[0]
        return root == "swprocess" or root == "spec" or root in self.pkg.class_index

    def strange(self, t, ref=None):
        """first construct of t the comparison cannot speak about"""
        refnames = set()
        if ref is not None:
            for x in walk(ref):
                if x.op == "call":
                    refnames.add(callee(x))
        mine, theirs = ([x for x in walk(y) if x.op == "steps"] if y is not None else [] for y in (t, ref))
        if bool(mine) != bool(theirs):
            return "loops counted in another way"
        for x in mine:
            for y in theirs:
                d = norm.canon(mk("bin", "/", mk("bin", "-", x.args[1], y.args[1]), x.args[0]))
                if is_num(d) and cval(d) != 0 and any(len({z for z in walk(t) if z.op == "call" and callee(z) == n}) >
                                                      len({z for z in walk(ref) if z.op == "call" and callee(z) == n})
                                                      for n in refnames if n and n.split(".")[0] in ("obspy", "open")):
                    return "a loop whose first rounds stand outside it"
        for x in walk(t):
            if unmodelled(x):
                if ref is not None and contains(ref, lambda y: y is x):
                    continue
                if x.op in ("mu", "stops", "stopsat") and ref is not None and contains(ref, lambda y: y.op == x.op and alike(x, y)):
                    continue
                return show(x)[:120]
            if x.op == "call":
                n = callee(x)
                if n is None and x.args[0].op in ("param", "sub", "ite", "lamv") and not any(unmodelled(y) for y in walk(x.args[0])):
                    continue
                if n is None and x.args[0].op == "call" and callee(x.args[0]) in self.known_vocab() and ref is not None and \
                        contains(ref, lambda y: y.op == "call" and y.args[0].op == "call" and callee(y.args[0]) == callee(x.args[0])):
                    continue    # the reference, too, calls what such a call returns
                if n in ("numpy.flatnonzero", "numpy.nonzero", "numpy.argwhere", "numpy.where") and len(x.args) == 2 and x.args[1].op == "const":
                    return "indices of a condition that was decided as a whole"
                if n is None or n not in self.known_vocab() and n not in refnames:
                    return "call of %s" % (n or show(x.args[0])[:60])
        return None

    # ------------------------------------------------------------ comparison
    def equal(self, name, got, want, where="", assume=(), key=None, what=""):
        left = TOTAL - (time.monotonic() - self.t0)
        norm.DEADLINE = max(2.0, min(90.0, left / 3))
        try:
            r = norm.compare_loops(got, want, assume)
        except RecursionError:
            self.undecided(name, "term too deep", where)
            return None
        if r.ok:
            lost = self.lost or next((x.args[0] for x in walk(norm.canon(got)) if x.op == "opaque"), None)
            if lost:
                self.undecided(name, "agrees as far as it was followed, but not followed: %s" % lost, where)
                return None
            self.add(name, Outcome.HOLDS, "", where, r.cases, key)
            return True
        if r.ok is None:
            self.undecided(name, "comparison gave up: " + r.why, where)
            return None
        a, b = first_diff(r.left, r.right)
        s = self.strange(r.left, r.right) or None
        if s is None:
            # a case distinction on something the analysis lost track of decides nothing
            for x in r.atoms:
                y = next((z for z in walk(x) if unmodelled(z)), None)
                if y is not None and not contains(want, lambda q: q is y) and not \
                        (y.op in ("mu", "stops", "stopsat") and contains(norm.canon(want), lambda q: q.op == y.op and alike(y, q))):
                    s = "case distinction on " + show(y)[:120]
                    break
                s = next(("case distinction on call of %s" % (callee(z) or "?") for z in walk(x) if z.op == "call" and callee(z) is not None
                          and not self.ours(callee(z)) and callee(z) not in self.known_vocab()), None)
                if s is not None:
                    break
        if s is None:
            s = self.other_rounds(r)
        d = "when %s: %scode has %s, required %s" % (r.region, what, clip(show(a)), clip(show(b)))
        if s:
            self.undecided(name, "outside the modelled vocabulary (%s); %s" % (s, d), where)
            return None
        self.add(name, Outcome.VIOLATION, d, where, r.cases, key)
        return False

    def other_rounds(self, r):
        """loops that carry a state differ only where one round of theirs, from the same state, differs"""
        m1, m2 = norm.loops_in(norm.canon(r.left)), norm.loops_in(norm.canon(r.right))
        mine, theirs = [x for x in m1 if x not in m2], [x for x in m2 if x not in m1]
        if not mine or not theirs:
            return None
        why = "loops that carry along other things"
        for x, y, d in r.loops:
            if d is not None and d.ok is False:
                why = self.strange(d.left, d.right)
                if why is None:
                    return None
        return why

    def drivers(self, mod, *names):
        """every driver of specs/<mod>.py (or the named ones)"""
        m = self.spec(mod)
        for f in list(m.funcs):
            if f.startswith("impl_") and (not names or f[5:] in names):
                self.driver(mod, f[5:])

    def driver(self, mod, name, *a, **kw):
        """impl_<name> against spec_<name> of specs/<mod>.py"""
        I.EVAL_SECONDS = max(5.0, min(120.0, (TOTAL - (time.monotonic() - self.t0)) / 3))
        try:
            return self.driver_(mod, name, *a, **kw)
        except OutOfTime as e:
            self.undecided("%s.%s" % (mod, name), str(e))
        except RecursionError:
            self.undecided("%s.%s" % (mod, name), "term too deep")
        finally:
            self.lost = None

    def driver_(self, mod, name, raises=True, names=None, assume=None, key=None, args=None, effects=None, **kw):
        m = self.spec(mod)
        for o in self.pkg_options(m, name):
            kw = dict(o, **kw)
        raises = kw.pop("raises", raises)
        effects = kw.pop("effects", effects)
        implicit = kw.pop("implicit", True)
        self.positional = kw.pop("positional", False)
        order, commute = kw.pop("order", None), kw.pop("commute", ())
        fi, fs = FuncV(m.funcs["impl_" + name], m), FuncV(m.funcs["spec_" + name], m)
        ri = self.run(fi, args=args, **kw)
        rs = self.run(fs, args=args, **kw)
        where = self.anchor_of(fi, ri)
        label = "%s.%s" % (mod, name)
        self.lost = next(("%s (line %s)" % x for r in (ri, rs) for x in r.it.unsupported), None)
        ci, cs = ri.raises(), rs.raises()
        assume = list(assume or ())
        if "assume_" + name in m.funcs:
            ra = self.run(FuncV(m.funcs["assume_" + name], m), args=args, **kw)
            assume.append(I.truth_term(ra.term))
        if raises:
            self.equal(label + " [rejects exactly]", ci, cs, where, assume, key=(key or label) + ":raises", what="raises if: ")
        ok = [neg(ci)] if ci is not TRUE else []
        if not ri.falls() and not rs.falls():
            self.add(label + " [always rejects]", Outcome.HOLDS, "", where, 1)
            return ri, rs
        if not ri.falls() or not rs.falls():
            self.add(label, Outcome.VIOLATION, "code %s, required %s" % ("never returns" if not ri.falls() else "returns", "an error" if not rs.falls() else "a value"), where, 1, key or label)
            return ri, rs
        ti, ts = ri.term, rs.term
        if not implicit:
            # errors raised implicitly inside a try block are outside of this property
            m_ = {x: FALSE for t in (ti, ts, ci, cs) for x in walk(t) if x.op == "exc"}
            ti, ts, ci, cs = (subst(t, m_) for t in (ti, ts, ci, cs))
        if ci is cs is FALSE:
            ok = []
        elif raises:
            ok = [neg(cs)]
        else:
            ok = [neg(ci), neg(cs)]
        ok = [x for x in ok if x is not TRUE] + assume
        if effects:
            self.effects(label, ri, rs, effects, where, ok, key, implicit)
        if order:
            self.order(label, ri, rs, order, commute, where, key)
        if ts.op == "seq" and names is None:
            r = m.funcs["spec_" + name].body[-1]
            names = [ast.unparse(e) for e in r.value.elts] if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) else None
            imp = m.funcs["impl_" + name].body[-1]
            if isinstance(imp, ast.Return) and isinstance(imp.value, ast.Tuple):
                names = [ast.unparse(e) for e in imp.value.elts]
        if ts.op == "seq" and ti.op == "seq" and len(ts.args) == len(ti.args) and names and len(names) == len(ts.args):
            for n, a, b in zip(names, ti.args, ts.args):
                self.equal("%s [%s]" % (label, n), a, b, where, ok, (key or label) + ":" + n, what=n + ": ")
        else:
            self.equal(label, ti, ts, where, ok, key or label)
        return ri, rs

    def effect_terms(self, r, patterns):
        """{kind:name -> [term]}: what the run does to the outside, one term per site class,
        closed over the loops it sits in; exclusive sites of the same effect are one choice"""
        groups = {}
        for e in r.events:
            key = "%s:%s" % (e.kind, e.name)
            if not any(fnmatch.fnmatch(key, p) for p in patterns) or any(p[0] == "!" and fnmatch.fnmatch(key, p[1:]) for p in patterns):
                continue
            if not feasible(conj(e.pc)):
                continue
            parts = [a for a in e.args]
            if e.kind != "setattr" and isinstance(e.recv, T):
                parts.insert(0, e.recv)
            if not self.positional:
                parts += [mk("kw", k, v) for k, v in sorted(e.kwargs.items()) if isinstance(v, T)]
            body = mk("seq", *parts)
            groups.setdefault(key, []).append((conj(e.pc), body, tuple(e.loops)))
        out = {}
        for key, evs in groups.items():
            classes = []
            for c, body, loops in evs:
                for cl in classes:
                    if len(cl[0][2]) == len(loops) and all(exclusive(c, self.align(c2, l2, loops)) for c2, _, l2 in cl):
                        cl.append((c, body, loops))
                        break
                else:
                    classes.append([(c, body, loops)])
            ts = []
            for cl in classes:
                loops = cl[0][2]
                t = mk("absent")
                for c, body, l2 in reversed(cl):
                    c = self.align(c, l2, loops)
                    for k, n in loops:
                        c = inside(c, n)
                    t = ite(c, self.align(body, l2, loops), t)
                for k, n in reversed(loops):
                    t = binder("map", k, n, t)
                ts.append(t)
            out[key] = ts
        return out

    def order(self, label, ri, rs, patterns, commute, where, key=None):
        """effects that do not commute happen in the required order: for every two kinds of effect,
        the two projections of the event sequences agree"""
        def seq(r):
            out = []
            for e in r.events:
                k = "%s:%s" % (e.kind, e.name)
                if any(fnmatch.fnmatch(k, p) for p in patterns) and not any(p[0] == "!" and fnmatch.fnmatch(k, p[1:]) for p in patterns):
                    c = conj(e.pc)
                    if feasible(c):
                        out.append((e.name.split(".")[-1], c, e))
            return out

        def project(s, a, b):
            out = []
            for n, c, e in s:
                if n in (a, b):
                    if out and out[-1][0] == n and exclusive(c, out[-1][1]):
                        continue
                    out.append((n, c))
            moved = True
            while moved:    # the order of effects that exclude each other is no order
                moved = False
                for i in range(len(out) - 1):
                    if out[i][0] > out[i + 1][0] and exclusive(out[i][1], out[i + 1][1]):
                        out[i], out[i + 1] = out[i + 1], out[i]
                        moved = True
            return [n for n, _ in out]
        si, ss = seq(ri), seq(rs)
        free = {frozenset(x.split("|")) for x in commute}
        names = sorted({x[0] for x in ss} | {x[0] for x in si})
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if frozenset((a, b)) in free:
                    continue
                x, y = project(si, a, b), project(ss, a, b)
                if not (a in y and b in y):
                    continue
                n = "%s [order of %s and %s]" % (label, a, b)
                if sorted(x) != sorted(y):
                    continue    # missing or extra effects are reported as such
                if x == y:
                    self.add(n, Outcome.HOLDS, "", where, 1)
                else:
                    at = next(e for (nm, _, e) in si if nm in (a, b))
                    self.add(n, Outcome.VIOLATION, "code does %s, required %s" % (" then ".join(x), " then ".join(y)), where, 1, (key or label) + ":order")

    @staticmethod
    def align(t, loops, to):
        m = {a[0]: b[0] for a, b in zip(loops, to) if a[0] is not b[0]}
        return subst(t, m) if m else t

    def effects(self, label, ri, rs, patterns, where, assume=(), key=None, implicit=True):
        ei, es = self.effect_terms(ri, patterns), self.effect_terms(rs, patterns)
        if not implicit:
            ei, es = ({k: [subst(t, {x: FALSE for x in walk(t) if x.op == "exc"}) for t in ts] for k, ts in d.items()} for d in (ei, es))
        for k in sorted(set(ei) | set(es)):
            a, b = ei.get(k, []), es.get(k, [])
            n = "%s [effect %s]" % (label, k)
            kk = (key or label) + ":" + k
            some = ()
            if len(a) != len(b) and a and b:
                # the first of a row of effects may stand by itself
                short, long_ = (a, b) if len(a) < len(b) else (b, a)
                at = [j for j, x in enumerate(short) if x.op == "map"]
                if len(at) == 1 and len(long_) == len(short) + 1:
                    x = short[at[0]]
                    v = fresh()
                    n_, body = open_binder(x, v)
                    k2 = fresh()
                    split = short[:at[0]] + [open_binder(x, I.const(0))[1], binder("map", k2, I.binop("-", n_, I.const(1)), subst(body, {v: I.binop("+", k2, I.const(1))}))] + short[at[0] + 1:]
                    some = (I.cmp_(">", n_, I.const(0)),)
                    a, b = (split, b) if short is a else (a, split)
            if len(a) != len(b):
                a, b = ([t for t in z if not self.never(t, assume)] for z in (a, b))
            if len(a) != len(b):
                st = next((x for x in (self.strange(t) for t in a) if x), None)
                d = "%d such effects instead of %d: %s" % (len(a), len(b), clip("; ".join(show(x) for x in a)))
                if st is None and len(a) < len(b):
                    mine = {(e.kind, e.name) for e in rs.events}
                    st = next(("%s:%s" % (e.kind, e.name) for e in ri.events if e.kind in ("call", "mcall", "mutate", "setattr", "pcall") and
                               (e.kind, e.name) not in mine and not e.name.startswith("get_") and not (e.kind == "mcall" and e.name in QUIET)), None)
                if st:
                    self.undecided(n, "%s (besides %s)" % (d, st), where)
                else:
                    self.add(n, Outcome.VIOLATION, d, where, 1, kk)
                continue
            for j, (x, y) in enumerate(zip(a, b)):
                self.equal(n + ("" if len(a) == 1 else " #%d" % j), x, y, where, list(assume) + list(some), kk, what=k + ": ")

    def never(self, t, assume):
        """an effect that never happens under the assumptions"""
        while t.op == "map":
            t = open_binder(t, fresh())[1]
        if t.op != "ite" or not assume:
            return False
        return norm.compare(t, mk("absent"), assume).ok is True

    def pkg_options(self, m, name):
        """OPTIONS = {"<driver>": {...}} of the spec module (plain literals)"""
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "OPTIONS":
                d = ast.literal_eval(n.value)
                return [d[k] for k in (name, "*") if k in d]
        return []

    def anchor_of(self, f, r):
        seen = [x for x in sorted(r.it.funcs_seen) if not x[0].startswith("spec_") and not x[0].startswith("sigpropy")]
        # the entry point the driver names
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                for m, q in seen:
                    if q.endswith("." + n.attr) or q == n.attr:
                        return "%s (%s)" % (m.replace(".", "/") + ".py", q)
        return ", ".join("%s" % q for _, q in seen[:3])


def inside(c, n):
    """the part of c that the loop over n things does not imply already"""
    some = conj([I.cmp_(">", x, I.const(0)) for x in (n.args if n.op == "minlen" else (n,))])
    xs = c.args if c.op == "and" else (c,)
    keep = [x for x in xs if not (x.op in ("cmp", "not", "sg") and norm.implies(norm.canon(some), norm.canon(x)))]
    return c if len(keep) == len(xs) else conj(keep)


def unmodelled(x):
    """constructs no normal form speaks about"""
    return x.op in UNKNOWN_OPS or x.op in ("sub", "len") and x.args[0].op == "concat"


def alike(x, y):
    """two loops that carry as much along and store at the same places: what they store can be compared"""
    if x.op != y.op:
        return False
    if x.op in ("stops", "stopsat"):
        return alike(x.args[0], y.args[0])
    starts = [m.args[1].args if m.args[1].op == "seq" else (m.args[1],) for m in (x, y)]
    if len(starts[0]) != len(starts[1]):
        return False
    if len(starts[0]) > 1 and not all(norm.same(p, q) for p, q in zip(*starts)):
        return False
    if any(unmodelled(z) and z.op not in ("mu", "stops", "stopsat") for m in (x, y) for z in walk(m)):
        return False
    places = [sorted((z.args[1].op,) + tuple(q.op for q in z.args[1].args if isinstance(q, T)) for z in walk(m) if z.op == "upd") for m in (x, y)]
    loops = [sorted(z.op for z in walk(m) if z.op in ("map", "fill", "mu", "filt", "sum", "exists", "first", "last", "stops", "stopsat")) for m in (x, y)]
    return places[0] == places[1] and loops[0] == loops[1]


FEASIBLE = {}


def feasible(c):
    """an effect under a condition that no case meets does not happen"""
    r = FEASIBLE.get(c)
    if r is None:
        try:
            r = norm.satisfiable(c)
        except norm.Budget:
            r = True
        FEASIBLE[c] = r
    return r


def exclusive(c, d):
    try:
        return not norm.satisfiable(conj([c, d]))
    except norm.Budget:
        return False


def callee(x):
    f = x.args[0]
    if f.op == "ext":
        return f.args[0]
    if f.op == "attr":
        return "." + f.args[1]
    return None


def clip(s, n=420):
    return s if len(s) <= n else s[:n] + "…"


def first_diff(a, b, d=0):
    """descend to the smallest differing pair"""
    while d < 60:
        d += 1
        if a.op == "rat" or b.op == "rat" or a.op != b.op or len(a.args) != len(b.args):
            return a, b
        diffs = [(x, y) for x, y in zip(a.args, b.args) if (isinstance(x, T) and isinstance(y, T) and not norm.same(x, y)) or
                 (not isinstance(x, T) and x != y) or (isinstance(x, T) != isinstance(y, T))]
        if len(diffs) != 1 or not isinstance(diffs[0][0], T) or not isinstance(diffs[0][1], T):
            return a, b
        if a.op in ("attr", "sg", "eqc", "kw", "bv"):
            return a, b
        a, b = diffs[0]
    return a, b
