"""Every regular expression for .max files is extracted from the source by partial evaluation (text inserted by the caller
stays symbolic) and turned into an automaton over characters and group marks. Its language must contain every well-formed
line with the groups on the documented columns, and nothing beyond lines of that shape; inserted text may only
appear as a whole token inside its own group."""
from gvg.rx import NFA, Unsupported, included, word
from gvg.norm import canon
from gvg.terms import *
from gvg.interp import show

MIN_OBLIGATIONS = 10
TIME = r"\d+(\.\d*)?"
STRICT = r"-?\d+(\.\d+)?([eE][+-]?\d+)?"
LOOSE = r"-?\d+.?\d*[eE]?[+-]?\d*"
INS = {"time": "\ue000", "frequency": "\ue001", "ring": "\ue002"}
START = r"(?<!\S)"
KINDS = ("rayleigh", "love", "vertical", "radial", "transverse")


def pattern_of(K, name, args):
    """text of the compiled pattern; symbolic text is replaced by its private character"""
    f = K.func("swprocess.regex", name)
    r = K.run(f, args=args)
    t = r.term
    if t.op != "call" or t.args[0].op != "ext" or t.args[0].args[0] != "re.compile" or len(t.args) != 2:
        return None, f, show(t)[:200]
    out, todo = "", [t.args[1]]
    while todo:
        x = todo.pop()
        if is_str(x):
            out += cval(x)
        elif x.op == "str":
            todo += list(reversed(x.args))
        elif x.op == "bin" and x.args[0] == "+":
            todo += [x.args[2], x.args[1]]
        elif x.op == "param" and x.args[0] in INS:
            out += INS[x.args[0]]
        else:
            y = canon(x)
            if y is x:
                return None, f, "inserted text " + show(x)[:200]
            todo.append(y)
    return out, f, ""


def plain(p):
    return p.replace("(", "(?:")


def check(K):
    n, s = plain(STRICT), LOOSE
    def line(time, freq, kind, num, ell, cols=("(%s)",) * 5):
        a = [c % x for c, x in zip(cols, (num, num, num, ell, num))]
        return "(%s) (%s) %s %s 1" % (time, freq, kind, " ".join(a))
    ell_s, ell_l = r"%s|-?inf|nan" % n, r"%s|-?inf|nan" % s
    for kind in KINDS:
        K_ = kind.capitalize()
        decide(K, "peak line of %s" % kind, "get_peak_from_max", {"wavetype": const(kind), "time": const(r"\d+\.?\d*"), "frequency": const(LOOSE)},
               START + line(plain(TIME), n, K_, n, ell_s), START + line(r"\d+.?\d*", s, K_, s, ell_l))
    decide(K, "peak line of a given time and frequency", "get_peak_from_max", {"wavetype": const("rayleigh"), "time": mk("param", "time"), "frequency": mk("param", "frequency")},
           START + line(INS["time"], INS["frequency"], "Rayleigh", n, ell_s), START + line(INS["time"], INS["frequency"], "Rayleigh", s, ell_l))
    default(K, "default time", "get_peak_from_max", "time", plain(TIME), r"\d+.?\d*")
    default(K, "default frequency", "get_peak_from_max", "frequency", n, s)
    decide(K, "counting lines of a given time", "get_all", {"wavetype": const("love"), "time": mk("param", "time")},
           START + INS["time"] + " .* Love .* 1", START + INS["time"] + " .* Love .* 1")
    decide(K, "counting lines of a given time, any wave", "get_all", {"wavetype": NONE, "time": mk("param", "time")},
           START + INS["time"] + " .* 1", START + INS["time"] + " .* 1")
    kind_line = r"%s %s (\S+) %s %s %s (?:%s) %s 1"
    decide(K, "wave type column", "get_wavetype", {}, kind_line % (plain(TIME), n, n, n, n, ell_s, n), kind_line % (r"\d+.?\d*", s, s, s, s, ell_l, s))
    decide(K, "process type", "get_process_type", {}, r"PROCESS_TYPE=(\S+)", r"PROCESS_TYPE=(\S+)")
    decide(K, "number of maxima", "get_nmaxima", {}, r"N_MAXIMA=(\d+)", r"N_MAXIMA=(\d+)")
    # the log of a SPAC processing
    ring = r" --- Ring \((%s) m, (%s) m\)"
    decide(K, "ring limits", "get_spac_ring", {}, ring % (n, n), ring % (s, s))
    decide(K, "version", "get_geopsy_version", {}, r"geopsypack-(\d+)\.(\d+)\.(\d+)", r"geopsypack-(\d+).(\d+).(\d+)")


def decide(K, name, fn, args, low, high):
    text, f, why = pattern_of(K, fn, args)
    where = K.where(f)
    K.sites += 1
    if text is None:
        K.undecided(name, "pattern not determined: " + why, where)
        return
    try:
        a = NFA(text)
    except Unsupported as e:
        K.undecided(name, "pattern not modelled: %s" % e, where)
        return
    lo, hi = NFA(low), NFA(high)
    odd = {m for m in a.marks() if m[0] == "@"} - hi.marks()
    if odd:
        K.undecided(name, "position assertion not modelled: %s" % sorted(odd), where)
        return
    try:
        w = included(lo, a)
        v = included(a, hi)
    except Unsupported as e:
        K.undecided(name, str(e), where)
        return
    K.require(name + ": accepts every well-formed text", w is None, "does not match %r (marks show the groups) with %r" % (word(w), text), where)
    K.require(name + ": accepts nothing else", v is None, "also matches %r (marks show the groups) with %r" % (word(v), text), where)


def default(K, name, fn, param, low, high):
    import ast
    f = K.func("swprocess.regex", fn)
    a = f.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults)).get(param)
    if d is None:
        return
    it = K.interp()
    from gvg.interp import State
    v = None
    r = K.pkg.lookup(f.module, d.id) if isinstance(d, ast.Name) else None
    if isinstance(d, ast.Constant):
        v = d.value
    elif r:
        node = r[2] if len(r) > 2 else None
        if isinstance(node, ast.Constant):
            v = node.value
        elif isinstance(r[1], ast.Constant):
            v = r[1].value
    if not isinstance(v, str):
        K.undecided(name, "default not determined", K.where(f))
        return
    try:
        a, lo, hi = NFA("(%s)" % v), NFA("(%s)" % low), NFA("(%s)" % high)
        w, x = included(lo, a), included(a, hi)
    except Unsupported as e:
        K.undecided(name, str(e), K.where(f))
        return
    K.require(name + ": accepts every number", w is None, "does not match %r" % word(w), K.where(f))
    K.require(name + ": accepts nothing else", x is None, "also matches %r" % word(x), K.where(f))
