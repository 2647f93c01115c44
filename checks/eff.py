"""What the effect checks share: the analysed entry points and one analysis of each."""
import traceback
from gvg import swtypes
from gvg.effects import Analyzer, Obj, reachable

_done = {}


def entries(K):
    """(label, module, node, class) of every public function and of every public method of every class, inherited ones too"""
    out = []
    for c in swtypes.CLASSES:
        cls = K.pkg.class_index.get(c)
        if cls is None:
            K.undecided(c, "the class is gone")
            continue
        names = []
        for k in K.pkg.mro(cls):
            for n in swtypes.API.get(k.name, "").split():
                if n not in names:
                    names.append(n)
        if c in ("TimeDomainMaswWorkflow", "SingleMaswWorkflow", "TimeDomainXcorrMaswWorkflow", "FrequencyDomainMaswWorkflow"):
            names = [n for n in names if n in ("__init__", "run", "__str__")]
        for n in names:
            m = K.pkg.find_method(cls, n)
            if m is None:
                K.undecided("%s.%s" % (c, n), "the method is gone")
                continue
            out.append(("%s.%s" % (c, n), m[0].module, m[1], cls, m[0]))
    for mod, n in swtypes.FUNCS:
        m = K.pkg.modules.get(mod)
        r = m and K.pkg.lookup(m, n)
        if not r or r[0] != "func":
            K.undecided("%s.%s" % (mod, n), "the function is gone")
            continue
        out.append((n, r[1], r[2], None, None))
    return out


class Res:
    pass


def analyse(K, want=None):
    an = Analyzer(K.pkg, swtypes.attr_table(), swtypes.PARAMS)
    for label, mod, node, cls, owner in entries(K):
        if want is not None and not want(label):
            continue
        r = Res()
        r.label, r.mod, r.node, r.cls, r.owner = label, mod, node, cls, owner
        r.where = "%s:%d (%s)" % (mod.path, node.lineno, label)
        r.error = None
        try:
            an.run(mod, node, cls, owner=owner)
        except Exception as e:
            r.error = "%s: %s" % (type(e).__name__, e)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r.error += " at %s:%d" % (tb.filename.split("/")[-1], tb.lineno)
        r.guess = an.guess
        r.effects, r.ambient, r.visited = list(an.effects.values()), dict(an.ambient), an.visited
        r.final, r.retval = (an.final, an.retval) if r.error is None else (None, ())
        r.self_name = node.args.args[0].arg if cls is not None and node.args.args else None
        for m, q in an.visited:
            K.funcs.add((m, q))
        K.sites += an.ncalls
        yield r


def describe(e):
    return "%s %s%s at %s" % (e.what, "" if e.obj.root == "param" else "", e.obj.show(), e.where)
