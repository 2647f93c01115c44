"""Join-based abstract interpreter: turns a function of the package into gated values.

Every branch is analysed once and re-joined with a gate (no path enumeration, no solver,
nothing of the analysed program is executed); loops are analysed once per pass and
summarised as map / filter / sum / fill / last-value / exists terms."""
import ast
import time
from .terms import *
from . import terms as TM
from . import norm
from .loader import *



JOINS = ("numpy.hstack", "numpy.vstack", "numpy.concatenate")


def dims(x):
    """number of dimensions of an array, where it shows"""
    if x.op == "full":
        sh = x.args[0]
        return len(sh.args) if sh.op == "seq" else 1 if sh.op in ("rat", "bin", "len") or is_num(sh) else None
    return 1 if vector(x) else None


def joined(name, ts, ks):
    """the several ways of joining arrays, as numpy.concatenate"""
    axis = ks.get("axis")
    if len(ts) != 1 or set(ks) - ({"axis"} if name == "numpy.concatenate" else set()) or ts[0].op != "seq":
        return None
    parts = ts[0]
    nd = next((d for d in map(dims, parts.args) if d is not None), None)
    if name == "numpy.concatenate":
        if axis is None or nd is None or as_int(axis) is None or as_int(axis) >= 0:
            return None
        ax = nd + as_int(axis)
    elif nd is None:
        return None
    elif name == "numpy.hstack":
        ax = 0 if nd == 1 else 1
    else:
        ax = 0 if nd > 1 else None
    if ax is None:
        return None
    call = [mk("ext", "numpy.concatenate"), parts]
    return mk("call", *(call if ax == 0 else call + [mk("kw", "axis", const(ax))]))


class V:
    pass


class Ref(V):
    __slots__ = ("rid", "kind", "cls")
    n = [0]

    def __init__(self, kind, cls=None):
        Ref.n[0] += 1
        self.rid, self.kind, self.cls = Ref.n[0], kind, cls

    def __repr__(self):
        return "<%s%s #%d>" % (self.kind, ":" + self.cls.name if self.cls else "", self.rid)


class TupleV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class FuncV(V):
    __slots__ = ("node", "module", "frame", "cls", "defaults")

    def __init__(self, node, module, frame=None, cls=None, defaults=None):
        self.node, self.module, self.frame, self.cls, self.defaults = node, module, frame, cls, defaults

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class BoundV(V):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassV(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class SuperV(V):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class IteV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class IterV(V):
    """lazy zip / enumerate / range / reversed"""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


class MethV(V):
    """method of a modelled container / symbolic receiver"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Cell:
    __slots__ = ("kind", "items", "sym")

    def __init__(self, kind, items=None, sym=None):
        self.kind, self.items, self.sym = kind, items, sym

    def copy(self):
        it = self.items
        if isinstance(it, list):
            it = list(it)
        elif isinstance(it, dict):
            it = dict(it)
        return Cell(self.kind, it, self.sym)


LAZY = {}


class State:
    def __init__(self):
        self.frames, self.heap, self.fields, self.arr, self.quant = {}, {}, {}, {}, []
        self.pc = ()
        self.dead = False

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.fields = dict(self.fields)
        s.arr = dict(self.arr)
        s.quant = list(self.quant)
        s.pc = self.pc
        s.dead = self.dead
        return s

    def become(self, o):
        self.frames, self.heap, self.fields, self.arr, self.quant = o.frames, o.heap, o.fields, o.arr, o.quant
        self.pc, self.dead = o.pc, o.dead

    def wcell(self, ref):
        c = self.heap[ref.rid].copy()
        self.heap[ref.rid] = c
        return c


class Event:
    __slots__ = ("kind", "name", "args", "pc", "loops", "seq", "node", "func", "recv", "kwargs")

    def __init__(self, kind, name, args, pc, loops, seq, node, func, recv=None, kwargs=None):
        self.kind, self.name, self.args, self.pc, self.loops = kind, name, args, pc, loops
        self.seq, self.node, self.func, self.recv, self.kwargs = seq, node, func, recv, kwargs or {}

    def __repr__(self):
        return "<%s %s(%s) @%s>" % (self.kind, self.name, ", ".join(map(repr, self.args)), getattr(self.node, "lineno", "?"))


class Exit:
    __slots__ = ("kind", "st", "val", "exc")

    def __init__(self, kind, st, val=None, exc=None):
        self.kind, self.st, self.val, self.exc = kind, st, val, exc


LOGNAMES = ("logger", "logging", "warnings", "print")
PURE_PREFIX = ("numpy.", "math.", "scipy.", "re.", "datetime.", "json.load", "pathlib.", "os.path.", "obspy.UTCDateTime",
               "matplotlib.colormaps", "itertools.", "functools.", "operator.", "copy.", "obspy.io.", "collections.")
PURE_BUILTINS = {"len", "abs", "min", "max", "sum", "range", "zip", "enumerate", "float", "int", "str", "bool", "list", "tuple",
                 "dict", "set", "sorted", "reversed", "round", "isinstance", "getattr", "hasattr", "iter", "next", "type", "map",
                 "filter", "any", "all", "repr", "format", "callable", "issubclass", "divmod", "pow", "complex", "slice", "id",
                 "frozenset", "bytes", "ord", "chr", "object", "vars"}
import builtins as _bi
BUILTINS = set(dir(_bi))
EXC_NAMES = {n for n in BUILTINS if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear", "update", "fill", "resize",
            "setdefault", "add", "discard", "popitem", "__setitem__", "__delitem__"}
# positional parameter names of the library calls the repository uses
SIGS = {
    "numpy.sum": ["a", "axis"], "numpy.mean": ["a", "axis"], "numpy.nanmean": ["a", "axis"], "numpy.max": ["a", "axis"],
    "numpy.min": ["a", "axis"], "numpy.std": ["a", "axis", "dtype", "out", "ddof"], "numpy.nanstd": ["a", "axis", "dtype", "out", "ddof"],
    "numpy.var": ["a", "axis", "dtype", "out", "ddof"],
    "numpy.argmax": ["a", "axis"], "numpy.argmin": ["a", "axis"], "numpy.delete": ["arr", "obj", "axis"],
    "numpy.fft.fft": ["a", "n", "axis"], "numpy.fft.rfft": ["a", "n", "axis"], "numpy.concatenate": ["arrays", "axis"],
    "numpy.linspace": ["start", "stop", "num"], "numpy.geomspace": ["start", "stop", "num"], "numpy.full": ["shape", "fill_value", "dtype"],
    "numpy.full_like": ["a", "fill_value", "dtype"], "numpy.zeros": ["shape", "dtype"], "numpy.ones": ["shape", "dtype"],
    "numpy.empty": ["shape", "dtype"], "numpy.zeros_like": ["a", "dtype"], "numpy.ones_like": ["a", "dtype"], "numpy.empty_like": ["a", "dtype"],
    "numpy.array": ["object", "dtype"], "numpy.asarray": ["a", "dtype"], "numpy.expand_dims": ["a", "axis"], "numpy.trapz": ["y", "x", "dx", "axis"],
    "numpy.corrcoef": ["x", "y", "rowvar"], "scipy.signal.correlate": ["in1", "in2", "mode", "method"], "numpy.sort": ["a", "axis"],
    "numpy.flip": ["m", "axis"], "numpy.nanmax": ["a", "axis"], "numpy.nanmin": ["a", "axis"], "numpy.any": ["a", "axis"], "numpy.all": ["a", "axis"],
    "numpy.count_nonzero": ["a", "axis"], "numpy.cumsum": ["a", "axis"], "numpy.prod": ["a", "axis"], "numpy.reshape": ["a", "shape"],
    "numpy.tile": ["A", "reps"], "numpy.round": ["a", "decimals"], "round": ["number", "ndigits"], "numpy.average": ["a", "axis", "weights"],
    "open": ["file", "mode"], "numpy.median": ["a", "axis"], "numpy.argsort": ["a", "axis"], "numpy.outer": ["a", "b"], "numpy.take": ["a", "indices", "axis"],
    "numpy.compress": ["condition", "a", "axis"], "numpy.isclose": ["a", "b"], "numpy.allclose": ["a", "b"], "numpy.transpose": ["a", "axes"],
    "datetime.datetime": ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"], "os.mkdir": ["path", "mode"],
    "datetime.timedelta": ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"],
    "datetime.date": ["year", "month", "day"], "obspy.Stream": ["traces"], "obspy.Trace": ["data", "header"], "os.makedirs": ["name", "mode", "exist_ok"],
    "obspy.UTCDateTime": ["year", "month", "day", "hour", "minute", "second", "microsecond"],
    "scipy.signal.windows.tukey": ["M", "alpha"], "numpy.expand_dims": ["a", "axis"], "obspy.read": ["pathname_or_url"],
}
SIGS.update({"scipy.signal.detrend": ["data", "axis", "type"], "numpy.diff": ["a", "n", "axis"], "numpy.nansum": ["a", "axis"],
             "numpy.hanning": ["M"], "numpy.clip": ["a", "a_min", "a_max"], "numpy.interp": ["x", "xp", "fp"]})
# arguments that say what the library does anyway
ANYHOW = {
    "scipy.interpolate.interp1d": dict(kind="linear", axis=-1, copy=True, bounds_error=None, assume_sorted=False),
    "scipy.signal.correlate": dict(mode="full", method="auto"), "scipy.signal.detrend": dict(axis=-1, type="linear"),
    "scipy.signal.windows.tukey": dict(alpha=Fraction(1, 2), sym=True), "numpy.fft.fft": dict(n=None, axis=-1, norm=None), "numpy.fft.rfft": dict(n=None, axis=-1, norm=None),
    "numpy.linspace": dict(num=50, endpoint=True, retstep=False, dtype=None), "numpy.geomspace": dict(num=50, endpoint=True, dtype=None),
    "numpy.corrcoef": dict(rowvar=True), "numpy.diff": dict(n=1, axis=-1), "numpy.std": dict(axis=None, ddof=0), "numpy.nanstd": dict(axis=None, ddof=0),
    "numpy.var": dict(axis=None, ddof=0), "numpy.allclose": dict(equal_nan=False), "numpy.argsort": dict(axis=-1, kind=None), "numpy.sort": dict(axis=-1, kind=None),
    "matplotlib.pyplot.subplots": dict(nrows=1, ncols=1, sharex=False, sharey=False, squeeze=True), "numpy.delete": dict(axis=None), "numpy.concatenate": dict(axis=0),
    **{"numpy." + f: dict(axis=None, keepdims=False) for f in ("sum", "mean", "nanmean", "max", "min", "nanmax", "nanmin", "argmax", "argmin", "any", "all", "prod", "median", "count_nonzero")},
}
# functions that answer one truth value
YESNO = {"numpy.allclose", "numpy.array_equal", "os.path.isdir", "os.path.isfile", "os.path.exists", "callable", "issubclass", "math.isclose"}
MSIGS = {"trim": ["starttime", "endtime"], "merge": ["method"], "slice": ["starttime", "endtime"]}
# calls whose first argument names a file: a path and the text of it are the same name
FILES = {"open", "obspy.read", "os.mkdir", "os.makedirs", "os.path.isdir", "os.path.isfile", "os.path.exists", "pandas.read_csv", "os.remove", "os.listdir"}
PATH_METHODS = {"is_dir": "os.path.isdir", "is_file": "os.path.isfile", "exists": "os.path.exists", "mkdir": "os.mkdir", "open": "open", "unlink": "os.remove"}
ALIAS = {"numpy.absolute": "abs", "numpy.abs": "abs", "math.fabs": "abs", "numpy.fabs": "abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
         "numpy.conj": "numpy.conjugate", "numpy.around": "numpy.round", "numpy.true_divide": "numpy.divide", "math.pi": "numpy.pi",
         "math.sqrt": "numpy.sqrt", "numpy.invert": "numpy.logical_not", "numpy.bitwise_not": "numpy.logical_not", "math.exp": "numpy.exp",
         "numpy.bitwise_and": "numpy.logical_and", "numpy.bitwise_or": "numpy.logical_or", "math.isnan": "numpy.isnan",
         "scipy.fft.fft": "numpy.fft.fft", "math.log10": "numpy.log10", "math.inf": "numpy.inf", "numpy.Inf": "numpy.inf", "math.nan": "numpy.nan",
         "numpy.NaN": "numpy.nan", "scipy.pi": "numpy.pi", "numpy.transpose_": "numpy.transpose", "numpy.clip_": "numpy.clip",
         "signal.windows.tukey": "scipy.signal.windows.tukey", "scipy.signal.tukey": "scipy.signal.windows.tukey",
         "numpy.trapezoid": "numpy.trapz", "numpy.argwhere_": "numpy.argwhere", "numpy.float": "float", "numpy.emath.sqrt": "numpy.sqrt"}
ARITH2 = {"numpy.multiply": "*", "numpy.add": "+", "numpy.subtract": "-", "numpy.divide": "/", "numpy.power": "**", "math.pow": "**", "pow": "**",
          "numpy.floor_divide": "//", "numpy.mod": "%", "numpy.remainder": "%", "operator.add": "+", "operator.mul": "*", "operator.sub": "-",
          "operator.truediv": "/"}
CMP2 = {"numpy.greater": ">", "numpy.less": "<", "numpy.greater_equal": ">=", "numpy.less_equal": "<=", "numpy.equal": "==", "numpy.not_equal": "!=",
        "operator.lt": "<", "operator.gt": ">", "operator.le": "<=", "operator.ge": ">=", "operator.eq": "==", "operator.ne": "!="}
NP_METHODS = {"sum", "mean", "max", "min", "std", "argmax", "argmin", "squeeze", "flatten", "ravel", "reshape", "astype", "copy", "conj", "conjugate",
              "transpose", "round", "any", "all", "dot", "cumsum", "prod", "argsort", "take", "var", "tolist", "swapaxes", "nonzero"}
ALLOC = {"numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like",
         "numpy.full_like", "numpy.copy", "numpy.arange", "numpy.tile"}

DEFAULT_ATTR_TYPES = {
    ("Array1D", "sensors"): ("list", "Sensor1C"), ("Array1D", "source"): "Source", ("Array1DwSource", "source"): "SourceWithSignal",
    ("PeaksSuite", "peaks"): ("list", "Peaks"),
    ("AbstractMaswWorkflow", "array"): "Array1D", ("TimeDomainXcorrMaswWorkflow", "array"): "Array1DwSource",
    ("AbstractMaswWorkflow", "noise"): "Array1D", ("AbstractMaswWorkflow", "signal"): "Array1D",
    ("AbstractMaswWorkflow", "snr"): "SignaltoNoiseRatio", ("AbstractWavefieldTransform", "array"): "Array1D",
}


EVAL_SECONDS = 120.0


class Interp:
    def __init__(self, pkg, types=None, no_inline=(), attr_types=None, ret_types=None, consts=None, max_depth=40, trust_types=True):
        self.pkg = pkg
        self.types = dict(types or {})
        self.registries = {}
        self.no_inline = set(no_inline)
        self.attr_types = dict(DEFAULT_ATTR_TYPES)
        self.attr_types.update(attr_types or {})
        self.ret_types = dict(ret_types or {})
        self.events = []
        self.sink = []
        self.loops = []
        self.depth = 0
        self.max_depth = max_depth
        self.nframe = 0
        self.funcs_seen = set()
        self.risk = None
        self.limit = time.monotonic() + EVAL_SECONDS
        self.trust_types = trust_types
        self.callstack = []
        self.opaque_n = 0
        self.inlined = 0
        self.unsupported = []
        self.global_writes = []

    # ------------------------------------------------------------ utilities
    def fresh_frame(self, st):
        self.nframe += 1
        st.frames[self.nframe] = {}
        return self.nframe

    def opaque(self, tag, node=None, *deps):
        self.unsupported.append((tag, getattr(node, "lineno", 0)))
        return mk("opaque", tag, *[d for d in deps if isinstance(d, T)])

    def cname(self, t):
        """class of a symbolic term, or None / ('list', name)"""
        r = self.types.get(t)
        if r is not None:
            return r
        if t.op == "obj":
            return t.args[0]
        if t.op == "attr":
            b = self.cname(t.args[0])
            if isinstance(b, str):
                c = self.pkg.class_index.get(b)
                if c:
                    for k in self.pkg.mro(c):
                        x = self.attr_types.get((k.name, t.args[1]))
                        if x:
                            return x
            return None
        if t.op == "sub":
            b = self.cname(t.args[0])
            if isinstance(b, tuple) and b[0] == "list":
                return b if t.args[1].op == "slice" else b[1]
            if isinstance(b, tuple) and b[0] == "dict":
                return b[1]
            return None
        if t.op == "ite":
            return self.cname(t.args[1]) or self.cname(t.args[2])
        if t.op == "map":
            b = self.cname(open_binder(t, fresh())[1])
            return ("list", b) if b else None
        if t.op == "filt":
            b = self.cname(open_binder(t, fresh())[2])
            return ("list", b) if b else None
        if t.op == "last":
            return self.cname(open_binder(t, fresh())[1])
        if t.op == "seq" and t.args:
            b = self.cname(t.args[0])
            return ("list", b) if b else None
        if t.op == "call" and t.args[0].op == "ext":
            return self.ret_types.get(t.args[0].args[0])
        return None

    def cinfo(self, t):
        n = self.cname(t)
        if isinstance(n, str):
            return self.pkg.class_index.get(n)
        return None

    # ------------------------------------------------------------ values -> terms
    def tt(self, v, st, seen=()):
        if isinstance(v, T):
            return self.deref(v, st)
        if isinstance(v, Ref):
            if v.rid in seen:
                return mk("opaque", "cycle")
            cell = st.heap.get(v.rid)
            if cell is None:
                return mk("opaque", "lost-ref")
            seen = seen + (v.rid,)
            if cell.sym is not None:
                return cell.sym
            if v.kind == "list" or v.kind == "set":
                return mk("seq", *[self.tt(x, st, seen) for x in cell.items])
            if v.kind == "dict":
                out = []
                for k, x in cell.items.items():
                    out += [k, self.tt(x, st, seen)]
                return mk("dict", *out)
            if v.kind == "obj":
                out = [v.cls.name]
                for k in sorted(cell.items):
                    out += [k, self.tt(cell.items[k], st, seen)]
                return mk("obj", *out)
            return cell.sym if cell.sym is not None else mk("opaque", "cell")
        if isinstance(v, TupleV):
            return mk("seq", *[self.tt(x, st, seen) for x in v.items])
        if isinstance(v, IteV):
            return ite(v.c, self.tt(v.a, st, seen), self.tt(v.b, st, seen))
        if isinstance(v, ClassV):
            return mk("cls", v.info.name)
        if isinstance(v, FuncV):
            return self.fn_term(v, st)
        if isinstance(v, BoundV):
            return mk("meth", v.func.name, self.tt(v.self_, st, seen))
        if isinstance(v, MethV):
            return mk("attr", self.tt(v.recv, st, seen), v.name)
        if isinstance(v, ModV):
            return mk("ext", v.mod.name)
        if isinstance(v, IterV):
            d = self.domain(v, st)
            if isinstance(d, list):
                return mk("seq", *[self.tt(x, st, seen) for x in d])
            n, el = d
            k = fresh()
            return mk_map(n, k, self.tt(el(k), st, seen))
        if isinstance(v, SuperV):
            return mk("opaque", "super")
        return mk("opaque", "value")

    def fn_term(self, f, st):
        """lambdas/functions as values: body over positional variables when possible"""
        try:
            node = f.node
            names = [a.arg for a in node.args.args]
            if len(names) > 4 or self.depth > self.max_depth - 5 or isinstance(node, ast.FunctionDef) and f.cls is None and f.frame is None:
                return mk("fn", "%s.%s" % (f.module.name, f.name))
            ev, un = list(self.events), list(self.unsupported)
            vs = [mk("fv", -1000 - i - 10 * self.depth) for i in range(len(names))]
            s = st.copy()
            r = self.tt(self.call_func(f, list(vs), {}, s, node), s)
            self.events[:] = ev
            m = {v: mk("larg", i) for i, v in enumerate(vs)}
            return mk("fn", subst(r, m))
        except RecursionError:
            raise
        except Exception:
            return mk("fn", "%s.%s" % (f.module.name, f.name))

    def deref(self, t, st):
        if not st.arr and not st.quant:
            return t
        r = st.arr.get(t)
        if r is not None:
            return r
        if t.op in ("attr", "sub", "param"):
            for (base, name, val) in reversed(st.quant):
                if name == "$":
                    k, pat = base
                    m = match_pat(pat, t, k)
                    if m is not None:
                        return subst(val, {k: m})
        return t

    # ------------------------------------------------------------ joins
    def joinv(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.joinv(c, x, y, s1, s2, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.kind in ("list", "arr", "dict", "set"):
            # distinct containers: keep value-level join in a new cell
            r = Ref(a.kind)
            out.heap[r.rid] = Cell(a.kind, None, ite(c, self.tt(a, s1), self.tt(b, s2)))
            return r
        if isinstance(a, ClassV) and isinstance(b, ClassV) and a.info is b.info:
            return a
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.frame == b.frame:
            return a
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func.node is b.func.node and a.self_ is b.self_:
            return a
        if isinstance(a, IteV) and a.c is c:
            a = a.a
        if isinstance(b, IteV) and b.c is c:
            b = b.b
        if a is b:
            return a
        return IteV(c, a, b)

    def join(self, c, s1, s2):
        out = State()
        for fid in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                out.frames[fid] = dict(f1 or f2 or {})
                continue
            d = {}
            for n in list(f1) + [x for x in f2 if x not in f1]:
                if n in f1 and n in f2:
                    d[n] = None
                else:
                    d[n] = f1.get(n, f2.get(n))
            out.frames[fid] = d
        out.heap = {}
        for rid in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(rid), s2.heap.get(rid)
            if a is None or b is None:
                out.heap[rid] = a or b
        for rid in set(s1.heap) & set(s2.heap):
            a, b = s1.heap[rid], s2.heap[rid]
            if a is b:
                out.heap[rid] = a
                continue
            if a.sym is None and b.sym is None and isinstance(a.items, dict):
                d = {}
                if a.kind == "dict" and list(a.items) != list(b.items):
                    # keys differ: gated presence
                    ks = list(a.items) + [k for k in b.items if k not in a.items]
                    for k in ks:
                        x = a.items.get(k, mk("absent"))
                        y = b.items.get(k, mk("absent"))
                        d[k] = self.joinv(c, x, y, s1, s2, out)
                else:
                    for k in list(a.items) + [k for k in b.items if k not in a.items]:
                        x = a.items.get(k, mk("absent"))
                        y = b.items.get(k, mk("absent"))
                        d[k] = self.joinv(c, x, y, s1, s2, out)
                out.heap[rid] = Cell(a.kind, d)
            elif a.sym is None and b.sym is None and isinstance(a.items, list) and len(a.items) == len(b.items):
                out.heap[rid] = Cell(a.kind, [self.joinv(c, x, y, s1, s2, out) for x, y in zip(a.items, b.items)])
            else:
                out.heap[rid] = Cell(a.kind, None, ite(c, self.cell_term(a, s1), self.cell_term(b, s2)))
        for fid in set(s1.frames) & set(s2.frames):
            f1, f2 = s1.frames[fid], s2.frames[fid]
            d = out.frames[fid]
            for n in d:
                if n in f1 and n in f2:
                    d[n] = self.joinv(c, f1[n], f2[n], s1, s2, out)
        for k in set(s1.fields) | set(s2.fields):
            a, b = s1.fields.get(k), s2.fields.get(k)
            if a is None:
                a = mk("attr", *k)
            if b is None:
                b = mk("attr", *k)
            out.fields[k] = self.joinv(c, a, b, s1, s2, out)
        for k in set(s1.arr) | set(s2.arr):
            out.arr[k] = ite(c, s1.arr.get(k, k), s2.arr.get(k, k))
        if s1.quant == s2.quant:
            out.quant = s1.quant
        else:
            n = 0
            while n < len(s1.quant) and n < len(s2.quant) and s1.quant[n] == s2.quant[n]:
                n += 1
            out.quant = list(s1.quant[:n])
            for (base, name, val) in s1.quant[n:]:
                k, pat = base
                old = pat if name == "$" else mk("attr", pat, name)
                out.quant.append((base, name, ite(c, val, old)))
            for (base, name, val) in s2.quant[n:]:
                k, pat = base
                old = pat if name == "$" else mk("attr", pat, name)
                for (b1, n1, v1) in reversed(out.quant):
                    if n1 == name:
                        m = match_pat(b1[1], pat, b1[0])
                        if m is not None:
                            old = subst(v1, {b1[0]: m})
                            break
                out.quant.append((base, name, ite(c, old, val)))
        return out

    def cell_term(self, cell, st):
        if cell.sym is not None:
            return cell.sym
        if isinstance(cell.items, list):
            return mk("seq", *[self.tt(x, st) for x in cell.items])
        out = []
        for k, x in cell.items.items():
            if isinstance(k, T):
                out += [k, self.tt(x, st)]
            else:
                out += [const(k), self.tt(x, st)]
        return mk("dict", *out)

    def join_many(self, exits, n):
        """exits: [(st, val)] mutually exclusive, pcs relative from n -> (state, val)"""
        st, val = exits[-1]
        rels = [conj(s.pc[n:]) for s, _ in exits]
        # what holds at every exit does not tell them apart
        shared = set(exits[0][0].pc[n:]).intersection(*[s.pc[n:] for s, _ in exits[1:]])
        ways = [conj([c for c in s.pc[n:] if c not in shared]) for s, _ in exits]
        out, oval = st, val
        for (s, v), r in list(zip(exits, ways))[-2::-1]:
            j = self.join(r, s, out)
            oval = self.joinv(r, v, oval, s, out, j)
            out = j
        out = out if out is not exits[-1][0] else out.copy()
        out.pc = exits[0][0].pc[:n]
        d = disj(rels)
        d = simplify_or(rels, d)
        if d is not TRUE:
            out.pc = out.pc + ((d,) if d.op != "and" else tuple(d.args))
        return out, oval

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        if isinstance(v, T):
            v = self.deref(v, st)
            return truth_term(v)
        if isinstance(v, Ref):
            cell = st.heap[v.rid]
            if v.kind == "obj":
                return TRUE
            if cell.sym is None:
                return const(len(cell.items) > 0)
            return truth_term(cell.sym) if v.kind != "arr" else truth_term(cell.sym)
        if isinstance(v, TupleV):
            return const(len(v.items) > 0)
        if isinstance(v, IteV):
            return ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        return TRUE

    # ------------------------------------------------------------ names
    def lookup(self, name, fr, st):
        f = fr
        while f is not None:
            env = st.frames.get(f["fid"])
            if env is not None and name in env:
                return env[name]
            g = f.get("func")
            if g is not None and f.get("scope") == f["fid"] and name in local_names(g.node):
                # assigned somewhere in this function, but not on the way here
                self.raise_(mk("ext", "UnboundLocalError"), st, None)
                return mk("opaque", "unbound:" + name)
            f = f["parent"]
        r = self.pkg.lookup(fr["module"], name)
        if r is None and name not in BUILTINS and not name.startswith("_") and "*" not in fr["module"].imports \
                and not getattr(fr["module"], "stub", False):
            self.raise_(mk("ext", "NameError"), st, None)
            return mk("opaque", "unbound:" + name)
        return self.global_name(name, fr["module"], st)

    def global_name(self, name, module, st):
        r = self.pkg.lookup(module, name)
        return self.from_resolution(r, st) or self.builtin(name)

    def builtin(self, name):
        if name in BUILTINS or name.startswith("_"):
            return mk("ext", name)
        return mk("ext", name)

    def from_resolution(self, r, st):
        if r is None:
            return None
        if r[0] == "func":
            return FuncV(r[2], r[1])
        if r[0] == "class":
            return ClassV(r[1])
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            return self.mkext(r[1])
        if r[0] == "expr":
            fr = {"fid": self.fresh_frame(st), "parent": None, "module": r[1], "cls": None, "self": None}
            if self.depth > self.max_depth:
                return mk("opaque", "deep-global")
            self.depth += 1
            try:
                return self.ev(r[2], fr, st)
            finally:
                self.depth -= 1
        return None

    def mkext(self, dotted):
        dotted = ALIAS.get(dotted, dotted)
        if dotted in ("numpy.newaxis",):
            return NONE
        return mk("ext", dotted)

    # ------------------------------------------------------------ attribute read
    def getattr_(self, v, name, st, node=None):
        if isinstance(v, T):
            if v.op == "ext":
                return self.mkext(v.args[0] + "." + name)
            if v.op == "ite" and (self.cinfo(v.args[1]) or self.cinfo(v.args[2])) and v.op != "obj":
                return self.split(v.args[0], v.args[1], v.args[2], lambda x, s: self.getattr_(x, name, s, node), st)
            ci = self.cinfo(v)
            key = (v, name)
            if key in st.fields:
                return st.fields[key]
            for (base, nm, val) in reversed(st.quant):
                if nm == name:
                    m = match_pat(base[1], v, base[0])
                    if m is not None:
                        return subst(val, {base[0]: m})
            if ci is not None:
                r = self.class_attr(ci, v, name, st, node)
                if r is not None:
                    return r
                return attr(v, name)
            if name == "T":
                return self.ext_call("numpy.transpose", [v], {}, st, node)
            if name == "shape" and v.op == "call" and norm.call_name(v) in ("numpy.transpose",) and False:
                return v
            if name in ("real", "imag") and False:
                pass
            if self.risk is not None:
                self.risk.append(attr(v, name))
            d = self.deref(v, st)
            if d.op == "map" and name == "size":
                return length(d)
            return MethV(v, name) if False else attr(v if d.op not in ("obj",) else d, name)
        if isinstance(v, Ref):
            if v.kind == "obj":
                cell = st.heap[v.rid]
                if cell.items is not None and name in cell.items:
                    return cell.items[name]
                r = self.class_attr(v.cls, v, name, st, node)
                if r is not None:
                    return r
                if name == "__class__":
                    return ClassV(v.cls)
                if cell.items is not None and cell.sym is None and not name.startswith("__") and self.pkg.closed(v.cls) \
                        and v.cls.name + "." + name not in self.no_inline and name not in self.no_inline:
                    self.raise_(mk("call", mk("ext", "AttributeError"), const(name)), st, node)
                    return mk("attr", mk("opaque", "noattr:" + v.cls.name), name)
                return mk("attr", mk("opaque", "noattr:" + v.cls.name), name)
            if v.kind == "arr":
                if name == "T":
                    return self.ext_call("numpy.transpose", [v], {}, st, node)
                if name in ("shape", "size", "ndim", "dtype"):
                    return attr(self.tt(v, st), name)
            return MethV(v, name)
        if isinstance(v, ModV):
            r = self.pkg.lookup(v.mod, name)
            x = self.from_resolution(r, st)
            return x if x is not None else mk("ext", v.mod.name + "." + name)
        if isinstance(v, ClassV):
            if name == "__name__":
                return const(v.info.name)
            if name == "_register" or name in ("_registry",):
                tab = self.pkg.registry_tables().get(v.info.name)
                if tab is not None:
                    # one table per registry, which registering a class during the run adds to
                    r = self.registries.get(v.info.name)
                    if r is None:
                        r = self.registries[v.info.name] = Ref("dict")
                    if r.rid not in st.heap:
                        st.heap[r.rid] = Cell("dict", {const(k): ClassV(c) for k, c in tab.items()})
                    return r
            m = self.pkg.find_method(v.info, name)
            if m:
                owner, nd = m
                f = FuncV(nd, owner.module, None, owner)
                if is_classm(nd):
                    return BoundV(f, v)
                return f
            c = self.pkg.find_const(v.info, name)
            if c:
                fr = {"fid": self.fresh_frame(st), "parent": None, "module": c[0].module, "cls": c[0], "self": None}
                return self.ev(c[1], fr, st)
            tab = self.pkg.registry_tables().get(v.info.name)
            return mk("attr", mk("cls", v.info.name), name)
        if isinstance(v, SuperV):
            selfv = v.self_
            ci = selfv.info if isinstance(selfv, ClassV) else (selfv.cls if isinstance(selfv, Ref) else self.cinfo(selfv))
            if ci is None:
                ci = v.cls
            m = self.pkg.find_method(ci, name, after=v.cls)
            if m:
                owner, nd = m
                f = FuncV(nd, owner.module, None, owner)
                if is_prop(nd):
                    return self.call_func(f, [selfv], {}, st, node)
                if is_static(nd):
                    return f
                if is_classm(nd):
                    return BoundV(f, selfv if isinstance(selfv, ClassV) else ClassV(ci))
                return BoundV(f, selfv)
            return MethV(v, name)
        if isinstance(v, IteV):
            return self.split(v.c, v.a, v.b, lambda x, s: self.getattr_(x, name, s, node), st)
        if isinstance(v, (FuncV, BoundV)):
            if name == "__name__":
                return const(v.name if isinstance(v, FuncV) else v.func.name)
            return mk("attr", self.tt(v, st), name)
        if isinstance(v, (TupleV, IterV)):
            return MethV(v, name)
        return mk("attr", self.tt(v, st), name)

    def class_attr(self, ci, selfv, name, st, node):
        if name == "__class__":
            return ClassV(ci)
        m = self.pkg.find_method(ci, name)
        if m:
            owner, nd = m
            f = FuncV(nd, owner.module, None, owner)
            if is_prop(nd):
                q = owner.name + "." + name
                if q in self.no_inline or name in self.no_inline:
                    return None
                return self.call_func(f, [selfv], {}, st, node)
            if is_static(nd):
                return f
            if is_classm(nd):
                return BoundV(f, ClassV(ci))
            return BoundV(f, selfv)
        if not self.pkg.is_inst_attr(ci, name):
            c = self.pkg.find_const(ci, name)
            if c:
                fr = {"fid": self.fresh_frame(st), "parent": None, "module": c[0].module, "cls": c[0], "self": None}
                return self.ev(c[1], fr, st)
        return None

    def split(self, c, a, b, fn, st):
        """apply fn to both alternatives under their gate and join the effects"""
        n = len(st.pc)
        s1 = st.copy()
        s1.pc = s1.pc + (c,)
        s2 = st.copy()
        s2.pc = s2.pc + (neg(c),)
        va = fn(a, s1)
        vb = fn(b, s2)
        if s1.dead and s2.dead:
            st.become(s1)
            return NONE
        if s1.dead:
            st.become(s2)
            return vb
        if s2.dead:
            st.become(s1)
            return va
        r1, r2 = conj(s1.pc[n:]), conj(s2.pc[n:])
        j = self.join(c, s1, s2)
        val = self.joinv(c, va, vb, s1, s2, j)
        j.pc = st.pc[:n]
        d = simplify_or([r1, r2], disj([r1, r2]))
        if d is not TRUE:
            j.pc = j.pc + (d,)
        st.become(j)
        return val

    # ------------------------------------------------------------ attribute write
    def setattr_(self, v, name, val, st, node):
        if isinstance(v, Ref) and v.kind == "obj":
            m = self.pkg.find_method(v.cls, name)
            st.wcell(v).items[name] = val
            return
        if isinstance(v, T):
            if v.op == "ite" and not self.cinfo(v):
                pass
            self.event("setattr", name, [self.tt(val, st)], st, node, recv=v)
            st.fields[(v, name)] = val
            return
        if isinstance(v, IteV):
            self.split(v.c, v.a, v.b, lambda x, s: self.setattr_(x, name, val, s, node), st)
            return
        self.event("setattr", name, [self.tt(val, st)], st, node, recv=self.tt(v, st))
        if isinstance(v, ClassV):
            st.fields[(mk("cls", v.info.name), name)] = val

    def event(self, kind, name, args, st, node, recv=None, kwargs=None):
        fn = self.callstack[-1] if self.callstack else None
        self.events.append(Event(kind, name, args, st.pc, tuple(self.loops), len(self.events), node, fn, recv, kwargs))

    # ------------------------------------------------------------ item write
    def array_like(self, v, st):
        return True

    def store(self, old, ti, tv):
        """array store, with stores that overwrite every element turned into the value itself"""
        full = lambda x: x.op == "slice" and all(y is NONE for y in x.args)
        idx = ti.args if ti.op == "seq" else (ti,)
        if idx and all(full(x) or as_int(x) == 0 for x in idx) and any(full(x) for x in idx):
            if all(full(x) for x in idx):
                if is_num(tv):
                    sh = self.shape_of(old)
                    return mk("full", mk("seq", *sh) if sh else attr(old, "shape"), tv)
                return tv
            sh = self.shape_of(old)
            if sh is not None and len(sh) == len(idx) == 2 and not is_num(tv) and \
                    all(full(x) or as_int(n) == 1 for x, n in zip(idx, sh)):
                return mk("call", mk("ext", "numpy.reshape"), tv, mk("kw", "shape", mk("seq", *sh)))
        return upd(old, ti, tv)

    def setitem(self, v, idx, val, st, node, fr=None, target=None):
        ti = self.tt(idx, st)
        tv = self.tt(val, st)
        if isinstance(v, Ref):
            cell = st.heap[v.rid]
            if v.kind == "dict" and cell.sym is None and ti.op == "const":
                st.wcell(v).items[ti] = val
                return
            if v.kind == "list" and cell.sym is None and as_int(ti) is not None and -len(cell.items) <= as_int(ti) < len(cell.items):
                st.wcell(v).items[as_int(ti)] = val
                return
            old = self.tt(v, st)
            c = st.wcell(v)
            c.sym, c.items = self.store(old, ti, tv), None
            return
        if isinstance(v, T):
            self.event("mutate", "setitem", [ti, tv], st, node, recv=v)
            st.arr[v] = self.store(self.deref(v, st), ti, tv)
            self.through(v, st.arr[v], st)
            return
        if isinstance(v, IteV):
            self.split(v.c, v.a, v.b, lambda x, s: self.setitem(x, idx, val, s, node), st)
            return
        self.event("mutate", "setitem", [ti, tv], st, node, recv=self.tt(v, st))

    def through(self, v, new, st):
        """a store into a part of an array is a store into the array"""
        full = mk("slice", NONE, NONE, NONE)

        def copies(i):
            return i.op in ("cmp", "and", "or", "not", "truthy", "map", "filt", "isnone", "concat", "full", "upd") or is_str(i) or \
                i.op == "call" and (norm.call_name(i) or "").startswith("numpy.") or i.op == "seq" and any(map(copies, i.args))
        while v.op == "sub" and not copies(v.args[1]):
            x, i = v.args
            idx = list(i.args) if i.op == "seq" else [i]
            while True:
                home = None
                if x in st.arr:
                    home = ("arr", x)
                else:
                    home = next((("arr", q) for q, y in st.arr.items() if y is x), None) or \
                        next((("cell", r) for r, c in st.heap.items() if c.kind == "arr" and c.items is None and c.sym is x), None)
                    if home is None and x.op == "param":
                        home = ("arr", x)
                if home is not None:
                    break
                if x.op == "sub" and x.args[1].op not in ("slice", "seq") and not copies(x.args[1]):
                    idx = [x.args[1]] + idx
                    x = x.args[0]
                    continue
                if x.op == "call" and norm.call_name(x) == "numpy.transpose" and len(x.args) == 2 and len(idx) <= 2:
                    idx = [full, idx[0]] if len(idx) == 1 else idx[::-1]
                    x = x.args[1]
                    continue
                break
            at = idx[0] if len(idx) == 1 else mk("seq", *idx)
            if home is not None:
                if home[0] == "arr":
                    st.arr[home[1]] = new = self.store(self.deref(home[1], st), at, new)
                    v = home[1]
                    continue
                c = st.heap[home[1]].copy()
                c.sym = self.store(x, at, new)
                st.heap[home[1]] = c
                return
            if x.op != "sub":
                return
            new = self.store(x, at, new)
            v = x

    def delitem(self, v, idx, st, node):
        ti = self.tt(idx, st)
        if isinstance(v, Ref):
            cell = st.heap[v.rid]
            if v.kind == "dict" and cell.sym is None and ti.op == "const":
                c = st.wcell(v)
                if ti in c.items:
                    del c.items[ti]
                return
            if v.kind == "list" and cell.sym is None and as_int(ti) is not None and -len(cell.items) <= as_int(ti) < len(cell.items):
                del st.wcell(v).items[as_int(ti)]
                return
            old = self.tt(v, st)
            c = st.wcell(v)
            c.sym, c.items = mk("del", old, ti), None
            return
        t = self.tt(v, st)
        if isinstance(v, T):
            if self.risk is not None:
                self.risk.append(sub(t, ti))
            self.event("mutate", "delitem", [ti], st, node, recv=v)
            st.arr[v] = mk("del", t, ti)

    def getitem(self, v, idx, st, node=None):
        if not (isinstance(v, Ref) and v.kind != "arr"):
            t0 = self.tt(idx, st)
            if t0 is NONE or t0.op == "seq" and len(t0.args) == 2 and t0.args[0] is NONE and t0.args[1].op == "slice" and all(y is NONE for y in t0.args[1].args):
                tv = self.tt(v, st)
                if tv.op not in ("dict", "param") or tv.op == "param" and t0 is not NONE:
                    return self.ext_call("_asrow", [tv], {}, st, node)
        if isinstance(v, Ref):
            cell = st.heap[v.rid]
            if v.kind == "obj":
                m = self.pkg.find_method(v.cls, "__getitem__")
                if m:
                    return self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v, idx], {}, st, node)
                return sub(self.tt(v, st), self.tt(idx, st))
            ti = self.tt(idx, st)
            if cell.sym is None:
                if v.kind == "list":
                    i = as_int(ti)
                    if i is not None and -len(cell.items) <= i < len(cell.items):
                        return cell.items[i]
                    sl = slice_of(ti)
                    if sl is not None:
                        r = Ref("list")
                        st.heap[r.rid] = Cell("list", cell.items[sl])
                        return r
                if v.kind == "dict":
                    if ti in cell.items:
                        x = cell.items[ti]
                        return x
                    if ti.op != "const" and cell.items and all(k.op == "const" for k in cell.items):
                        return self.dict_select(cell.items, ti, None, st, node)
                    if ti.op == "const" and all(k.op == "const" for k in cell.items):
                        self.raise_(mk("call", mk("ext", "KeyError"), ti), st, node, TRUE)
                        return NONE
            return sub(self.tt(v, st), ti)
        if isinstance(v, TupleV):
            ti = self.tt(idx, st)
            i = as_int(ti)
            if i is not None and -len(v.items) <= i < len(v.items):
                return v.items[i]
            sl = slice_of(ti)
            if sl is not None:
                return TupleV(v.items[sl])
            return sub(self.tt(v, st), ti)
        if isinstance(v, IteV):
            return self.split(v.c, v.a, v.b, lambda x, s: self.getitem(x, idx, s, node), st)
        if isinstance(v, T):
            ci = self.cinfo(v)
            if ci is not None:
                m = self.pkg.find_method(ci, "__getitem__")
                if m:
                    return self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v, idx], {}, st, node)
            ti = self.tt(idx, st)
            d = self.deref(v, st)
            r = sub(d, ti)
            if self.risk is not None:
                self.risk.append(r)
            return r
        if isinstance(v, IterV):
            return sub(self.tt(v, st), self.tt(idx, st))
        return sub(self.tt(v, st), self.tt(idx, st))

    def dict_select(self, items, ti, default, st, node, raises=True):
        out = default
        conds = []
        for k, x in items.items():
            conds.append(cmp_("==", ti, k))
        if default is None:
            miss = conj([neg(c) for c in conds])
            self.raise_(mk("call", mk("ext", "KeyError"), ti), st, node, miss)
        ks = list(items.items())
        if out is None:
            out = ks[-1][1]
            ks, conds = ks[:-1], conds[:-1]
        for (k, x), c in reversed(list(zip(ks, conds))):
            out = self.joinv(c, x, out, st, st, st)
        return out

    def raise_(self, exc, st, node, cond=TRUE):
        """conditional raise; st continues under not cond"""
        if cond is FALSE:
            return
        s = st.copy()
        if cond is not TRUE:
            s.pc = s.pc + (cond,)
        self.event("raise", exc_name(exc), [exc] if isinstance(exc, T) else [], s, node)
        self.sink.append(Exit("raise", s, None, exc))
        if cond is TRUE:
            st.dead = True
        else:
            st.pc = st.pc + (neg(cond),)

    # ------------------------------------------------------------ iteration domains
    def domain(self, v, st):
        """-> list of values (concrete) or (n, fn(k)->value)"""
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, Ref):
            cell = st.heap[v.rid]
            if v.kind == "obj":
                m = self.pkg.find_method(v.cls, "__iter__")
                if m:
                    return self.domain(self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v], {}, st, None), st)
                m = self.pkg.find_method(v.cls, "__getitem__")
                if m:
                    k = fresh()
                    return (self.len_(v, st), lambda k: self.getitem(v, k, st))
            if cell.sym is None:
                if v.kind in ("list", "set"):
                    return list(cell.items)
                if v.kind == "dict":
                    return list(cell.items.keys())
            if v.kind == "dict":
                t = mk("keys", self.tt(v, st))
                return (length(t), lambda k: sub(t, k))
            return self.domain(self.tt(v, st), st)
        if isinstance(v, IterV):
            if v.kind == "zip":
                ds = [self.domain(p, st) for p in v.parts]
                if all(isinstance(d, list) for d in ds):
                    return [TupleV(list(x)) for x in zip(*ds)]
                ns, fs = [], []
                for p, d in zip(v.parts, ds):
                    if isinstance(d, list):
                        t = mk("seq", *[self.tt(x, st) for x in d])
                        ns.append(const(len(d)))
                        fs.append(lambda k, t=t: sub(t, k))
                    else:
                        ns.append(d[0])
                        fs.append(d[1])
                n = as_int(min_len(ns))
                if n is not None and n <= 40 and any(isinstance(d, list) for d in ds):
                    return [TupleV([d[k] if isinstance(d, list) else f(const(k)) for d, f in zip(ds, fs)]) for k in range(n)]
                return (min_len(ns), lambda k: TupleV([f(k) for f in fs]))
            if v.kind == "enumerate":
                d = self.domain(v.parts[0], st)
                start = v.parts[1]
                if isinstance(d, list):
                    return [TupleV([binop("+", const(i), start), x]) for i, x in enumerate(d)]
                return (d[0], lambda k: TupleV([k if start is const(0) else binop("+", k, start), d[1](k)]))
            if v.kind == "range":
                a, b, c = v.parts
                ia, ib, ic = as_int(a), as_int(b), as_int(c)
                if None not in (ia, ib, ic) and ic:
                    r = range(ia, ib, ic)
                    if len(r) <= 40:
                        return [const(x) for x in r]
                if ic == 1:
                    n = b if ia == 0 else binop("-", b, a)
                    return (n, lambda k: k if ia == 0 else binop("+", k, a))
                if ic == -1:
                    return (binop("-", a, b), lambda k: binop("-", a, k))
                return (mk("rangelen", a, b, c), lambda k: binop("+", a, binop("*", k, c)))
            if v.kind == "reversed":
                d = self.domain(v.parts[0], st)
                if isinstance(d, list):
                    return d[::-1]
                n, f = d
                return (n, lambda k: f(binop("-", binop("-", n, k), const(1))))
            if v.kind == "items":
                r = v.parts[0]
                if isinstance(r, Ref) and st.heap[r.rid].sym is None:
                    return [TupleV([k, x]) for k, x in st.heap[r.rid].items.items()]
                t = self.tt(r, st)
                if t.op == "dict":
                    return [TupleV([t.args[i], t.args[i + 1]]) for i in range(0, len(t.args), 2)]
                ks = mk("keys", t)
                return (mk("len", t), lambda k: TupleV([sub(ks, k), sub(t, sub(ks, k))]))
            if v.kind == "map":
                d = self.domain(v.parts[1], st)
                f = v.parts[0]
                if isinstance(d, list):
                    return [self.call(f, [x], {}, st, None) for x in d]
                return (d[0], lambda k: self.call(f, [d[1](k)], {}, st, None))
        if isinstance(v, IteV):
            t = self.tt(v, st)
            return self.domain(t, st)
        if isinstance(v, T):
            ci = self.cinfo(v)
            if ci is not None:
                m = self.pkg.find_method(ci, "__iter__")
                if m:
                    return self.domain(self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v], {}, st, None), st)
                m = self.pkg.find_method(ci, "__getitem__")
                if m:
                    return (self.len_(v, st), lambda k: self.getitem(v, k, st))
            t = self.deref(v, st)
            if t.op == "seq" and not any(a.op == "star" for a in t.args):
                return list(t.args)
            if t.op == "dict":
                return [t.args[i] for i in range(0, len(t.args), 2)]
            if is_str(t):
                return [const(c) for c in cval(t)]
            if t.op == "call" and norm.call_name(t) == "iter" and len(t.args) == 2:
                return self.domain(t.args[1], st)
            if t.op == "call" and norm.call_name(t) == "reversed":
                n = length(t.args[1])
                return (n, lambda k: sub(t.args[1], binop("-", binop("-", n, k), const(1))))
            if self.mapping(t):
                t = mk("keys", t)
            return (length(t), lambda k: sub(t, k))
        t = self.tt(v, st)
        return (length(t), lambda k: sub(t, k))

    def mapping(self, t):
        """a term known to be a dictionary: going through it yields its keys"""
        return t.op in ("dictmerge", "dict") or t.op == "call" and norm.call_name(t) in ("json.load", "json.loads", "dict") or \
            t.op == "param" and self.types.get(t) == "dict" or t.op in ("upd", "del") and self.mapping(t.args[0])

    def len_(self, v, st):
        if isinstance(v, Ref):
            if v.kind == "obj":
                m = self.pkg.find_method(v.cls, "__len__")
                if m:
                    return self.tt(self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v], {}, st, None), st)
            cell = st.heap[v.rid]
            if cell.sym is None and cell.items is not None and v.kind != "obj":
                return const(len(cell.items))
            return length(self.tt(v, st))
        if isinstance(v, TupleV):
            return const(len(v.items))
        if isinstance(v, IteV):
            return ite(v.c, self.len_(v.a, st), self.len_(v.b, st))
        if isinstance(v, T):
            ci = self.cinfo(v)
            if ci is not None:
                m = self.pkg.find_method(ci, "__len__")
                if m:
                    return self.tt(self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v], {}, st, None), st)
        if isinstance(v, IterV):
            d = self.domain(v, st)
            return const(len(d)) if isinstance(d, list) else d[0]
        return length(self.tt(v, st))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st, node):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_] + args, kwargs, st, node)
        if isinstance(f, ClassV):
            return self.construct(f.info, args, kwargs, st, node)
        if isinstance(f, IteV):
            return self.split(f.c, f.a, f.b, lambda x, s: self.call(x, list(args), dict(kwargs), s, node), st)
        if isinstance(f, MethV):
            return self.call_method(f.recv, f.name, args, kwargs, st, node)
        if isinstance(f, Ref) and f.kind == "obj":
            m = self.pkg.find_method(f.cls, "__call__")
            if m:
                return self.call_func(FuncV(m[1], m[0].module, None, m[0]), [f] + args, kwargs, st, node)
        if isinstance(f, T):
            if f.op == "ext":
                return self.ext_call(f.args[0], args, kwargs, st, node)
            if f.op == "attr":
                return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
            if f.op == "ite":
                return self.split(f.args[0], f.args[1], f.args[2], lambda x, s: self.call(x, list(args), dict(kwargs), s, node), st)
            r = self.mkcall(f, args, kwargs, st)
            if self.risk is not None:
                self.risk.append(r)
            self.event("pcall", show(f), [self.tt(a, st) for a in args], st, node)
            return r
        return self.mkcall(self.tt(f, st), args, kwargs, st)

    def mkcall(self, f, args, kwargs, st):
        ts = [self.tt(a, st) for a in args]
        ks = [mk("kw", k, self.tt(v, st)) for k, v in sorted(kwargs.items())]
        return mk("call", f, *(ts + ks))

    def qual(self, f):
        return (f.cls.name + "." if f.cls else "") + f.name

    def call_func(self, f, args, kwargs, st, node):
        q = self.qual(f)
        mq = f.module.name + "." + f.name
        if q in self.no_inline or (f.cls is None and mq in self.no_inline) or (f.cls is not None and "*." + f.name in self.no_inline):
            a = list(args)
            recv = None
            if f.cls is not None and not is_static(f.node) and a:
                recv, a = a[0], a[1:]
            names = [x.arg for x in f.node.args.args]
            if f.cls is not None and not is_static(f.node):
                names = names[1:]
            kw = {}
            for n, x in zip(names, a):
                kw[n] = self.tt(x, st)
            extra = [self.tt(x, st) for x in a[len(names):]]
            for k, x in kwargs.items():
                kw[k] = self.tt(x, st)
            ds = f.node.args.defaults
            for x, dv in list(zip(f.node.args.args[len(f.node.args.args) - len(ds):], ds)) + list(zip(f.node.args.kwonlyargs, f.node.args.kw_defaults)):
                if x.arg not in kw and "**" not in kw and isinstance(dv, ast.Constant):
                    kw[x.arg] = const(dv.value)     # what leaving an argument out means
            rt = self.tt(recv, st) if recv is not None else None
            base = q.split(".")[-1]
            owner = None
            if isinstance(recv, ClassV):
                owner = recv.info.name
            elif recv is not None:
                ci = recv.cls if isinstance(recv, Ref) else self.cinfo(recv) if isinstance(recv, T) else None
                owner = ci.name if ci else None
            nm = (owner or (f.cls.name if f.cls else f.module.name)) + "." + base
            self.event("call", nm, extra, st, node, recv=rt, kwargs=kw)
            t = mk("call", mk("ext", nm), *([rt] if rt is not None and not isinstance(recv, ClassV) else []),
                   *(extra + [mk("kw", k, v) for k, v in sorted(kw.items())]))
            if self.risk is not None:
                self.risk.append(t)
            ty = self.ret_types.get(nm) or self.ret_types.get(q) or self.ret_types.get("*." + base)
            if ty == "self" and owner:
                ty = owner
            if ty:
                self.types[t] = ty
            return t
        if self.depth > self.max_depth or any(n is f.node for n in [c.node for c in self.callstack][-12:]) and sum(1 for c in self.callstack if c.node is f.node) >= 3:
            return self.opaque("recursion:" + q, node)
        self.funcs_seen.add((f.module.name, q))
        self.inlined += 1
        fid = self.fresh_frame(st)
        fr = {"fid": fid, "parent": f.frame, "module": f.module, "cls": f.cls, "self": args[0] if args else None, "func": f, "scope": fid}
        self.bind(f, args, kwargs, fr, st, node)
        if st.dead:
            return NONE
        n = len(st.pc)
        outer = self.sink
        self.sink = []
        self.depth += 1
        self.callstack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, fr, st)
                if not st.dead:
                    self.sink.append(Exit("return", st.copy(), v))
            else:
                gen = is_generator(f.node)
                if gen:
                    st.frames[fid]["$yield"] = self.newlist([], st)
                self.block(f.node.body, fr, st)
                if not st.dead:
                    self.sink.append(Exit("return", st.copy(), st.frames[fid].get("$yield", NONE)))
                if gen:
                    for e in self.sink:
                        if e.kind == "return":
                            e.val = e.st.frames[fid].get("$yield", NONE)
        finally:
            self.callstack.pop()
            self.depth -= 1
            exits, self.sink = self.sink, outer
        rets = [(e.st, e.val) for e in exits if e.kind == "return"]
        for e in exits:
            if e.kind == "raise":
                self.sink.append(e)
        if not rets:
            st.dead = True
            return NONE
        out, val = self.join_many(rets, n)
        st.become(out)
        st.dead = False
        # frames of inner closures may still be referenced; keep
        return val

    def bind(self, f, args, kwargs, fr, st, node):
        a = f.node.args
        env = st.frames[fr["fid"]]
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        # star args
        flat = []
        for x in args:
            if isinstance(x, T) and x.op == "star" and a.vararg is None and not a.defaults and sum(isinstance(y, T) and y.op == "star" for y in args) == 1:
                # as many as are missing
                n = len(pos) - (len(args) - 1) - sum(1 for k in kwargs if k in pos)
                flat += [sub(x.args[0], const(i)) for i in range(n)]
                continue
            flat.append(x)
        if len(flat) > len(pos) and a.vararg is None:
            self.raise_(mk("ext", "TypeError"), st, node)
            return
        for n, x in zip(pos, flat):
            env[n] = x
        rest = flat[len(pos):]
        if a.vararg is not None:
            env[a.vararg.arg] = TupleV(rest)
        kws = dict(kwargs)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in kws:
                env[n] = kws.pop(n)
        if a.kwarg is not None:
            r = Ref("dict")
            if "**" in kws:
                star = kws.pop("**")
                if kws:
                    st.heap[r.rid] = Cell("dict", None, dictmerge(self.tt(star, st), mk("dict", *[z for k, v in kws.items() for z in (const(k), self.tt(v, st))])))
                else:
                    st.heap[r.rid] = Cell("dict", None, self.tt(star, st))
            else:
                st.heap[r.rid] = Cell("dict", {const(k): v for k, v in kws.items()})
            env[a.kwarg.arg] = r
        elif "**" in kws:
            star = self.tt(kws["**"], st)
            for n in pos + [x.arg for x in a.kwonlyargs]:
                if n not in env:
                    env[n] = mk("getdef", star, const(n))
        dfr = {"fid": fr["fid"], "parent": f.frame, "module": f.module, "cls": f.cls, "self": None}
        dn = pos[len(pos) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in env:
                env[n] = f.defaults[n] if f.defaults and n in f.defaults else self.ev(d, {"fid": -1, "parent": f.frame, "module": f.module, "cls": f.cls, "self": None}, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = f.defaults[x.arg] if f.defaults and x.arg in f.defaults else self.ev(d, {"fid": -1, "parent": f.frame, "module": f.module, "cls": f.cls, "self": None}, st)
        if kws and a.kwarg is None and "**" not in kws:
            # unexpected keyword argument
            self.raise_(mk("ext", "TypeError"), st, node)
            return
        for n in pos:
            if n not in env:
                self.raise_(mk("ext", "TypeError"), st, node)
                env[n] = mk("opaque", "unbound-arg:" + n)
                return

    def construct(self, info, args, kwargs, st, node):
        q = info.name
        if q in self.no_inline:
            m = self.pkg.find_method(info, "__init__")
            kw = {k: self.tt(v, st) for k, v in kwargs.items()}
            a = list(args)
            if m:
                names = [x.arg for x in m[1].args.args][1:]
                for n, x in zip(names, a):
                    kw[n] = self.tt(x, st)
                a = a[len(names):]
            self.event("call", q, [self.tt(x, st) for x in a], st, node, kwargs=kw)
            t = mk("call", mk("ext", q), *([self.tt(x, st) for x in a] + [mk("kw", k, v) for k, v in sorted(kw.items())]))
            self.types[t] = q
            return t
        if any(self.is_exc(k) for k in self.pkg.mro(info)):
            return mk("call", mk("ext", q), *[self.tt(x, st) for x in args])
        r = Ref("obj", info)
        st.heap[r.rid] = Cell("obj", {})
        m = self.pkg.find_method(info, "__init__")
        if m:
            self.call_func(FuncV(m[1], m[0].module, None, m[0]), [r] + list(args), kwargs, st, node)
        return r

    def is_exc(self, k):
        return any(isinstance(b, ast.Name) and b.id in EXC_NAMES for b in k.bases)

    def newlist(self, items, st):
        r = Ref("list")
        st.heap[r.rid] = Cell("list", list(items))
        return r

    def call_method(self, recv, name, args, kwargs, st, node):
        if isinstance(recv, SuperV):
            ci = recv.self_.info if isinstance(recv.self_, ClassV) else None
            return NONE if name in ("__init__", "__init_subclass__") else self.mkcall(mk("attr", mk("opaque", "super"), name), args, kwargs, st)
        if isinstance(recv, IteV):
            return self.split(recv.c, recv.a, recv.b, lambda x, s: self.call(self.getattr_(x, name, s, node), list(args), dict(kwargs), s, node), st)
        if isinstance(recv, Ref):
            cell = st.heap[recv.rid]
            if recv.kind == "list":
                if name == "append":
                    if cell.sym is None:
                        st.wcell(recv).items.append(args[0])
                    else:
                        v = self.tt(args[0], st)
                        st.wcell(recv).sym = mk("append", cell.sym, v)
                    return NONE
                if name == "extend" and args:
                    d = self.domain(args[0], st)
                    if isinstance(d, list) and cell.sym is None:
                        st.wcell(recv).items.extend(d)
                    elif isinstance(d, list) and len(d) <= 4:
                        for x in d:
                            self.call_method(recv, "append", [x], {}, st, node)
                    else:
                        old = self.tt(recv, st)
                        c = st.wcell(recv)
                        c.sym, c.items = binop("+", old, self.tt(args[0], st)) if not (old.op == "seq" and not old.args) else self.tt(args[0], st), None
                    return NONE
                if name == "copy" and not args:
                    r = Ref("list")
                    st.heap[r.rid] = cell.copy()
                    return r
                if name == "insert" and cell.sym is None and as_int(self.tt(args[0], st)) is not None:
                    st.wcell(recv).items.insert(as_int(self.tt(args[0], st)), args[1])
                    return NONE
                if name == "pop" and cell.sym is None and cell.items:
                    i = as_int(self.tt(args[0], st)) if args else -1
                    if i is not None and -len(cell.items) <= i < len(cell.items):
                        return st.wcell(recv).items.pop(i)
                if name == "sort" and kwargs.get("key", NONE) is not NONE:
                    v = self.x_sorted([recv], kwargs, st, node)
                    if v is not NotImplemented:
                        c = st.wcell(recv)
                        if isinstance(v, Ref) and st.heap[v.rid].sym is None:
                            c.items, c.sym = list(st.heap[v.rid].items), None
                        else:
                            c.sym, c.items = self.tt(v, st), None
                        return NONE
                if name == "reverse" and cell.sym is None:
                    st.wcell(recv).items.reverse()
                    return NONE
            if recv.kind == "dict":
                if name in ("items", "keys", "values"):
                    if cell.sym is None:
                        if name == "items":
                            return IterV("items", [recv])
                        if name == "keys":
                            return self.newlist(list(cell.items), st)
                        return self.newlist(list(cell.items.values()), st)
                    if name == "items":
                        return IterV("items", [recv])
                    return mk("keys" if name == "keys" else "values", cell.sym)
                if name == "get":
                    k = self.tt(args[0], st)
                    dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
                    if cell.sym is None:
                        if k in cell.items:
                            return cell.items[k]
                        if k.op == "const" and all(x.op == "const" for x in cell.items):
                            return dflt
                        return self.dict_select(cell.items, k, dflt, st, node)
                    return get_(cell.sym, k, self.tt(dflt, st))
                if name == "pop":
                    k = self.tt(args[0], st)
                    if cell.sym is None and k in cell.items:
                        return st.wcell(recv).items.pop(k)
                    v = mk("get", self.tt(recv, st), k, self.tt(args[1], st) if len(args) > 1 else mk("absent"))
                    old = self.tt(recv, st)
                    if cell.sym is not None or not all(x.op == "const" for x in cell.items):
                        c = st.wcell(recv)
                        c.sym, c.items = mk("del", old, k), None
                        return v
                    return args[1] if len(args) > 1 else v
                if name == "update":
                    self.dict_update(recv, args, kwargs, st)
                    return NONE
                if name == "copy":
                    r = Ref("dict")
                    st.heap[r.rid] = cell.copy()
                    return r
                if name == "setdefault":
                    k = self.tt(args[0], st)
                    if cell.sym is None and k in cell.items:
                        return cell.items[k]
                    if cell.sym is None:
                        st.wcell(recv).items[k] = args[1] if len(args) > 1 else NONE
                        return args[1] if len(args) > 1 else NONE
                    if cell.sym is not None:
                        v = self.tt(args[1], st) if len(args) > 1 else NONE
                        old = self.tt(recv, st)
                        c = st.wcell(recv)
                        c.sym, c.items = dictmerge(mk("dict", k, v), old), None
                        return get_(old, k, v)
            if recv.kind in ("arr", "list", "dict", "set") and name in MUTATORS:
                old = self.tt(recv, st)
                c = st.wcell(recv)
                c.sym, c.items = mk("mut", name, old, *[self.tt(a, st) for a in args]), None
                return mk("mutres", name, old)
            if recv.kind == "set" and name == "add":
                return NONE
            return self.term_method(self.tt(recv, st), name, args, kwargs, st, node)
        if isinstance(recv, T):
            r = self.getattr_(recv, name, st, node) if self.cinfo(recv) else None
            if r is not None and not (isinstance(r, T) and r.op == "attr"):
                return self.call(r, args, kwargs, st, node)
            if name in MUTATORS and recv.op in ("param", "attr", "sub", "call"):
                old = self.deref(recv, st)
                ts = [self.tt(a, st) for a in args]
                self.event("mutate", name, ts, st, node, recv=recv)
                if name == "append":
                    st.arr[recv] = mk("append", old, ts[0])
                    return NONE
                if name == "pop":
                    st.arr[recv] = mk("del", old, *ts[:1])
                    return mk("get", old, ts[0] if ts else const(-1), ts[1] if len(ts) > 1 else mk("absent"))
                st.arr[recv] = mk("mut", name, old, *ts)
                return mk("mutres", name, old)
            return self.term_method(self.deref(recv, st), name, args, kwargs, st, node)
        if isinstance(recv, (TupleV, IterV)):
            return self.term_method(self.tt(recv, st), name, args, kwargs, st, node)
        return self.term_method(self.tt(recv, st), name, args, kwargs, st, node)

    def dict_update(self, recv, args, kwargs, st):
        cell = st.heap[recv.rid]
        if args:
            o = args[0]
            if isinstance(o, Ref) and o.kind == "dict" and st.heap[o.rid].sym is None and cell.sym is None:
                st.wcell(recv).items.update(st.heap[o.rid].items)
            else:
                old = self.tt(recv, st)
                c = st.wcell(recv)
                c.sym, c.items = dictmerge(old, self.tt(o, st)), None
        cell = st.heap[recv.rid]
        for k, v in kwargs.items():
            if cell.sym is None:
                st.wcell(recv).items[const(k)] = v
            else:
                st.wcell(recv).sym = upd(st.heap[recv.rid].sym, const(k), self.tt(v, st))

    def term_method(self, t, name, args, kwargs, st, node):
        if t.op == "ite" and name not in NP_METHODS:
            pass
        if name == "get" and t.op != "ext":
            ts = [self.tt(a, st) for a in args]
            d = ts[1] if len(ts) > 1 else self.tt(kwargs.get("default", NONE), st)
            return get_(t, ts[0], d)
        if name == "items":
            return IterV("items", [t])
        if name in ("keys", "values") and not args:
            if t.op == "dict":
                return mk("seq", *[t.args[i + (name == "values")] for i in range(0, len(t.args), 2)])
            return mk(name, t)
        if is_str(t) and all(is_str(self.tt(a, st)) for a in args) and not kwargs and name in (
                "upper", "lower", "capitalize", "strip", "title", "startswith", "endswith", "replace", "split", "lstrip", "rstrip"):
            try:
                r = getattr(cval(t), name)(*[cval(self.tt(a, st)) for a in args])
                if isinstance(r, list):
                    return self.newlist([const(x) for x in r], st)
                return const(r)
            except Exception:
                pass
        if name == "join" and len(args) == 1:
            d = self.domain(args[0], st)
            if isinstance(d, list) and is_str(t):
                parts = []
                for i, x in enumerate(d):
                    if i and cval(t):
                        parts.append(t)
                    parts.append(self.tt(x, st))
                return mk("str", *parts) if parts else const("")
        if name == "format" and is_str(t) and not kwargs:
            r = self.fmt_str(cval(t), [self.tt(a, st) for a in args])
            if r is not None:
                return r
        if name == "group" and len(args) == 1 and not kwargs and (as_int(self.tt(args[0], st)) or 0) >= 1:
            return sub(self.term_method(t, "groups", [], {}, st, node), const(as_int(self.tt(args[0], st)) - 1))
        if name == "write" and len(args) == 1 and not kwargs:
            w = self.tt(args[0], st)
            if w.op == "call" and w.args[0].op == "ext" and w.args[0].args[0] == "json.dumps" and len(w.args) == 2:
                self.event("call", "json.dump", [w.args[1], t], st, node)
                return NONE
        if name == "zfill" and args:
            if as_int(self.tt(args[0], st)) is not None and not is_str(t):
                return padded(t, as_int(self.tt(args[0], st)))
            return mk("call", mk("attr", t, "zfill"), self.tt(args[0], st))
        if name == "strftime" and len(args) == 1 and is_str(self.tt(args[0], st)):
            r = dated(t, cval(self.tt(args[0], st)))
            if r is not None:
                return r
        if is_path(t):
            if name in PATH_METHODS and not (name == "mkdir" and kwargs):
                return self.ext_call(PATH_METHODS[name], [t] + list(args), kwargs, st, node)
            if name == "mkdir" and not args and set(kwargs) == {"exist_ok"} and self.tt(kwargs["exist_ok"], st) is TRUE:
                new = st.copy()
                new.pc = new.pc + (neg(truth_term(self.ext_call("os.path.isdir", [t], {}, st, node))),)
                return self.ext_call("os.mkdir", [t], {}, new, node)
            if name == "joinpath":
                return mk("call", *(t.args + tuple(self.tt(a, st) for a in args)))
            if name in ("write_text",) and len(args) == 1:
                pass
        if name in MSIGS and args and not kwargs.keys() & set(MSIGS[name][:len(args)]) and len(args) <= len(MSIGS[name]) and t.op != "param" and self.cinfo(t) is None:
            kwargs = dict(kwargs, **dict(zip(MSIGS[name], args)))
            args = []
        if name == "write" and args:
            args = [textual(self.tt(args[0], st))] + list(args[1:])
        if name in ("astype",):
            return self.ext_call("numpy.array", [t], {"dtype": args[0] if args else kwargs.get("dtype", NONE)}, st, node)
        if name == "tolist" and not args:
            return t
        if name == "copy" and not args:
            return self.ext_call("numpy.copy", [t], {}, st, node)
        if name in NP_METHODS and t.op != "ext":
            if name in ("flatten", "ravel") and not args:
                if TM.places(t) is not None:
                    return TM.places(t)
                return mk("call", mk("ext", "numpy.ravel"), t)
            if name == "reshape":
                sh = args[0] if len(args) == 1 else TupleV(args)
                return mk("call", mk("ext", "numpy.reshape"), t, mk("kw", "shape", self.tt(sh, st)))
            return self.ext_call("numpy." + name, [t] + list(args), kwargs, st, node)
        r = self.mkcall(mk("attr", t, name), args, kwargs, st)
        if self.risk is not None:
            self.risk.append(r)
        self.event("mcall", name, [self.tt(a, st) for a in args], st, node, recv=t, kwargs={k: self.tt(v, st) for k, v in kwargs.items()})
        return r

    def fmt_str(self, s, ts):
        parts, i, auto = [], 0, 0
        import re as _re
        for m in _re.finditer(r"\{(\d*)\}|\{\{|\}\}|[^{}]+", s):
            g = m.group(0)
            if g in ("{{", "}}"):
                parts.append(const(g[0]))
            elif g.startswith("{"):
                j = int(m.group(1)) if m.group(1) else auto
                auto += 1
                if j >= len(ts):
                    return None
                parts.append(ts[j])
            else:
                parts.append(const(g))
        if "".join(m.group(0) for m in _re.finditer(r"\{(\d*)\}|\{\{|\}\}|[^{}]+", s)) != s:
            return None
        return mk("str", *parts)

    # ------------------------------------------------------------ external functions
    def ext_call(self, name, args, kwargs, st, node):
        name = ALIAS.get(name, name)
        root = name.split(".")[0]
        if root in ("logger", "logging", "warnings") or name == "print" or name.startswith("swprocess.") and name.split(".")[-1] in ("info", "debug", "warning"):
            if name.startswith("logging.getLogger"):
                return mk("ext", "logger")
            return NONE
        fn = getattr(self, "x_" + name.replace(".", "_"), None)
        if fn is not None:
            r = fn(args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        if name in EXC_NAMES:
            return mk("call", mk("ext", name), *[self.tt(a, st) for a in args])
        args = list(args)
        kwargs = dict(kwargs)
        out = kwargs.pop("out", None)
        where = kwargs.pop("where", None)
        if name == "os.path.join" or name == "pathlib.PurePath":
            return mk("call", mk("ext", "pathlib.Path"), *[self.tt(a, st) for a in args])
        if name in FILES and args:
            args = [textual(self.tt(args[0], st))] + args[1:]
        if name in SIGS:
            sig = SIGS[name]
            for n, a in list(zip(sig, args))[1:]:
                kwargs[n] = a
            if len(args) <= len(sig) and args:
                args = args[:1]
            if args == [] and sig[0] in kwargs:
                args = [kwargs.pop(sig[0])]
        ts = [self.tt(a, st) for a in args]
        ks = {k: self.tt(v, st) for k, v in kwargs.items()}
        for k, v in ANYHOW.get(name, {}).items():
            if k in ks and ks[k].op == "const" and type(ks[k].args[0]) in (type(v), Fraction) and ks[k].args[0] == v and isinstance(ks[k].args[0], bool) == isinstance(v, bool):
                del ks[k]
        r = self.lower(name, ts, ks)
        if r is None:
            r = mk("call", mk("ext", name), *(ts + [mk("kw", k, v) for k, v in sorted(ks.items())]))
            if name in YESNO:
                r = truth_term(r)
        if out is not None and not (isinstance(out, T) and out is NONE):
            if isinstance(out, TupleV) and len(out.items) == 1:
                out = out.items[0]
            old = self.tt(out, st)
            new = r
            if where is not None and not (isinstance(where, T) and where is TRUE):
                new = ite(truth_term(self.tt(where, st)), r, old)
            if isinstance(out, Ref):
                c = st.wcell(out)
                c.sym, c.items = new, None
            elif isinstance(out, T):
                self.event("mutate", "out", [new], st, node, recv=out)
                st.arr[out] = new
            return out
        if where is not None and out is None:
            w = self.tt(where, st)
            if name.startswith("numpy.") and w is not TRUE:
                r = mk("call", mk("ext", name), *(ts + [mk("kw", k, v) for k, v in sorted(list(ks.items()) + [("where", w)])]))
        if self.risk is not None and name not in ("numpy.zeros",):
            self.risk.append(r)
        if not (name.startswith(PURE_PREFIX) or name in PURE_BUILTINS):
            self.event("call", name, ts, st, node, kwargs=ks)
            if name in ("open",):
                pass
        if name in ALLOC or name in ("_asrow",):
            ref = Ref("arr")
            st.heap[ref.rid] = Cell("arr", None, r)
            return ref
        return r

    def lower(self, name, ts, ks):
        """library identities"""
        E = lambda n: mk("ext", n)
        if name in JOINS:
            r = joined(name, ts, ks)
            if r is not None:
                return r
        if name in ARITH2 and len(ts) == 2 and not ks:
            return binop(ARITH2[name], *ts)
        if name in CMP2 and len(ts) == 2 and not ks:
            return cmp_(CMP2[name], *ts)
        if name in ("numpy.logical_and", "numpy.logical_or") and len(ts) == 2:
            return (conj if name.endswith("and") else disj)([truth_term(x) for x in ts])
        if name in ("numpy.logical_and.reduce", "numpy.logical_or.reduce") and len(ts) == 1 and not ks and ts[0].op == "seq" and ts[0].args:
            return (conj if "and" in name else disj)([truth_term(x) for x in ts[0].args])
        if name in ("numpy.all", "numpy.any") and len(ts) == 1 and set(ks) == {"axis"} and as_int(ks["axis"]) == 0 and ts[0].op == "seq" and ts[0].args:
            return (conj if name == "numpy.all" else disj)([truth_term(x) for x in ts[0].args])
        if name == "numpy.logical_not" and len(ts) == 1:
            return neg(truth_term(ts[0]))
        if name == "numpy.negative" and len(ts) == 1:
            return mk("neg", ts[0])
        if name == "numpy.square" and len(ts) == 1:
            return binop("**", ts[0], const(2))
        if name == "numpy.reciprocal" and len(ts) == 1:
            return binop("/", const(1), ts[0])
        if name == "numpy.where" and len(ts) == 3:
            return ite(truth_term(ts[0]), ts[1], ts[2])
        if name in ("min", "max") and not ks and len(ts) >= 2:
            r = ts[0]
            for x in ts[1:]:
                r = ite(cmp_("<", r, x), r, x) if name == "min" else ite(cmp_(">", r, x), r, x)
            return r
        if name in ("numpy.minimum", "numpy.maximum") and len(ts) == 2 and not ks:
            c = cmp_("<" if name.endswith("minimum") else ">", ts[0], ts[1])
            return ite(c, ts[0], ts[1])
        if name == "numpy.clip" and len(ts) == 3 and not ks:
            r = ite(cmp_("<", ts[0], ts[1]), ts[1], ts[0])
            return ite(cmp_(">", r, ts[2]), ts[2], r)
        if name in ("min", "max") and len(ts) == 1 and not ks:
            if ts[0].op == "seq" and len(ts[0].args) >= 2:
                return self.lower(name, list(ts[0].args), {})
            return mk("call", E("numpy." + name), ts[0])
        if name in ("sum",) and len(ts) == 1:
            if ts[0].op == "seq":
                r = const(0)
                for x in ts[0].args:
                    r = binop("+", r, x)
                return r
            return mk("call", E("numpy.sum"), ts[0])
        if name in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
            dt = norm.dtype_of(ks.get("dtype"))
            sh = ts[0]
            v = {"numpy.zeros": const(0), "numpy.ones": const(1)}.get(name)
            if name == "numpy.full":
                v = ks.get("fill_value", mk("opaque", "fill"))
            if name == "numpy.empty":
                return mk("full", sh, mk("ext", "empty"))
            if dt == "bool":
                return const(bool(v.args[0])) if v.op == "const" else v
            return mk("full", sh, v)
        if name in ("numpy.zeros_like", "numpy.empty_like", "numpy.ones_like", "numpy.full_like"):
            dt = norm.dtype_of(ks.get("dtype"))
            v = {"numpy.zeros_like": const(0), "numpy.ones_like": const(1), "numpy.empty_like": mk("ext", "empty")}.get(name)
            if name == "numpy.full_like":
                v = ks.get("fill_value", mk("opaque", "fill"))
            if dt == "bool":
                return const(bool(v.args[0])) if v.op == "const" else v
            s = ts[0]
            if s.op == "full":
                return mk("full", s.args[0], v)
            return mk("full", attr(s, "shape"), v)
        if name == "numpy.arange" and len(ts) == 1 and set(ks) <= {"dtype"} and norm.dtype_of(ks.get("dtype")) in (None, "int"):
            k = fresh()
            return mk_map(ts[0], k, k)
        if name == "numpy.arange" and len(ts) == 2 and not ks:
            k = fresh()
            return mk_map(binop("-", ts[1], ts[0]), k, binop("+", k, ts[0]))
        if name == "numpy.flipud" and len(ts) == 1:
            return sub(ts[0], mk("slice", NONE, NONE, const(-1)))
        if name == "numpy.flip" and len(ts) == 1 and as_int(ks.get("axis", NONE)) == 0:
            return sub(ts[0], mk("slice", NONE, NONE, const(-1)))
        if name == "numpy.stack" and len(ts) == 1 and (not ks or as_int(ks.get("axis", NONE)) == 0):
            return ts[0]
        if name in ("numpy.vstack",) and len(ts) == 1 and ts[0].op == "map":
            return ts[0]
        if name == "bool" and len(ts) == 1:
            return truth_term(ts[0])
        if name == "str" and len(ts) == 1 and is_path(ts[0]):
            return textual(ts[0])
        if name == "str" and len(ts) == 1 and (ts[0].op == "str" or is_str(ts[0]) or self.cname(ts[0]) == "str"):
            return ts[0]
        if name == "int" and len(ts) == 1 and as_int(ts[0]) is not None:
            return ts[0]
        if name == "float" and len(ts) == 1 and is_num(ts[0]):
            return ts[0]
        if name == "numpy.count_nonzero" and len(ts) == 1:
            return mk("call", E("numpy.sum"), ts[0], *[mk("kw", k, v) for k, v in sorted(ks.items())])
        if name == "numpy.trapz" and len(ts) == 1 and "x" in ks and set(ks) == {"x"}:
            y, x = ts[0], ks["x"]
            S = lambda q, a, b: sub(q, mk("slice", a, b, NONE))
            d = binop("-", S(x, const(1), NONE), S(x, NONE, const(-1)))
            m = binop("+", S(y, const(1), NONE), S(y, NONE, const(-1)))
            return mk("call", E("numpy.sum"), binop("*", binop("*", const(0.5), d), m))
        if name == "numpy.expand_dims" and len(ts) == 1 and as_int(ks.get("axis", NONE)) == 0:
            return mk("call", E("_asrow"), ts[0])
        if name == "numpy.atleast_2d" and len(ts) == 1:
            return mk("call", E("_asrow"), ts[0])
        if name == "numpy.dot" and len(ts) == 2 or name == "numpy.matmul" and len(ts) == 2:
            return mk("call", E("numpy.matmul"), *ts)
        if name == "numpy.nansum":
            return None
        return None

    # ---- modelled builtins
    def x_len(self, a, k, st, node):
        return self.len_(a[0], st)

    def x_range(self, a, k, st, node):
        ts = [self.tt(x, st) for x in a]
        if len(ts) == 1:
            ts = [const(0), ts[0], const(1)]
        elif len(ts) == 2:
            ts = ts + [const(1)]
        return IterV("range", ts)

    def x_enumerate(self, a, k, st, node):
        s = a[1] if len(a) > 1 else k.get("start", const(0))
        return IterV("enumerate", [a[0], self.tt(s, st)])

    def x_zip(self, a, k, st, node):
        return IterV("zip", list(a))

    def x_reversed(self, a, k, st, node):
        return IterV("reversed", [a[0]])

    def lazy(self, source, a, st, node):
        """a library iterator rewritten as the comprehension it stands for (errors inside it are kept)"""
        fr = {"fid": self.fresh_frame(st), "parent": None, "module": None, "cls": None, "self": None}
        env = st.frames[fr["fid"]]
        for i, x in enumerate(a):
            env["$%d" % i] = x
        e = LAZY.get(source)
        if e is None:
            import re
            e = LAZY[source] = ast.parse(re.sub(r"\$", "ARG", source), mode="eval").body
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id.startswith("ARG"):
                    x.id = "$" + x.id[3:]
        for x in ast.walk(e):
            if hasattr(x, "lineno"):
                x.lineno = getattr(node, "lineno", 0)
        return self.ev(e, fr, st)

    def x_map(self, a, k, st, node):
        if len(a) == 2:
            return self.lazy("[$0(x) for x in $1]", a, st, node)
        if len(a) == 3:
            return self.lazy("[$0(x, y) for x, y in zip($1, $2)]", a, st, node)
        return NotImplemented

    def x_sorted(self, a, k, st, node):
        f = k.get("key")
        if len(a) == 1 and not k:
            d = self.domain(a[0], st)
            if isinstance(d, list) and len(d) == 2:
                x, y = (self.tt(q, st) for q in d)
                return self.newlist([self.lower("min", [x, y], {}), self.lower("max", [x, y], {})], st)
        if len(a) != 1 or set(k) - {"key", "reverse"} or f is None or f is NONE or k.get("reverse", FALSE) is not FALSE:
            return NotImplemented
        xs = self.lazy("[x for x in $0]", a, st, node)
        keys = self.tt(self.lazy("[$1(x) for x in $0]", [xs, f], st, node), st)
        return self.lazy("[$0[i] for i in $1]", [xs, mk("call", mk("ext", "numpy.argsort"), keys)], st, node)

    def x_filter(self, a, k, st, node):
        if len(a) != 2:
            return NotImplemented
        if a[0] is NONE:
            return self.lazy("[x for x in $1 if x]", a, st, node)
        return self.lazy("[x for x in $1 if $0(x)]", a, st, node)

    def x_iter(self, a, k, st, node):
        if isinstance(a[0], (Ref, TupleV, IterV)):
            return a[0]
        t = self.tt(a[0], st)
        if t.op in ("seq", "map", "filt", "dict"):
            return a[0]
        r = mk("call", mk("ext", "iter"), t)
        cnm = self.cname(t)
        if t.op in ("seq", "map", "filt", "dict", "str") or is_str(t) or isinstance(cnm, tuple) or cnm in ("str", "list", "dict", "tuple"):
            return r
        if self.risk is not None:
            self.risk.append(r)
        return r

    def x_list(self, a, k, st, node):
        if not a:
            return self.newlist([], st)
        d = self.domain(a[0], st)
        if isinstance(d, list):
            return self.newlist(d, st)
        r = Ref("list")
        kk = fresh()
        el = self.tt(d[1](kk), st)
        st.heap[r.rid] = Cell("list", None, mk_map(d[0], kk, el))
        return r

    def x_tuple(self, a, k, st, node):
        if not a:
            return TupleV([])
        d = self.domain(a[0], st)
        if isinstance(d, list):
            return TupleV(d)
        kk = fresh()
        return mk_map(d[0], kk, self.tt(d[1](kk), st))

    def x_dict(self, a, k, st, node):
        r = Ref("dict")
        if not a:
            star = k.pop("**", None) if "**" in k else None
            st.heap[r.rid] = Cell("dict", {const(n): v for n, v in k.items()})
            if star is not None:
                self.dict_update(r, [star], {}, st)
            return r
        o = a[0]
        if isinstance(o, Ref) and o.kind == "dict":
            st.heap[r.rid] = st.heap[o.rid].copy()
        elif isinstance(o, (TupleV, IterV)) or isinstance(o, Ref):
            d = self.domain(o, st)
            if not isinstance(d, list):
                return NotImplemented
            items = {}
            for x in d:
                kk = self.getitem(x, const(0), st)
                items[self.tt(kk, st)] = self.getitem(x, const(1), st)
            st.heap[r.rid] = Cell("dict", items)
        else:
            st.heap[r.rid] = Cell("dict", None, self.tt(o, st))
        if k:
            self.dict_update(r, [], k, st)
        return r

    def x_set(self, a, k, st, node):
        if not a:
            r = Ref("set")
            st.heap[r.rid] = Cell("set", [])
            return r
        c = self.conc(a[0], st)
        if c is not None and len(a) == 1:
            c = [self.tt(x, st) for x in c]
            if all(x.op == "const" for x in c):
                r = Ref("set")
                st.heap[r.rid] = Cell("set", list(dict.fromkeys(c)))
                return r
        return NotImplemented

    def x_super(self, a, k, st, node):
        return NotImplemented

    def x_isinstance(self, a, k, st, node):
        return self.isinst(a[0], a[1], st)

    def isinst(self, v, c, st):
        if isinstance(c, TupleV):
            return disj([self.isinst(v, x, st) for x in c.items])
        if isinstance(c, T) and c.op == "seq":
            return disj([self.isinst(v, x, st) for x in c.args])
        if isinstance(v, IteV):
            return ite(v.c, self.isinst(v.a, c, st), self.isinst(v.b, c, st))
        cn = c.info.name if isinstance(c, ClassV) else (c.args[0] if isinstance(c, T) and c.op == "ext" else "?")
        if isinstance(v, Ref):
            if v.kind == "obj":
                return const(isinstance(c, ClassV) and self.pkg.subclass(v.cls, c.info))
            return const({"list": "list", "dict": "dict", "arr": "numpy.ndarray", "set": "set"}.get(v.kind) == cn)
        if isinstance(v, TupleV):
            return const(cn == "tuple")
        if isinstance(v, T):
            if is_str(v) or v.op == "str":
                return const(cn == "str")
            if v.op == "seq" or v.op == "map":
                return const(cn in ("list", "tuple"))
            if v.op == "ite":
                return ite(v.args[0], self.isinst(v.args[1], c, st), self.isinst(v.args[2], c, st))
            cnm = self.cname(v)
            if isinstance(cnm, tuple):
                return const(cnm[0] == cn)
            if cnm in ("str", "list", "dict", "tuple", "bool", "int", "float"):
                return const(cnm == cn)
            ci = self.cinfo(v)
            if ci is not None and self.trust_types:
                if isinstance(c, ClassV):
                    return const(self.pkg.subclass(ci, c.info))
                return FALSE
            if norm.call_name(v) == "str":
                return const(cn == "str")
            return mk("isinst", self.deref(v, st), cn)
        return FALSE

    def x_hasattr(self, a, k, st, node):
        n = self.tt(a[1], st)
        v = a[0]
        if isinstance(v, Ref) and v.kind == "obj" and is_str(n):
            cell = st.heap[v.rid]
            if cval(n) in cell.items or self.pkg.find_method(v.cls, cval(n)):
                return TRUE
            return FALSE
        return mk("truthy", mk("call", mk("ext", "hasattr"), self.tt(v, st), n))

    def x_getattr(self, a, k, st, node):
        n = self.tt(a[1], st)
        if is_str(n):
            if len(a) > 2:
                t = self.getattr_(a[0], cval(n), st, node)
                if isinstance(a[0], Ref) or (isinstance(a[0], T) and self.cinfo(a[0])):
                    return t
                c = mk("truthy", mk("call", mk("ext", "hasattr"), self.tt(a[0], st), n))
                return self.joinv(c, t, a[2], st, st, st)
            return self.getattr_(a[0], cval(n), st, node)
        if n.op == "ite":
            return self.split(n.args[0], n.args[1], n.args[2], lambda x, s: self.x_getattr([a[0], x] + list(a[2:]), k, s, node), st)
        if n.op != "const":
            for u, cs in self.finite(n, st):
                n1 = norm.canon(n)
                rest = [(c, norm.canon(subst(n1, {u: c}))) for c in cs]
                if all(is_str(x) for _, x in rest):
                    def chain(i, s):
                        if i == len(rest) - 1:
                            return self.x_getattr([a[0], rest[i][1]] + list(a[2:]), k, s, node)
                        return self.split(mk("cmp", "==", u, rest[i][0]), i, i + 1,
                                          lambda j, s_: self.x_getattr([a[0], rest[i][1]] + list(a[2:]), k, s_, node) if j == i else chain(j, s_), s)
                    return chain(0, st)
        if n.op == "str":
            base = a[0]
            v = base if isinstance(base, T) else self.tt(base, st) if not (isinstance(base, Ref) and base.kind == "obj") else mk("oref", base.rid)
            for (kk, nm) in st.fields:
                pass
            t = mk("getattr", v, n)
        else:
            v = a[0] if isinstance(a[0], T) else self.tt(a[0], st)
            t = mk("getattr", v, n)
        if self.risk is not None:
            self.risk.append(t)
        return t

    def finite(self, n, st):
        """quantities in n that the path confines to a few strings"""
        if not st.pc:
            return
        n = norm.canon(n)
        inside = set(walk(n))
        found = {}
        for x in walk(norm.canon(conj(list(st.pc)))):
            if x.op == "eqc" and x.args[0] in inside and is_str(x.args[1]):
                found.setdefault(x.args[0], [])
                if x.args[1] not in found[x.args[0]]:
                    found[x.args[0]].append(x.args[1])
        for u, cs in found.items():
            try:
                if len(cs) <= 12 and not norm.satisfiable(conj(list(st.pc) + [neg(mk("cmp", "==", u, c)) for c in cs])):
                    yield u, sorted(cs, key=lambda c: c.args[0])
            except norm.Budget:
                pass

    def x_setattr(self, a, k, st, node):
        n = self.tt(a[1], st)
        if is_str(n):
            self.setattr_(a[0], cval(n), a[2], st, node)
        else:
            v = a[0]
            if isinstance(v, Ref) and v.kind == "obj":
                c = st.wcell(v)
                c.items["$dyn"] = mk("setdyn", c.items.get("$dyn", NONE) if isinstance(c.items.get("$dyn", NONE), T) else NONE, n, self.tt(a[2], st))
            else:
                self.event("setattr", "$dyn", [n, self.tt(a[2], st)], st, node, recv=self.tt(v, st))
        return NONE

    def x_any(self, a, k, st, node):
        return self.quantify(a[0], st, False)

    def x_all(self, a, k, st, node):
        return neg(self.quantify(a[0], st, True))

    def quantify(self, v, st, negate):
        d = self.domain(v, st)
        if isinstance(d, list):
            return disj([neg(self.truth(x, st)) if negate else self.truth(x, st) for x in d])
        n, f = d
        t = self.tt(v, st)
        if t.op == "filt":
            kk = fresh()
            _, c, b = open_binder(t, kk)
            bb = truth_term(b)
            return mk_exists(t.args[0], kk, conj([c, neg(bb) if negate else bb]))
        kk = fresh()
        c = self.truth(f(kk), st)
        return mk_exists(n, kk, neg(c) if negate else c)

    def x_sum(self, a, k, st, node):
        d = self.domain(a[0], st)
        init = self.tt(a[1], st) if len(a) > 1 else const(0)
        if isinstance(d, list):
            r = init
            for x in d:
                r = binop("+", r, self.tt(x, st))
            return r
        t = self.tt(a[0], st)
        if t.op == "map":
            kk = fresh()
            n, b = open_binder(t, kk)
            s = mk_sum(n, kk, b)
            return s if init is const(0) else binop("+", init, s)
        if t.op == "filt":
            kk = fresh()
            n, c, b = open_binder(t, kk)
            s = mk_sum(n, kk, ite(c, b, const(0)))
            return s if init is const(0) else binop("+", init, s)
        return NotImplemented

    def x_type(self, a, k, st, node):
        v = a[0]
        if isinstance(v, Ref) and v.kind == "obj":
            return ClassV(v.cls)
        if isinstance(v, T) and self.cinfo(v):
            return ClassV(self.cinfo(v))
        return NotImplemented

    def x_copy_deepcopy(self, a, k, st, node):
        return self.clone(a[0], st, True)

    def x_copy_copy(self, a, k, st, node):
        return self.clone(a[0], st, False)

    def clone(self, v, st, deep):
        if isinstance(v, Ref):
            r = Ref(v.kind, v.cls)
            c = st.heap[v.rid].copy()
            if deep and c.items is not None:
                if isinstance(c.items, list):
                    c.items = [self.clone(x, st, True) for x in c.items]
                else:
                    c.items = {k: self.clone(x, st, True) for k, x in c.items.items()}
            st.heap[r.rid] = c
            return r
        if isinstance(v, TupleV):
            return TupleV([self.clone(x, st, deep) for x in v.items]) if deep else v
        if isinstance(v, T):
            t = self.deref(v, st)
            if t.op in ("const",):
                return t
            if self.cinfo(v) is not None:
                return mk("call", mk("ext", "copy.deepcopy" if deep else "copy.copy"), t)
            r = Ref("dict") if False else Ref("arr")
            st.heap[r.rid] = Cell("arr", None, t)
            return r
        return v

    def x_numpy_squeeze(self, a, k, st, node):
        t = self.tt(a[0], st)
        if norm.call_name(t) == "_asrow":
            return t.args[1]
        return mk("call", mk("ext", "numpy.squeeze"), t)

    def x__asrow(self, a, k, st, node):
        t = self.tt(a[0], st)
        if norm.call_name(t) == "numpy.squeeze":
            return t.args[1]
        return mk("call", mk("ext", "_asrow"), t)

    def x_numpy_copyto(self, a, k, st, node):
        out, src = a[0], self.tt(a[1], st)
        w = k.get("where")
        old = self.tt(out, st)
        new = src if w is None else ite(truth_term(self.tt(w, st)), src, old)
        if isinstance(out, Ref):
            c = st.wcell(out)
            c.sym, c.items = new, None
        elif isinstance(out, T):
            self.event("mutate", "copyto", [new], st, node, recv=out)
            st.arr[out] = new
        return NONE

    def x_functools_partial(self, a, k, st, node):
        return NotImplemented


# ---------------------------------------------------------------- helpers
def local_names(node):
    """names Python treats as locals of this function (parameters included)"""
    r = LOCALS.get(node)
    if r is not None:
        return r
    out, outer = set(), set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                comp.append(c)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split(".")[0] for a in c.names)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            go(c)
    comp = []
    if isinstance(node, ast.Lambda):
        r = frozenset()
    else:
        for b in node.body:
            go(ast.Module(body=[b], type_ignores=[]))
        r = frozenset(out - outer)
    LOCALS[node] = r
    return r


LOCALS = {}


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def slice_of(t):
    if t.op != "slice":
        return None
    out = []
    for a in t.args:
        if a is NONE:
            out.append(None)
        elif as_int(a) is not None:
            out.append(as_int(a))
        else:
            return None
    return slice(*out)


def truth_term(t):
    if t.op == "const":
        return const(bool(t.args[0]))
    if t.op in ("cmp", "not", "and", "or", "isnone", "truthy", "exc", "exists", "isinst", "in"):
        return t
    if t.op == "ite":
        return ite(t.args[0], truth_term(t.args[1]), truth_term(t.args[2]))
    if t.op in ("obj",):
        return TRUE
    return mk("truthy", t)


def min_len(ns):
    out = []
    for n in ns:
        if n not in out:
            out.append(n)
    if len(out) == 1:
        return out[0]
    return mk("minlen", *sorted(out, key=lambda x: x.id))


def get_(t, k, d):
    while True:
        if t.op == "dict":
            for i in range(0, len(t.args), 2):
                if t.args[i] is k:
                    return t.args[i + 1]
            if k.op == "const" and all(t.args[i].op == "const" for i in range(0, len(t.args), 2)):
                return d
        if t.op == "upd":
            if t.args[1] is k:
                return t.args[2]
            if t.args[1].op == "const" and k.op == "const":
                t = t.args[0]
                continue
        return mk("get", t, k, d)


def exc_name(e):
    if isinstance(e, T):
        if e.op == "call" and e.args[0].op == "ext":
            return e.args[0].args[0]
        if e.op == "ext":
            return e.args[0]
        return show(e)
    if isinstance(e, ClassV):
        return e.info.name
    return "?"


def mk_exists(n, k, c):
    if c is FALSE:
        return FALSE
    if k not in c.fvs:
        return conj([cmp_(">", n, const(0)), c])
    if c.op == "cmp" and c.args[0] == "==":
        for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if x.op == "sub" and x.args[1] is k and k not in x.args[0].fvs and k not in y.fvs and n is length(x.args[0]):
                return mk("in", y, x.args[0])
    return binder("exists", k, n, c)


def mk_sum(n, k, body):
    if is_num(body) and body.args[0] == 0:
        return const(0)
    if k not in body.fvs:
        return binop("*", n, body)
    return binder("sum", k, n, body)


def simplify_or(rels, d):
    """(c and x) or (not c and x) ... -> drop complementary exhaustive splits"""
    if d is TRUE or d is FALSE:
        return d
    # greedy absorption on conjunct sets
    sets = []
    for r in rels:
        if r is FALSE:
            continue
        if r is TRUE:
            return TRUE
        sets.append(frozenset(r.args) if r.op == "and" else frozenset([r]))
    changed = True
    while changed and len(sets) <= 64:
        changed = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                if a <= b:
                    sets = [s for q, s in enumerate(sets) if q != j]
                    changed = True
                    break
                if b <= a:
                    sets = [s for q, s in enumerate(sets) if q != i]
                    changed = True
                    break
                for x in a:
                    nx = neg(x)
                    if nx in b:
                        ra, rb = a - {x}, b - {nx}
                        if ra == rb:
                            sets = [s for q, s in enumerate(sets) if q not in (i, j)] + [ra]
                            changed = True
                            break
                        if ra <= rb:
                            sets = [s if q != j else rb for q, s in enumerate(sets)]
                            changed = True
                            break
                        if rb <= ra:
                            sets = [s if q != i else ra for q, s in enumerate(sets)]
                            changed = True
                            break
                if changed:
                    break
            if changed:
                break
    if any(not s for s in sets):
        return TRUE
    return disj([conj(sorted(s, key=lambda x: x.id)) for s in sets])


def match_pat(pat, t, k):
    """match pattern containing fv k against t; return binding of k or None"""
    b = []

    def rec(p, x):
        if p is k:
            if b and b[0] is not x:
                return False
            if not b:
                b.append(x)
            return True
        if p is x:
            return True
        if k not in p.fvs or p.op != x.op or len(p.args) != len(x.args):
            return False
        for q, y in zip(p.args, x.args):
            if isinstance(q, T) != isinstance(y, T):
                return False
            if isinstance(q, T):
                if not rec(q, y):
                    return False
            elif q != y:
                return False
        return True
    if rec(pat, t) and b:
        return b[0]
    return None


from . import stmts as _stmts  # noqa: E402  (attaches statement/expression evaluation)
_stmts.attach(Interp)
