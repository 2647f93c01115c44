"""Interprocedural points-to and effect analysis over the syntax tree.

Abstract objects are the arguments (and what is reachable from them by attribute and element paths), objects allocated at
a site, module globals, class attributes and mutable default values. Statements are interpreted flow-sensitively (branches
joined, loops iterated to a fixed point), calls into the package are analysed in the caller's context, and every write to an
object that existed before the call, and every use of an ambient source, is reported with the construct that performs it."""
import ast
from .loader import AnalysisBroken, is_classm, is_prop, is_static

MAXPATH = 7
MAXDEPTH = 18

LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard", "appendleft", "popleft", "__setitem__", "__delitem__", "__iadd__"}
ARR_MUT = {"fill", "put", "itemset", "resize", "partition", "setflags", "sort", "byteswap_inplace"}
ALIAS_METHODS = {"reshape", "view", "squeeze", "ravel", "transpose", "swapaxes", "diagonal", "__enter__"}
ELEM_METHODS = {"values", "items", "get", "pop", "popitem", "setdefault", "__getitem__", "popleft", "__iter__"}
SHALLOW_METHODS = {"copy", "tolist", "keys"}
VIEW_ATTRS = {"T", "real", "imag", "flat"}
SCALAR_ATTRS = {"shape", "size", "ndim", "dtype", "nbytes", "itemsize", "strides"}
ALIAS_CALLS = {"numpy." + x for x in ("asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel",
               "reshape", "squeeze", "transpose", "broadcast_to", "real", "imag", "flip", "fliplr", "flipud", "swapaxes",
               "rollaxis", "moveaxis", "rot90", "diagonal", "diag", "expand_dims", "split", "array_split", "hsplit", "vsplit",
               "nan_to_num_", "asfortranarray", "require", "frombuffer", "broadcast_arrays", "ix_")}
SHALLOW_CALLS = {"list", "tuple", "sorted", "reversed", "set", "frozenset", "dict", "copy.copy", "enumerate", "zip", "iter",
                 "itertools.chain", "itertools.zip_longest", "itertools.islice", "itertools.product", "collections.OrderedDict",
                 "collections.deque", "filter", "map"}
ELEM_CALLS = {"next", "max", "min", "itertools.chain.from_iterable"}
MUT_CALLS = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0,
             "numpy.put_along_axis": 0, "random.shuffle": 0, "numpy.random.shuffle": 0, "setattr": 0, "delattr": 0, "heapq.heappush": 0,
             "heapq.heappop": 0, "heapq.heapify": 0, "bisect.insort": 0, "operator.setitem": 0, "operator.iadd": 0,
             "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0, "object.__setattr__": 0, "list.sort": 0,
             "list.append": 0, "dict.update": 0}
AMBIENT = ("random.", "numpy.random", "time.time", "time.perf_counter", "time.monotonic", "time.clock", "datetime.datetime.now", "datetime.datetime.today",
           "datetime.datetime.utcnow", "datetime.date.today", "os.environ", "os.getenv", "os.getpid", "uuid.", "secrets.",
           "getpass.", "socket.", "os.getcwd", "pathlib.Path.cwd", "id", "hash", "globals", "tempfile.", "os.urandom",
           "sys.argv")
SETTERS = ("os.chdir", "os.umask", "os.putenv", "warnings.filterwarnings", "warnings.simplefilter", "numpy.seterr", "numpy.random.seed",
           "random.seed", "matplotlib.use", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "matplotlib.pyplot.style.use", "logging.basicConfig",
           "numpy.set_printoptions", "locale.setlocale", "sys.setrecursionlimit", "matplotlib.rc", "matplotlib.pyplot.rc",
           "matplotlib.rcParams.update", "logging.disable", "sys.exit", "os._exit")


SCOPED = ("warnings.catch_warnings", "numpy.errstate", "numpy.printoptions", "matplotlib.rc_context", "matplotlib.pyplot.rc_context",
          "matplotlib.style.context", "matplotlib.pyplot.style.context")
LISTING = ("os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob")


class Obj:
    """root: param | fresh | global | class | default;  path: attribute names and '[]'"""
    __slots__ = ("root", "name", "path", "cls", "kind", "elem", "key")
    cache = {}

    def __new__(cls, root, name, path=(), k=None, kind=None, elem=None):
        key = (root, name, path, k, kind, elem)
        o = cls.cache.get(key)
        if o is None:
            o = object.__new__(cls)
            o.root, o.name, o.path, o.cls, o.kind, o.elem, o.key = root, name, path, k, kind, elem, key
            cls.cache[key] = o
        return o

    def __repr__(self):
        s = "%s" % (self.name,)
        for p in self.path:
            s += p if p.startswith("[") else "." + p
        return s

    @property
    def fresh(self):
        return self.root == "fresh"

    def show(self):
        if self.root == "param":
            return repr(self)
        return {"global": "module variable ", "class": "class attribute ", "default": "default value "}.get(self.root, "") + repr(self)


class Fn:
    __slots__ = ("mod", "node", "cls", "recv", "frame", "__weakref__")

    def __init__(self, mod, node, cls=None, recv=None, frame=None):
        self.mod, self.node, self.cls, self.recv, self.frame = mod, node, cls, recv, frame

    def _k(self):
        return (id(self.node), id(self.cls), self.recv, self.frame)

    def __eq__(self, o):
        return isinstance(o, Fn) and self._k() == o._k()

    def __hash__(self):
        return hash(self._k())


class Ext(str):
    """a library name"""


class Super(tuple):
    """(class, receiver objects)"""


class Lib(tuple):
    """(receiver Obj, method name)"""


NONE = frozenset()


class Effect:
    __slots__ = ("obj", "what", "where", "node", "sure", "attr")

    def __init__(self, obj, what, where, sure, attr=None):
        self.obj, self.what, self.where, self.sure, self.attr = obj, what, where, sure, attr

    @property
    def target(self):
        return self.obj.path + ((self.attr,) if self.attr else ())


class State:
    __slots__ = ("frames", "heap")

    def __init__(self, frames, heap):
        self.frames, self.heap = frames, heap

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    frames = dict(a.frames)
    for k, y in b.frames.items():
        x = frames.get(k)
        if x is None or x is y:
            frames[k] = y
        elif x != y:
            z = dict(x)
            for n in [n for n in z if n[:3] == "\0c:" and n not in y]:
                del z[n]        # known text on one side only
            for n, v in y.items():
                if n[:3] == "\0c:" and n not in x:
                    continue
                u = z.get(n, NONE)
                z[n] = u if u is v else (u | v if isinstance(v, frozenset) else v)
            frames[k] = z
    heap = dict(a.heap)
    for k, v in b.heap.items():
        u = heap.get(k)
        if u is v:
            continue
        if u is None:      # not written on one side: what was there before stays possible
            heap[k] = v if k[0].root == "fresh" else v | lazy_field(*k)
        elif u != v:
            heap[k] = u | v
    for k, u in a.heap.items():
        if k not in b.heap and k[0].root != "fresh":
            heap[k] = u | lazy_field(*k)
    return State(frames, heap)


TYPES = {}          # (class, attribute) -> type text, filled by the caller


def parse_type(t):
    """'array' | 'array2' | 'scalar' | 'Cls' | '[T]' | '{T}' | None -> (class name, kind, element type)"""
    if t is None:
        return None, None, None
    if t.startswith("["):
        return None, "list", t[1:-1] or None
    if t.startswith("{"):
        return None, "dict", t[1:-1] or None
    if t in ("array", "array2", "callable", "file", "external"):
        return None, t, None
    if t == "any":
        return None, None, None
    return t, "instance", None


def typed(root, name, path, t):
    if t == "scalar":
        return NONE
    c, kind, elem = parse_type(t)
    if len(path) > MAXPATH:
        path = path[:MAXPATH - 1] + ("*",)
    return frozenset([Obj(root, name, path, c, kind, elem)])


def lazy_field(o, f):
    """what attribute or element f of an object that existed before holds"""
    if f == "[]" or f.startswith("[="):
        if o.kind == "array":
            return NONE
        if o.kind == "array2":
            return typed(o.root, o.name, o.path + ("[]",), "array")
        return typed(o.root, o.name, o.path + (f,) if not (o.path and o.path[-1] == "*") else o.path, o.elem)
    t = TYPES.get((o.cls, f), TYPES.get((None, f)))
    if o.path and o.path[-1] == "*":
        return frozenset([o])
    if o.kind == "external":
        return typed(o.root, o.name, o.path + (f,), "external")
    return typed(o.root, o.name, o.path + (f,), t)


class Analyzer:
    def __init__(self, pkg, types, params):
        self.pkg, self.params = pkg, params
        self.plain = set()          # library names found to be no ambient source
        TYPES.clear()
        TYPES.update(types)
        self.by_method = {}
        for m in pkg.modules.values():
            for c in m.classes.values():
                for n in c.methods:
                    self.by_method.setdefault(n, []).append(c)

    # ---- entry
    def module_level(self, m):
        """process-wide settings and ambient sources used while a module is imported"""
        self.effects, self.ambient, self.unknown, self.visited, self.ncalls = {}, {}, {}, set(), 0
        self.stack, self.nframes, self.loops, self.rets, self.guard, self.guess, self.guessed = [], 0, [], [], 0, False, set()
        st = State({}, {})
        fr = self.newframe(st, {})
        self.stack.append((m, m.tree, None, fr))
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    for f in self.ev(n.func, st, fr):
                        if isinstance(f, Ext):
                            self.note_ambient(str(f), n)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    for f in self.ev(n.value, st, fr):
                        if isinstance(f, Ext):
                            self.note_ambient(str(f), n)
        self.stack.pop()
        return ["%s %s at %s" % (how, name, where) for (name, where), how in self.ambient.items()]

    def run(self, mod, node, cls=None, types=None, owner=None):
        """effects of a function on its arguments; types: {parameter: type text}"""
        self.effects, self.ambient, self.unknown, self.visited, self.ncalls = {}, {}, {}, set(), 0
        self.stack, self.nframes, self.where_stack = [], 0, []
        self.loops, self.rets, self.guard, self.guess, self.guessed = [], [], 0, False, set()
        st = State({}, {})
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        bind = {}
        skip = 0
        recv = None
        if cls is not None and not is_static(node):
            if is_classm(node):
                recv = frozenset([cls])
            else:
                recv = frozenset([Obj("param", names[0], (), cls.name, "instance")])
            bind[names[0]] = recv
            skip = 1
        for n in names[skip:]:
            bind[n] = typed("param", n, (), (types or {}).get(n, self.param_type(cls, node, n)))
        if a.vararg:
            bind[a.vararg.arg] = frozenset([Obj("fresh", ("varargs", id(node)), (), None, "list")])
            st.heap[(next(iter(bind[a.vararg.arg])), "[]")] = typed("param", a.vararg.arg, ("[]",), self.param_type(cls, node, "*" + a.vararg.arg))
        if a.kwarg:
            bind[a.kwarg.arg] = frozenset([Obj("fresh", ("kwargs", id(node)), (), None, "dict")])
            st.heap[(next(iter(bind[a.kwarg.arg])), "[]")] = typed("param", a.kwarg.arg, ("[]",), self.param_type(cls, node, "**" + a.kwarg.arg))
        fr = self.newframe(st, bind)
        st, ret = self.body(mod, owner or cls, node, st, fr)
        self.final, self.retval = st, ret
        return self.effects

    def param_type(self, cls, node, n):
        for k in self.pkg.mro(cls) if cls is not None else ():
            for key in ((k.name, node.name, n), (k.name, n)):
                if key in self.params:
                    return self.params[key]
        return self.params.get((None, n))

    def newframe(self, st, bind):
        self.nframes += 1
        fr = self.nframes
        st.frames[fr] = dict(bind)
        return fr

    # ---- bookkeeping
    def here(self, node):
        mod = self.stack[-1][0]
        return "%s:%s:%d" % (mod.path.split("/")[-1], self.stack[-1][1].name if hasattr(self.stack[-1][1], "name") else "lambda", getattr(node, "lineno", 0))

    def effect(self, o, what, node, sure=True, attr=None):
        if o.root == "fresh":
            return
        w = self.here(node)
        k = (o, what, w, attr)
        if k in self.effects:
            self.effects[k].sure = self.effects[k].sure or sure
        else:
            self.effects[k] = Effect(o, what, w, sure, attr)

    def note_ambient(self, name, node):
        if name in self.plain:
            return
        before = len(self.ambient)
        self.note_ambient_(name, node)
        if len(self.ambient) == before and not self.guard and (name, self.here(node)) not in self.ambient:
            self.plain.add(name)

    def note_ambient_(self, name, node):
        for p in AMBIENT:
            if name == p or (p.endswith(".") and name.startswith(p)) or name.startswith(p + "."):
                self.ambient.setdefault((name, self.here(node)), "reads")
        for p in SETTERS:
            if self.guard and p.split(".")[0] in ("warnings", "numpy", "matplotlib") and "seed" not in p:
                continue
            if name == p or name.startswith(p + "."):
                self.ambient.setdefault((name, self.here(node)), "sets")

    # ---- heap
    def get(self, st, o, f):
        if (o, f) in st.heap:
            r = st.heap[(o, f)]
            if f.startswith("[=") and o.fresh:
                r = r | st.heap.get((o, "[]"), NONE)
            return r
        if o.fresh:
            if f.startswith("[="):
                return st.heap.get((o, "[]"), NONE)
            if f == "[]":
                out = NONE
                for (p, g), v in st.heap.items():
                    if p is o and g.startswith("["):
                        out |= v
                return out
            return NONE
        return lazy_field(o, f)

    def elems(self, st, vals, node=None):
        out = NONE
        for o in vals:
            if isinstance(o, Obj):
                out |= self.get(st, o, "[]")
                if not o.fresh:
                    for (p, g), v in st.heap.items():
                        if p is o and g.startswith("[="):
                            out |= v
                if o.kind == "instance" and o.cls:
                    c = self.pkg.class_index.get(o.cls)
                    m = c and self.pkg.find_method(c, "__getitem__")
                    if m:
                        st2, r = self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([o])), [NONE], {}, st, node)
                        out |= r
        return out

    def iterate(self, st, vals, node=None):
        """going through a dictionary yields its keys"""
        return self.elems(st, frozenset(o for o in vals if not (isinstance(o, Obj) and o.kind == "dict")), node)

    def put(self, st, o, f, v, weak=False):
        strong = not weak and "[]" not in o.path and not (o.fresh and o.path == ("many",)) and f != "[]"
        if strong:
            st.heap[(o, f)] = v
        else:
            st.heap[(o, f)] = self.get(st, o, f) | v

    # ---- functions
    def body(self, mod, cls, node, st, fr):
        self.stack.append((mod, node, cls, fr))
        self.visited.add((mod.name, (cls.name + "." if cls else "") + getattr(node, "name", "lambda")))
        self.rets = getattr(self, "rets", [])
        self.rets.append([])
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, st, fr)
            self.rets.pop()
            self.stack.pop()
            return st, r
        end = self.block(node.body, st, fr)
        outs = self.rets.pop()
        self.stack.pop()
        res, val = end, NONE
        for s, v in outs:
            res = join(res, s)
            val |= v
        return res, val

    def call_fn(self, f, args, kw, st, node, star=NONE):
        """args: list of values; kw: {name: value}; star: values of unknown positions"""
        n = f.node
        depth = sum(1 for s in self.stack if s[1] is n)
        if depth > 1 or len(self.stack) > MAXDEPTH:
            return st, NONE
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bind = {}
        allargs = list(args)
        if f.cls is not None and f.recv is not None and not is_static(n):
            allargs = [f.recv] + allargs
        for name, v in zip(pos, allargs):
            bind[name] = v
        extra = allargs[len(pos):]
        if star:
            for name in pos[len(allargs):]:
                if name not in kw:
                    bind[name] = bind.get(name, NONE) | star
        kwextra = NONE
        kwonly = [x.arg for x in a.kwonlyargs]
        kwrest = {}
        for k, v in kw.items():
            if k is None:
                for name in pos + kwonly:
                    if name not in bind and name not in kw:
                        bind[name] = v
                kwrest["[]"] = v
            elif k in pos or k in kwonly:
                bind[k] = v
            else:
                kwrest["[=%s" % k] = v
        defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(kwonly, a.kw_defaults) if d is not None]
        given = set(bind)
        for name, d in defaults:
            if name not in given or (None in kw and kw[None] is not None and name in bind and name not in kw):
                bind[name] = bind.get(name, NONE) | self.default(f, name, d, st)
        if a.vararg:
            o = Obj("fresh", ("varargs", id(n)), ("many",), None, "list")
            bind[a.vararg.arg] = frozenset([o])
            for v in extra:
                self.put(st, o, "[]", v)
            self.put(st, o, "[]", star)
        if a.kwarg:
            o = Obj("fresh", ("kwargs", id(n)), ("many",), None, "dict")
            bind[a.kwarg.arg] = frozenset([o])
            for k, v in kwrest.items():
                self.put(st, o, k, v)
        if isinstance(node, ast.Call) and self.stack and len(node.args) == len(args) and not any(isinstance(x, ast.Starred) for x in node.args):
            here = self.stack[-1][3]
            off = len(allargs) - len(args)
            for name, x in list(zip(pos[off:], node.args)) + [(k.arg, k.value) for k in node.keywords if k.arg in bind]:
                known = self.texts(x, st, here)
                if known is not None and name in bind:
                    bind["\0c:" + name] = known
        for name, d in defaults:
            if name not in given and isinstance(d, ast.Constant) and isinstance(d.value, str):
                bind["\0c:" + name] = frozenset([d.value])
        if f.frame is not None and f.frame in st.frames:
            bind["\0parent"] = f.frame
        fr = self.newframe(st, bind)
        end, val = self.body(f.mod, f.cls, n, st, fr)
        if end is None:
            # every path raises; effects are kept, the state is the one before
            end = st
        end.frames.pop(fr, None) if not any(isinstance(v, Fn) for v in val) else None
        return end, val

    def default(self, f, name, d, st):
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set")):
            return frozenset([Obj("default", "%s of %s" % (name, getattr(f.node, "name", "lambda")), (), None, "dict" if isinstance(d, ast.Dict) else "list")])
        if isinstance(d, (ast.Constant, ast.Tuple, ast.UnaryOp)):
            return NONE
        if isinstance(d, ast.Name):
            return self.global_value(f.mod, d.id)
        return NONE

    # ---- statements: return the state after, or None
    def block(self, body, st, fr):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, st, fr)
            return st
        if t is ast.Assign:
            v = self.ev(s.value, st, fr)
            known = self.texts(s.value, st, fr)
            for tg in s.targets:
                self.assign(tg, v, st, fr, s)
                if known is not None and isinstance(tg, ast.Name):
                    st.frames[fr]["\0c:" + tg.id] = known
            return st
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
            return st
        if t is ast.AugAssign:
            v = self.ev(s.value, st, fr)
            self.augassign(s, v, st, fr)
            return st
        if t is ast.Return:
            v = self.ev(s.value, st, fr) if s.value is not None else NONE
            self.rets[-1].append((st, v))
            return None
        if t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, st, fr)
            return None
        if t is ast.If:
            self.ev(s.test, st, fr)
            a, b = st, st.copy()
            self.narrow(s.test, True, a, fr)
            self.narrow(s.test, False, b, fr)
            return join(self.block(s.body, a, fr), self.block(s.orelse, b, fr))
        each = self.literal(s.iter) if t is ast.For and not (isinstance(s.iter, ast.Name) and s.iter.id in st.frames[fr]) else None
        if each is not None:
            # a short literal: its elements one after another
            self.loops = getattr(self, "loops", [])
            self.loops.append([])
            cur = st
            for x in each:
                if cur is None:
                    break
                self.bind(s.target, x, cur, fr, s)
                done = len(self.loops[-1])
                cur = self.block(s.body, cur, fr)
                for kind, y in self.loops[-1][done:]:
                    if kind == "continue":
                        cur = join(cur, y)
            brk = [x for kind, x in self.loops.pop() if kind == "break"]
            end = self.block(s.orelse, cur, fr) if s.orelse and cur is not None else cur
            for x in brk:
                end = join(end, x)
            return end
        if t in (ast.For, ast.AsyncFor, ast.While):
            self.loops = getattr(self, "loops", [])
            self.loops.append([])
            entry = st
            head = st
            for _ in range(6):
                cur = head.copy()
                if t is ast.While:
                    self.ev(s.test, cur, fr)
                else:
                    it = self.ev(s.iter, cur, fr)
                    self.assign_iter(s.target, s.iter, it, cur, fr, s)
                out = self.block(s.body, cur, fr)
                for kind, x in self.loops[-1]:
                    if kind == "continue":
                        out = join(out, x)
                new = join(head, out)
                if same(new, head):
                    head = new
                    break
                head = new
            brk = [x for kind, x in self.loops.pop() if kind == "break"]
            end = self.block(s.orelse, head.copy(), fr) if s.orelse else head
            for x in brk:
                end = join(end, x)
            return end
        if t in (ast.Break, ast.Continue):
            self.loops[-1].append(("break" if t is ast.Break else "continue", st))
            return None
        if t in (ast.With, ast.AsyncWith):
            guard = 0
            for i in s.items:
                v = self.ev(i.context_expr, st, fr)
                x = i.context_expr
                if isinstance(x, ast.Call) and any(isinstance(f, Ext) and str(f) in SCOPED for f in self.ev(x.func, st, fr)):
                    guard += 1
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, fr, s)
            self.guard += guard
            out = self.block(s.body, st, fr)
            self.guard -= guard
            return out
        if t is ast.Try or t.__name__ == "TryStar":
            before = st.copy()
            mid = self.block(s.body, st, fr)
            hstart = join(before, mid)
            ends = self.block(s.orelse, mid, fr) if mid is not None else None
            for h in s.handlers:
                x = hstart.copy()
                if h.name:
                    x.frames[fr][h.name] = NONE
                ends = join(ends, self.block(h.body, x, fr))
            if s.finalbody:
                y = self.block(s.finalbody, (ends or hstart).copy(), fr)
                return y if ends is not None else None
            return ends
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    st.frames[fr].pop(tg.id, None)
                elif isinstance(tg, ast.Attribute):
                    for o in self.ev(tg.value, st, fr):
                        if isinstance(o, Obj):
                            self.effect(o, "deletes attribute %s of" % tg.attr, tg, attr=tg.attr)
                elif isinstance(tg, ast.Subscript):
                    self.ev(tg.slice, st, fr)
                    for o in self.ev(tg.value, st, fr):
                        if isinstance(o, Obj):
                            self.effect(o, "deletes an element of", tg)
            return st
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            st.frames[fr][s.name] = frozenset([Fn(self.stack[-1][0], s, None, None, fr)])
            return st
        if t is ast.Assert:
            self.ev(s.test, st, fr)
            return st
        if t in (ast.Global, ast.Nonlocal):
            if t is ast.Global:
                st.frames[fr]["\0global"] = st.frames[fr].get("\0global", NONE) | frozenset(s.names)
            return st
        if t in (ast.Import, ast.ImportFrom):
            for a in s.names:
                nm = a.asname or a.name.split(".")[0]
                if t is ast.Import:
                    st.frames[fr][nm] = frozenset([Ext(a.name if a.asname else nm)])
                else:
                    base = s.module or ""
                    r = None
                    if s.level or base.startswith("swprocess"):
                        full = ("swprocess." + base if s.level else base) + "." + a.name
                        r = self.pkg.resolve(full.replace("swprocess..", "swprocess."))
                    st.frames[fr][nm] = self.resolved(r) if r else frozenset([Ext(base + "." + a.name)])
            return st
        if t is ast.Match:
            self.ev(s.subject, st, fr)
            out = st.copy()
            for c in s.cases:
                out = join(out, self.block(c.body, st.copy(), fr))
            return out
        return st

    def narrow(self, test, sense, st, fr):
        """isinstance tests on a name settle its class; an 'is None' test empties it"""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, sense = test.operand, not sense
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            is_none = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and is_none == sense and test.left.id in st.frames[fr]:
                st.frames[fr][test.left.id] = NONE
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            n, ty = test.args[0].id, test.args[1]
            if isinstance(ty, ast.Name) and ty.id in ("str", "int", "float", "bool", "complex") and sense and n in st.frames[fr]:
                st.frames[fr][n] = NONE
            elif isinstance(ty, ast.Tuple) and all(isinstance(e, ast.Name) and e.id in ("str", "int", "float", "bool", "complex") for e in ty.elts) and sense and n in st.frames[fr]:
                st.frames[fr][n] = NONE

    def assign_iter(self, target, it_node, vals, st, fr, node):
        """bind a loop target to the elements of an iterable; enumerate and zip keep their positions apart"""
        if isinstance(it_node, ast.Call) and isinstance(it_node.func, ast.Name) and it_node.func.id in ("enumerate", "zip") and isinstance(target, (ast.Tuple, ast.List)) \
                and not any(isinstance(a, ast.Starred) for a in it_node.args):
            parts = [self.elems(st, self.ev(a, st, fr), node) for a in it_node.args]
            if it_node.func.id == "enumerate":
                parts = [NONE] + parts[:1]
            if len(parts) == len(target.elts):
                for tg, v in zip(target.elts, parts):
                    self.assign(tg, v, st, fr, node)
                return
        if isinstance(it_node, ast.Call) and isinstance(it_node.func, ast.Attribute) and it_node.func.attr == "items" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
            self.assign(target.elts[0], NONE, st, fr, node)
            self.assign(target.elts[1], self.elems(st, self.ev(it_node.func.value, st, fr), node), st, fr, node)
            return
        self.unordered(vals, it_node)
        self.assign(target, self.iterate(st, vals, node), st, fr, node)

    def unordered(self, vals, node):
        """the order of a set of texts differs from run to run"""
        for o in vals:
            if isinstance(o, Obj) and o.kind in ("set", "listing"):
                self.ambient.setdefault(("the order of " + ("a set" if o.kind == "set" else "a directory listing"), self.here(node)), "may read" if o.kind == "set" else "reads")

    def assign(self, tg, v, st, fr, node):
        if isinstance(tg, ast.Name):
            if tg.id in st.frames[fr].get("\0global", NONE):
                mod = self.stack[-1][0]
                self.effect(Obj("global", mod.name + "." + tg.id), "rebinds", node)
                return
            st.frames[fr][tg.id] = v
            st.frames[fr].pop("\0c:" + tg.id, None)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                if isinstance(x, ast.Starred):
                    o = Obj("fresh", (id(x), "star"), (), None, "list")
                    self.put(st, o, "[]", self.elems(st, v, node))
                    self.assign(x.value, frozenset([o]), st, fr, node)
                    continue
                w = NONE
                for o in v:
                    if isinstance(o, Obj):
                        w |= self.get(st, o, "[=%d" % i) if o.fresh else self.elems(st, frozenset([o]), node)
                self.assign(x, w, st, fr, node)
        elif isinstance(tg, ast.Attribute):
            for o in self.ev(tg.value, st, fr):
                self.store_attr(o, tg.attr, v, st, fr, tg)
        elif isinstance(tg, ast.Subscript):
            self.ev(tg.slice, st, fr)
            for o in self.ev(tg.value, st, fr):
                if isinstance(o, Ext):
                    self.note_ambient(str(o), tg)
                    if str(o) == "os.environ" or "rcParams" in str(o):
                        self.ambient[(str(o), self.here(tg))] = "sets"
                    continue
                if isinstance(o, Obj):
                    c = self.pkg.class_index.get(o.cls) if o.cls else None
                    m = c and self.pkg.find_method(c, "__setitem__")
                    if m:
                        self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([o])), [NONE, v], {}, st, tg)
                        continue
                    self.effect(o, "stores into", tg)
                    if o.kind not in ("array", "array2", "mask"):      # an array takes the values, not the objects
                        self.put(st, o, self.key(tg.slice), v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, fr, node)

    def store_attr(self, o, attr, v, st, fr, node, weak=False):
        if v in self.guessed:
            self.guess = True       # one of several attributes, and which is not known
        if isinstance(o, Obj):
            c = self.pkg.class_index.get(o.cls) if o.cls else None
            if c is not None:
                for k in self.pkg.mro(c):
                    for s in k.node.body:
                        if isinstance(s, ast.FunctionDef) and s.name == attr and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                            self.call_fn(Fn(k.module, s, k, frozenset([o])), [v], {}, st, node)
                            return
            self.effect(o, "sets attribute %s of" % attr, node, attr=attr)
            self.put(st, o, attr, v, weak)
        elif hasattr(o, "methods"):
            self.effect(Obj("class", o.name + "." + attr), "sets", node)
        elif isinstance(o, Ext):
            self.ambient[(str(o) + "." + attr, self.here(node))] = "sets"

    def texts(self, e, st, fr):
        """the texts an expression can be, or None"""
        if isinstance(e, ast.Constant):
            return frozenset([e.value]) if isinstance(e.value, str) else None
        if isinstance(e, ast.Name):
            f = fr
            while f is not None and f in st.frames:
                env = st.frames[f]
                if e.id in env:
                    return env.get("\0c:" + e.id)
                f = env.get("\0parent")
            r = self.pkg.lookup(self.stack[-1][0], e.id)
            return frozenset([r[2].value]) if r and r[0] == "expr" and isinstance(r[2], ast.Constant) and isinstance(r[2].value, str) else None
        if isinstance(e, ast.JoinedStr):
            out = {""}
            for x in e.values:
                v = self.texts(x.value if isinstance(x, ast.FormattedValue) else x, st, fr)
                if v is None or isinstance(x, ast.FormattedValue) and (x.format_spec is not None or x.conversion != -1):
                    return None
                out = {a + b for a in out for b in v}
            return frozenset(out)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.texts(e.left, st, fr), self.texts(e.right, st, fr)
            return frozenset(x + y for x in a for y in b) if a is not None and b is not None else None
        if isinstance(e, ast.IfExp):
            a, b = self.texts(e.body, st, fr), self.texts(e.orelse, st, fr)
            return a | b if a is not None and b is not None else None
        return None

    def literal(self, e):
        """the element expressions of a short literal collection, or None"""
        if isinstance(e, ast.Name):
            r = self.pkg.lookup(self.stack[-1][0], e.id)
            e = r[2] if r and r[0] == "expr" and isinstance(r[2], ast.Tuple) else None
        if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) <= 16 and e.elts and not any(isinstance(x, ast.Starred) for x in e.elts):
            return e.elts
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "items" and not e.args and isinstance(e.func.value, ast.Dict) and \
                0 < len(e.func.value.keys) <= 16 and None not in e.func.value.keys:
            return [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(e.func.value.keys, e.func.value.values)]
        return None

    def bind(self, tg, x, st, fr, node):
        """target = element expression of a literal"""
        if isinstance(tg, (ast.Tuple, ast.List)) and isinstance(x, (ast.Tuple, ast.List)) and len(tg.elts) == len(x.elts):
            for a, b in zip(tg.elts, x.elts):
                self.bind(a, b, st, fr, node)
            return
        known = self.texts(x, st, fr)
        self.assign(tg, self.ev(x, st, fr), st, fr, node)
        if known is not None and isinstance(tg, ast.Name):
            st.frames[fr]["\0c:" + tg.id] = known

    def key(self, sl):
        if isinstance(sl, ast.Constant) and isinstance(sl.value, (int, str)):
            return "[=%s" % sl.value
        return "[]"

    def augassign(self, s, v, st, fr):
        tg = s.target
        if isinstance(tg, ast.Name):
            if tg.id in st.frames[fr].get("\0global", NONE):
                self.effect(Obj("global", self.stack[-1][0].name + "." + tg.id), "rebinds", s)
                return
            cur = self.lookup(tg.id, st, fr)
            st.frames[fr].pop("\0c:" + tg.id, None)
            keep = set()
            for o in cur:
                if isinstance(o, Obj):
                    if o.kind in ("array", "array2", "list", "dict"):
                        self.effect(o, "updates in place", s)
                        keep.add(o)
                    elif o.kind == "fresh" or o.fresh:
                        keep.add(o)
                    else:
                        self.effect(o, "may update in place", s, sure=False)
                        keep.add(o)
                    if o.kind == "list":
                        self.put(st, o, "[]", self.elems(st, v, s))
            st.frames[fr][tg.id] = frozenset(keep)
        elif isinstance(tg, ast.Attribute):
            cur = self.ev(tg, st, fr)
            for o in cur:
                if isinstance(o, Obj) and o.kind in ("array", "array2", "list", "dict"):
                    self.effect(o, "updates in place", s)
                    if o.kind == "list":
                        self.put(st, o, "[]", self.elems(st, v, s))
            for o in self.ev(tg.value, st, fr):
                self.store_attr(o, tg.attr, cur, st, fr, tg)
        elif isinstance(tg, ast.Subscript):
            cur = self.ev(tg, st, fr)
            for o in cur:
                if isinstance(o, Obj) and o.kind in ("array", "array2", "list", "dict"):
                    self.effect(o, "updates in place", s)
            for o in self.ev(tg.value, st, fr):
                if isinstance(o, Obj):
                    self.effect(o, "stores into", tg)

    # ---- names
    def lookup(self, n, st, fr):
        f = fr
        while f is not None and f in st.frames:
            env = st.frames[f]
            if n in env:
                return env[n]
            f = env.get("\0parent")
        mod = self.stack[-1][0]
        return self.global_value(mod, n)

    def resolved(self, r):
        if r is None:
            return NONE
        if r[0] == "func":
            return frozenset([Fn(r[1], r[2])])
        if r[0] == "class":
            return frozenset([r[1]])
        if r[0] == "mod":
            return frozenset([r[1]])
        if r[0] == "ext":
            return frozenset([Ext(r[1])])
        if r[0] == "expr":
            name = next((k for k, v in r[1].assigns.items() if v is r[2]), "?")
            return self.module_value(r[1], name, r[2])
        return NONE

    def module_value(self, mod, name, e):
        if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.Tuple)):
            return frozenset([Obj("global", mod.name + "." + name, (), None, "list")])
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return frozenset([Obj("global", mod.name + "." + name, (), None, "dict")])
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Lambda):
            return frozenset([Fn(mod, e)])
        if isinstance(e, ast.Name):
            return self.global_value(mod, e.id) if e.id != name else NONE
        if isinstance(e, ast.Call):
            return frozenset([Obj("global", mod.name + "." + name, (), None, None)])
        return NONE

    def global_value(self, mod, n):
        r = self.pkg.lookup(mod, n)
        if r is not None:
            return self.resolved(r)
        return frozenset([Ext(n)])

    # ---- expressions
    def fresh(self, node, kind=None, cls=None):
        many = ("many",) if getattr(self, "loops", None) else ()
        f = self.stack[-1]
        return Obj("fresh", (id(node), len(self.stack), f[3] if False else 0), many, cls, kind)

    def ev(self, e, st, fr):
        t = type(e)
        if t is ast.Constant or e is None:
            return NONE
        if t is ast.Name:
            return self.lookup(e.id, st, fr)
        if t is ast.Attribute:
            return self.attr(e, self.ev(e.value, st, fr), e.attr, st, fr)
        if t is ast.Subscript:
            base = self.ev(e.value, st, fr)
            sl = e.slice
            idx = [self.ev(x, st, fr) for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl])]
            return self.subscript(e, base, st, fr, idx)
        if t is ast.Call:
            return self.call(e, st, fr)
        if t in (ast.List, ast.Tuple, ast.Set):
            o = self.fresh(e, "set" if t is ast.Set else "list")
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self.put(st, o, "[]", self.iterate(st, self.ev(x.value, st, fr), x))
                else:
                    v = self.ev(x, st, fr)
                    if v:
                        self.put(st, o, "[=%d" % i, v)
            return frozenset([o])
        if t is ast.Dict:
            o = self.fresh(e, "dict")
            for k, x in zip(e.keys, e.values):
                v = self.ev(x, st, fr)
                if k is None:
                    for p in v:
                        if isinstance(p, Obj):
                            self.put(st, o, "[]", self.elems(st, frozenset([p]), x))
                            for (q, g), w in list(st.heap.items()):
                                if q is p and g.startswith("[="):
                                    self.put(st, o, g, w)
                    continue
                self.ev(k, st, fr)
                if v:
                    self.put(st, o, self.key(k), v)
            return frozenset([o])
        if t is ast.IfExp:
            self.ev(e.test, st, fr)
            return self.ev(e.body, st, fr) | self.ev(e.orelse, st, fr)
        if t is ast.BoolOp:
            out = NONE
            for x in e.values:
                out |= self.ev(x, st, fr)
            return out
        if t is ast.BinOp:
            a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
            for x, nm in ((a, "__add__"),):
                for o in x:
                    if isinstance(o, Obj) and o.cls:
                        self.dunder(o, e, [b], st)
            o = self.fresh(e, "array2" if any(isinstance(x, Obj) and x.kind in ("array", "array2", "mask") for x in a | b) else "fresh")
            if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)) and any(isinstance(x, Obj) and x.kind in ("list", "dict") for x in a | b):
                self.put(st, o, "[]", self.elems(st, a, e) | self.elems(st, b, e))
            return frozenset([o])
        if t is ast.UnaryOp:
            v = self.ev(e.operand, st, fr)
            return frozenset([self.fresh(e, "mask" if any(isinstance(x, Obj) and x.kind in ("array", "array2", "mask") for x in v) else "fresh")])
        if t is ast.Compare:
            vals = [self.ev(x, st, fr) for x in [e.left] + e.comparators]
            for op, a, b in zip(e.ops, vals, vals[1:]):
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    for o in a:
                        if isinstance(o, Obj) and o.cls:
                            self.invoke(o, "__eq__", [b], e, st)
            arr = any(isinstance(x, Obj) and x.kind in ("array", "array2", "mask") for v in vals for x in v)
            return frozenset([self.fresh(e, "mask" if arr else "fresh")])
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            saved = dict(st.frames[fr])
            self.loops = getattr(self, "loops", [])
            self.loops.append([])
            for g in e.generators:
                it = self.ev(g.iter, st, fr)
                self.assign_iter(g.target, g.iter, it, st, fr, e)
                for c in g.ifs:
                    self.ev(c, st, fr)
            o = self.fresh(e, "dict" if t is ast.DictComp else "set" if t is ast.SetComp else "list")
            if t is ast.DictComp:
                self.ev(e.key, st, fr)
                v = self.ev(e.value, st, fr)
            else:
                v = self.ev(e.elt, st, fr)
            self.put(st, o, "[]", v)
            self.loops.pop()
            st.frames[fr] = {k: (saved[k] if k in saved else v) for k, v in st.frames[fr].items()}
            return frozenset([o])
        if t is ast.Lambda:
            return frozenset([Fn(self.stack[-1][0], e, None, None, fr)])
        if t is ast.NamedExpr:
            v = self.ev(e.value, st, fr)
            self.assign(e.target, v, st, fr, e)
            return v
        if t is ast.Starred:
            return self.ev(e.value, st, fr)
        if t in (ast.JoinedStr,):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    for o in self.ev(x.value, st, fr):
                        if isinstance(o, Obj) and o.cls:
                            self.invoke(o, "__str__", [], e, st)
            return NONE
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, st, fr)
            return NONE
        if t in (ast.Yield, ast.YieldFrom, ast.Await):
            v = self.ev(e.value, st, fr) if e.value is not None else NONE
            o = self.fresh(e, "list")
            self.put(st, o, "[]", v)
            self.rets[-1].append((st.copy(), frozenset([o])))
            return NONE
        return NONE

    def dunder(self, o, e, args, st):
        nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(type(e.op))
        if nm:
            self.invoke(o, nm, args, e, st)

    def invoke(self, o, name, args, node, st):
        c = self.pkg.class_index.get(o.cls) if o.cls else None
        m = c and self.pkg.find_method(c, name)
        if m:
            return self.sync(st, self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([o])), args, {}, st, node))
        return None

    def sync(self, st, res):
        """the callee's final state becomes the caller's (states are updated in place)"""
        end, val = res
        if end is not st:
            st.frames, st.heap = end.frames, end.heap
        return val

    def attr(self, e, base, a, st, fr):
        out = NONE
        for b in base:
            if isinstance(b, Ext):
                n = Ext(str(b) + "." + a)
                self.note_ambient(str(n), e)
                out |= frozenset([n])
            elif isinstance(b, Super):
                for o in b[1]:
                    c = self.pkg.class_index.get(o.cls) if isinstance(o, Obj) else o
                    m = c and self.pkg.find_method(c, a, after=b[0])
                    if m:
                        if is_prop(m[1]):
                            out |= self.sync(st, self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([o])), [], {}, st, e))
                        else:
                            out |= frozenset([Fn(m[0].module, m[1], m[0], frozenset([o]) if not is_classm(m[1]) else frozenset([c]))])
            elif isinstance(b, Obj):
                out |= self.obj_attr(e, b, a, st)
            elif hasattr(b, "methods"):
                m = self.pkg.find_method(b, a)
                if m:
                    out |= frozenset([Fn(m[0].module, m[1], m[0], frozenset([b]) if is_classm(m[1]) else None)])
                else:
                    out |= self.class_const(b, a)
            elif hasattr(b, "funcs"):
                r = self.pkg.lookup(b, a)
                out |= self.resolved(r)
        return out

    def class_const(self, c, a):
        k = self.pkg.find_const(c, a)
        if k is None:
            return NONE
        v = k[1]
        if isinstance(v, ast.Constant):
            return NONE
        if isinstance(v, ast.Lambda):
            return frozenset([Fn(k[0].module, v)])
        kind = "dict" if isinstance(v, (ast.Dict, ast.DictComp)) else "list" if isinstance(v, (ast.List, ast.Tuple)) else None
        return frozenset([Obj("class", k[0].name + "." + a, (), None, kind)])

    def obj_attr(self, e, b, a, st):
        c = self.pkg.class_index.get(b.cls) if b.cls else None
        if a == "__dict__":
            return frozenset([b])
        if c is not None:
            if a == "__class__":
                return frozenset([c])
            m = self.pkg.find_method(c, a)
            if m:
                if is_prop(m[1]):
                    return self.sync(st, self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([b])), [], {}, st, e))
                if is_static(m[1]):
                    return frozenset([Fn(m[0].module, m[1], m[0], None)])
                return frozenset([Fn(m[0].module, m[1], m[0], frozenset([c]) if is_classm(m[1]) else frozenset([b]))])
            if not self.pkg.is_inst_attr(c, a) and (b, a) not in st.heap and self.pkg.find_const(c, a):
                return self.class_const(c, a)
            return self.get(st, b, a)
        if (b, a) in st.heap:
            return st.heap[(b, a)]
        if b.kind in ("array", "array2", "fresh", "mask"):
            if a in VIEW_ATTRS:
                return frozenset([b])
            if a in SCALAR_ATTRS:
                return NONE
            return frozenset([Lib((b, a))])
        if b.kind in ("list", "dict"):
            return frozenset([Lib((b, a))])
        # class unknown: a library object, or one of ours
        out = frozenset([Lib((b, a))])
        if a in SCALAR_ATTRS:
            return NONE
        if not b.fresh:
            out |= self.get(st, b, a)
            if a in VIEW_ATTRS:
                out |= frozenset([b])
            for k in self.by_method.get(a, ()):
                if a in LIST_MUT or getattr(k.module, "stub", False) and False:
                    continue
                m = k.methods[a]
                if not is_prop(m) and not is_classm(m) and not is_static(m):
                    self.unknown.setdefault((b, a), self.here(e))
        return out

    def subscript(self, e, base, st, fr, idx=()):
        out = NONE
        sl = e.slice
        fancy_index = any(isinstance(x, Obj) and x.kind in ("array", "array2", "mask", "list") for v in idx for x in v)
        sliced = isinstance(sl, ast.Slice) or (isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) or (isinstance(x, ast.Constant) and x.value is Ellipsis) for x in sl.elts)) \
            or (isinstance(sl, ast.Constant) and sl.value is Ellipsis) \
            or (isinstance(sl, ast.Constant) and sl.value is None)
        for b in base:
            if isinstance(b, Ext):
                self.note_ambient(str(b), e)
                out |= frozenset([Ext(str(b) + "[]")])
                continue
            if not isinstance(b, Obj):
                continue
            if b.root == "class" and b.name.split(".")[0] in self.pkg.registry_tables():
                out |= frozenset(self.pkg.registry_tables()[b.name.split(".")[0]].values())
                continue
            c = self.pkg.class_index.get(b.cls) if b.cls else None
            m = c and self.pkg.find_method(c, "__getitem__")
            if m:
                out |= self.sync(st, self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([b])), [NONE], {}, st, e))
                continue
            if b.kind in ("array", "array2"):
                if fancy_index:         # a selection, which is a new array
                    out |= frozenset([self.fresh(e, "array2")])
                elif sliced:
                    out |= frozenset([b])
                elif b.kind == "array2":
                    out |= self.get(st, b, "[]")
                continue
            if isinstance(sl, ast.Slice):
                o = self.fresh(e, "list" if b.kind == "list" else None)
                if b.kind == "list":
                    self.put(st, o, "[]", self.elems(st, frozenset([b]), e))
                    out |= frozenset([o])
                else:
                    out |= frozenset([b])
                continue
            k = self.key(sl)
            if b.kind == "dict" or isinstance(sl, ast.Constant):
                v = self.get(st, b, k) if k != "[]" else self.elems(st, frozenset([b]), e)
                if k != "[]" and not b.fresh and (b, k) not in st.heap:
                    v = v | st.heap.get((b, "[]"), NONE)
                out |= v
            else:
                out |= self.elems(st, frozenset([b]), e)
        return out

    # ---- calls
    def call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            mod, node, cls, f = self.stack[-1]
            ff = fr
            first = None
            n = node
            while cls is None and len(self.stack) > 1:
                break
            if cls is not None and n.args.args:
                first = self.lookup(n.args.args[0].arg, st, fr)
                return frozenset([Super((cls, first))])
            return NONE
        fv = self.ev(e.func, st, fr)
        self.ncalls += 1
        args, star = [], NONE
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                fixed = self.fixed_elems(v, st)
                if fixed is not None and not star:
                    args += fixed
                else:
                    star = star | self.elems(st, v, e)
            elif star:
                star = star | self.ev(a, st, fr)
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                out = NONE
                for o in v:
                    if isinstance(o, Obj):
                        out |= self.elems(st, frozenset([o]), e)
                        for (p, g), w in list(st.heap.items()):
                            if p is o and g.startswith("[="):
                                kw.setdefault(g[2:], NONE)
                                kw[g[2:]] |= w
                kw[None] = kw.get(None, NONE) | out
            else:
                kw[k.arg] = v
        return self.apply(fv, args, kw, star, e, st, fr)

    def fixed_elems(self, v, st):
        if len(v) == 1:
            o = next(iter(v))
            if isinstance(o, Obj) and o.fresh and o.kind == "list" and (o, "[]") not in st.heap:
                ks = {g: w for (p, g), w in st.heap.items() if p is o and g.startswith("[=")}
                idx = [int(g[2:]) for g in ks if g[2:].isdigit()]
                if len(idx) == len(ks):
                    return [ks.get("[=%d" % i, NONE) for i in range(max(idx) + 1)] if idx else []
        return None

    def apply(self, fv, args, kw, star, e, st, fr):
        out = NONE
        targets = list(fv)
        if not targets:
            return frozenset([self.fresh(e, None)])
        ends = []
        base = st if len(targets) == 1 else None
        snap = None if base is not None else st.copy()
        for f in sorted(targets, key=lambda x: repr(x) if not isinstance(x, Fn) else getattr(x.node, "name", "")):
            cur = st if base is not None else snap.copy()
            out |= self.apply1(f, args, kw, star, e, cur, fr)
            ends.append(cur)
        if base is None:
            res = None
            for x in ends:
                res = join(res, x)
            st.frames, st.heap = res.frames, res.heap
        return out

    def apply1(self, f, args, kw, star, e, st, fr):
        if isinstance(f, Fn):
            n = f.node
            if f.cls is not None and f.recv is None and not is_static(n) and not is_classm(n):
                pass        # unbound: the receiver is the first argument
            return self.sync(st, self.call_fn(f, args, kw, st, e, star))
        if hasattr(f, "methods"):
            return self.construct(f, args, kw, star, e, st)
        if isinstance(f, Lib):
            return self.lib_method(f[0], f[1], args, kw, star, e, st, fr)
        if isinstance(f, Ext):
            return self.lib_call(str(f), args, kw, star, e, st, fr)
        if isinstance(f, Obj):
            if f.cls:
                r = self.invoke(f, "__call__", args, e, st)
                if r is not None:
                    return r
            return frozenset([self.fresh(e, None)])
        return frozenset([self.fresh(e, None)])

    def construct(self, c, args, kw, star, e, st):
        o = self.fresh(e, "instance", c.name)
        m = self.pkg.find_method(c, "__init__")
        if m:
            self.sync(st, self.call_fn(Fn(m[0].module, m[1], m[0], frozenset([o])), args, kw, st, e, star))
        return frozenset([o])

    def callbacks(self, vals, st, e, elem=NONE):
        for v in vals:
            for f in v:
                if isinstance(f, Fn):
                    k = len(f.node.args.args) - (1 if f.recv is not None else 0)
                    self.sync(st, self.call_fn(f, [elem] * max(k, 0), {}, st, e))

    def lib_method(self, o, name, args, kw, star, e, st, fr):
        anyargs = list(args) + [v for v in kw.values()] + [star]
        elem = self.elems(st, frozenset([o]), e)
        self.callbacks(anyargs, st, e, elem)
        mut = o.kind != "external" and name in LIST_MUT and o.kind not in ("array", "array2", "instance") or name in ARR_MUT and o.kind not in ("dict", "instance", "external")
        if mut and not (name == "pop" and o.kind == "file"):
            self.effect(o, "calls %s() on" % name, e)
            if name in ("append", "add", "insert", "appendleft"):
                self.put(st, o, "[]", (args[-1] if args else NONE) | star)
            elif name == "extend":
                for v in args:
                    self.put(st, o, "[]", self.elems(st, v, e))
            elif name in ("update", "setdefault"):
                for v in args:
                    self.put(st, o, "[]", self.elems(st, v, e) if name == "update" else v)
                for k, v in kw.items():
                    self.put(st, o, "[=%s" % k if k else "[]", v)
        for k in ("out",):
            for p in kw.get(k, NONE):
                if isinstance(p, Obj):
                    self.effect(p, "writes the result (out=) into", e)
        if name in ("update", "setdefault") and False:
            return NONE
        if name in ALIAS_METHODS:
            return frozenset([o])
        if name == "astype":
            no_copy = any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords) if isinstance(e, ast.Call) else False
            return frozenset([o]) if no_copy else frozenset([self.fresh(e, "fresh")])
        if name in ELEM_METHODS:
            key = e.args[0] if isinstance(e, ast.Call) and e.args else None
            v = elem
            if key is not None and isinstance(key, ast.Constant):
                v = self.get(st, o, self.key(key)) | elem if False else self.get(st, o, self.key(key))
            if name in ("values", "items"):
                r = self.fresh(e, "list")
                if name == "items":
                    pair = Obj("fresh", (id(e), "pair"), ("many",), None, "list")
                    self.put(st, pair, "[=1", v)
                    self.put(st, r, "[]", frozenset([pair]))
                else:
                    self.put(st, r, "[]", v)
                return frozenset([r])
            return v | (args[1] if len(args) > 1 else NONE)
        if name in SHALLOW_METHODS:
            r = self.fresh(e, o.kind if o.kind in ("list", "dict") else "fresh")
            if name == "copy":
                self.shallow(o, r, st)
            return frozenset([r])
        # a method of ours on an object whose class is not known
        return frozenset([self.fresh(e, None)])

    def shallow(self, o, r, st):
        if o.kind in ("array", "array2", "fresh"):
            return
        for (p, g), w in list(st.heap.items()):
            if p is o:
                self.put(st, r, g, w)
        if not o.fresh:
            v = lazy_field(o, "[]")
            if v and o.kind in ("list", "dict", None):
                self.put(st, r, "[]", v)

    def lib_call(self, name, args, kw, star, e, st, fr):
        self.note_ambient(name, e)
        n = name
        arg0 = args[0] if args else NONE
        if n == "getattr" and isinstance(e, ast.Call) and len(e.args) >= 2:
            known = self.texts(e.args[1], st, fr)
            out = args[2] if len(args) > 2 else NONE
            if known is not None and len(known) <= 16:
                for nm in sorted(known):
                    out |= self.attr(e, arg0, nm, st, fr)
                return out
            for o in arg0:
                if isinstance(o, Obj):
                    for (p, g), w in st.heap.items():
                        if p is o and not g.startswith("["):
                            out |= w
                    if not o.fresh:
                        c = self.pkg.class_index.get(o.cls) if o.cls else None
                        names = {k[1] for k in TYPES if k[0] == o.cls}
                        for a in sorted(names):
                            out |= self.get(st, o, a)
                        if not names:
                            out |= frozenset([Obj(o.root, o.name, o.path + ("*",), None, None)])
            if len(out) > 1:
                self.guessed.add(out)
            return out
        if n == "setattr" and len(args) >= 3:
            if args[2] in self.guessed:
                self.guess = True
            known = self.texts(e.args[1], st, fr) if len(e.args) > 1 else None
            if known is not None and len(known) <= 16:
                for a in sorted(known):
                    for o in arg0:
                        self.store_attr(o, a, args[2], st, fr, e, weak=len(known) > 1)
                return NONE
            a = "*"
            for o in arg0:
                if a == "*":
                    if isinstance(o, Obj):
                        self.effect(o, "sets an attribute of", e, attr="*")
                        for f in {k[1] for k in TYPES if k[0] == o.cls} | {g for (p, g) in st.heap if p is o}:
                            self.put(st, o, f, args[2], weak=True)
                else:
                    self.store_attr(o, a, args[2], st, fr, e)
            return NONE
        if n in ("vars",):
            return arg0
        if n in LISTING:
            return frozenset([self.fresh(e, "listing")])
        if n == "type" and len(args) == 1:
            return frozenset(self.pkg.class_index[o.cls] for o in arg0 if isinstance(o, Obj) and o.cls in self.pkg.class_index)
        if n in MUT_CALLS:
            for o in arg0:
                if isinstance(o, Obj):
                    self.effect(o, "%s writes into" % n, e)
            return NONE
        for o in kw.get("out", NONE):
            if isinstance(o, Obj):
                self.effect(o, "writes the result (out=) into", e)
        outs = kw.get("out", NONE)
        if n in ("numpy.array", "numpy.nan_to_num") and isinstance(e, ast.Call):
            nocopy = any(k.arg == "copy" and not (isinstance(k.value, ast.Constant) and k.value.value is True) for k in e.keywords)
            if nocopy:
                if n == "numpy.nan_to_num":
                    for o in arg0:
                        if isinstance(o, Obj):
                            self.effect(o, "numpy.nan_to_num(copy=False) writes into", e)
                return arg0
            return frozenset([self.fresh(e, "array2")])
        if n == "scipy.signal.detrend" and any(k.arg == "overwrite_data" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in e.keywords):
            for o in arg0:
                if isinstance(o, Obj):
                    self.effect(o, "scipy.signal.detrend(overwrite_data=True) writes into", e)
            return arg0
        if n in ALIAS_CALLS:
            return arg0 | frozenset([self.fresh(e, "array2")])
        if n in ("getattr", "copy.copy"):
            out = NONE
            for o in arg0:
                if isinstance(o, Obj):
                    r = Obj("fresh", (id(e), "copy", o.cls, o.kind), ("many",) if getattr(self, "loops", None) else (), o.cls, o.kind)
                    self.shallow(o, r, st)
                    if not o.fresh and o.cls:
                        for k in TYPES:
                            if k[0] == o.cls:
                                self.put(st, r, k[1], self.get(st, o, k[1]))
                    out |= frozenset([r])
            return out
        if n == "copy.deepcopy":
            return frozenset(Obj("fresh", (id(e), "deep", o.cls, o.kind), (), o.cls, o.kind) for o in arg0 if isinstance(o, Obj))
        self.callbacks(list(args) + list(kw.values()), st, e, self.elem_all(st, args[1:] if n in ("map", "filter") else args, e))
        if n in SHALLOW_CALLS:
            r = self.fresh(e, "dict" if n in ("dict", "collections.OrderedDict") else "set" if n in ("set", "frozenset") else "list")
            if n not in ("set", "frozenset", "sorted"):
                for v in args:
                    self.unordered(v, e)
            if n in ("zip", "enumerate", "itertools.product", "itertools.zip_longest"):
                t = Obj("fresh", (id(e), "tup"), ("many",), None, "list")
                off = 1 if n == "enumerate" else 0
                for i, a in enumerate(args):
                    self.put(st, t, "[=%d" % (i + off), self.elems(st, a, e))
                if star:
                    self.put(st, t, "[]", self.elems(st, star, e))
                self.put(st, r, "[]", frozenset([t]))
            elif n == "itertools.chain":
                for a in args:
                    self.put(st, r, "[]", self.elems(st, a, e))
            elif n == "map":
                self.put(st, r, "[]", NONE)
            else:
                for o in arg0:
                    if isinstance(o, Obj) and (o.kind != "dict" or n in ("dict", "copy.copy", "collections.OrderedDict")):
                        for (p, g), w in list(st.heap.items()):
                            if p is o and g.startswith("[="):
                                self.put(st, r, g, w)
                src = args[1] if n == "filter" and len(args) > 1 else arg0
                self.put(st, r, "[]", self.elems(st, src, e) if n in ("dict", "copy.copy", "collections.OrderedDict") else self.iterate(st, src, e))
                for k, v in kw.items():
                    if n == "dict":
                        self.put(st, r, "[=%s" % k if k else "[]", v)
            return frozenset([r])
        if n in ELEM_CALLS:
            return self.elems(st, arg0, e) | (self.elem_args(args) if len(args) > 1 else NONE)
        if n in ("str", "repr", "print", "format", "len", "bool", "hash"):
            for v in args:
                for o in v:
                    if isinstance(o, Obj) and o.cls:
                        self.invoke(o, "__len__" if n == "len" else "__str__", [], e, st)
            return NONE
        if n in ("float", "int", "round", "abs", "isinstance", "issubclass", "range", "sum", "any", "all", "hasattr"):
            return NONE
        return outs | frozenset([self.fresh(e, "array2" if n.startswith("numpy.") or n.startswith("scipy.") else None)])

    def elem_all(self, st, args, e):
        out = NONE
        for v in args:
            out |= self.elems(st, v, e)
        return out

    def elem_args(self, args):
        out = NONE
        for v in args:
            out |= v
        return out


def same(a, b):
    return a.frames == b.frames and a.heap == b.heap


def reachable(an, st, roots, depth=5):
    """objects that existed before and can be reached from roots through what was written during the call: [(path, object)]"""
    out, seen, todo = [], set(), [((), o) for o in roots if isinstance(o, Obj)]
    while todo:
        path, o = todo.pop()
        if (o, len(path) > 0) in seen or len(path) > depth:
            continue
        seen.add((o, len(path) > 0))
        if not o.fresh and path:
            out.append((path, o))
            continue
        for (p, f), v in st.heap.items():
            if p is o:
                for x in v:
                    if isinstance(x, Obj):
                        todo.append((path + (f,), x))
    return out
