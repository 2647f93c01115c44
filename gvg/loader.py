"""Parse /repo's package (and the bundled model of the external TimeSeries base class)."""
import ast
import os

REPO = os.environ.get("SWP_REPO", "/repo")
PKG = "swprocess"
HERE = os.path.dirname(os.path.abspath(__file__))


class OutOfTime(Exception):
    pass


class AnalysisBroken(Exception):
    pass


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods = {}
        self.consts = {}
        self.bases = node.bases
        self._mro = None
        self.inst_attrs = set()
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        self.inst_attrs.add(n.attr)
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        self.consts[tg.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.consts[st.target.id] = st.value

    @property
    def qual(self):
        return self.name

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = st
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st.name, self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = base + "." + a.name if base else a.name
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        self.assigns[tg.id] = st.value
                    elif isinstance(tg, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        for x, y in zip(tg.elts, st.value.elts):
                            if isinstance(x, ast.Name):
                                self.assigns[x.id] = y
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.assigns[st.target.id] = st.value
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)


class Package:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s is missing" % base)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        self._stub("sigpropy", os.path.join(HERE, "stub_sigpropy.py"))
        self.class_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_index.setdefault(c.name, c)
        self.registries = None

    def _load(self, path):
        rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[:-9]
        import warnings
        with open(path, encoding="utf-8") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        self.modules[rel] = Module(rel, path, tree)

    def _stub(self, name, path):
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        self.modules[name] = Module(name, path, tree)
        self.modules[name].stub = True

    def repo_modules(self):
        return [m for m in self.modules.values() if not getattr(m, "stub", False)]

    def resolve(self, dotted, depth=0):
        """dotted name -> ('func', Module, node) | ('class', ClassInfo) | ('mod', Module) | ('expr', Module, node) | None"""
        if depth > 10:
            return None
        if dotted in self.modules:
            return ("mod", self.modules[dotted])
        if "." not in dotted:
            return None
        head, tail = dotted.rsplit(".", 1)
        r = self.resolve(head, depth + 1)
        if r and r[0] == "mod":
            return self.lookup(r[1], tail, depth + 1)
        return None

    def lookup(self, m, name, depth=0):
        if name in m.funcs:
            return ("func", m, m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.assigns:
            return ("expr", m, m.assigns[name])
        if name in m.imports:
            d = m.imports[name]
            r = self.resolve(d, depth + 1)
            return r or ("ext", d)
        if m.name + "." + name in self.modules:
            return ("mod", self.modules[m.name + "." + name])
        return None

    def cls(self, name):
        c = self.class_index.get(name)
        if c is None:
            raise AnalysisBroken("class %s is gone from the package" % name)
        return c

    def mro(self, c):
        if c._mro is None:
            bases = []
            for b in c.bases:
                r = self._resolve_expr(c.module, b)
                if r and r[0] == "class":
                    bases.append(r[1])
            seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in q[1:] for q in seqs):
                        break
                else:
                    break
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        s.pop(0)
            c._mro = out
        return c._mro

    def _resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self._resolve_expr(m, e.value)
            if r and r[0] == "mod":
                return self.lookup(r[1], e.attr)
            if r and r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        return None

    def closed(self, c):
        """all base classes are known, so that an attribute that none sets does not exist"""
        for k in self.mro(c):
            for b in k.bases:
                r = self._resolve_expr(k.module, b)
                if not (r and r[0] == "class") and not (isinstance(b, ast.Name) and b.id in ("object", "ABC")):
                    return False
            if "__getattr__" in k.methods or "__getattribute__" in k.methods:
                return False
        return True

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k, k.methods[name]
        return None

    def find_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k, k.consts[name]
        return None

    def is_inst_attr(self, c, name):
        return any(name in k.inst_attrs for k in self.mro(c))

    def subclass(self, c, d):
        return d in self.mro(c)

    def registry_tables(self):
        """{registry class name: {entry name: ClassInfo}} from @Registry.register('x') decorators."""
        if self.registries is None:
            reg = {}
            self.reg_dups = []
            for m in self.repo_modules():
                for c in m.classes.values():
                    for d in c.node.decorator_list:
                        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
                            r = self._resolve_expr(m, d.func.value)
                            if r and r[0] == "class" and d.args:
                                arg = d.args[0]
                                if isinstance(arg, ast.Name):
                                    rr = self.lookup(m, arg.id)
                                    if rr and rr[0] == "expr":
                                        arg = rr[2]
                                if isinstance(arg, ast.Constant):
                                    tab = reg.setdefault(r[1].name, {})
                                    if arg.value in tab:
                                        self.reg_dups.append((r[1].name, arg.value, c.name))
                                    tab[arg.value] = c
            self.registries = reg
        return self.registries


def is_static(node):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)


def is_classm(node):
    return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in node.decorator_list)


def is_prop(node):
    return any((isinstance(d, ast.Name) and d.id in ("property", "cached_property")) or
               (isinstance(d, ast.Attribute) and d.attr in ("cached_property",)) for d in node.decorator_list)
