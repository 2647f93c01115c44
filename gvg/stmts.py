"""Statements and expressions of the analysed program -> gated values (attached to Interp)."""
import ast
import time
from .terms import *
from . import norm
from .loader import *

MEASURED = ("_x", "_y", "_z", "_amp", "_dt", "_delay", "_nstacks", "_multiple")      # numbers in every record, sensor and source
CONDOP = ("cmp", "not", "and", "or", "isnone", "truthy", "exc", "exists", "isinst", "in")
AUG = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def maybe_absent(v):
    if isinstance(v, T):
        return v.op == "absent" or v.op == "ite" and (maybe_absent(v.args[1]) or maybe_absent(v.args[2]))
    return hasattr(v, "c") and hasattr(v, "a") and hasattr(v, "b") and (maybe_absent(v.a) or maybe_absent(v.b))


def given(t):
    """t denotes an object reachable from the caller's arguments"""
    if t.op == "param":
        return True
    if t.op in ("attr", "sub"):
        return given(t.args[0])
    if t.op == "seq":
        return bool(t.args) and all(given(x) for x in t.args)
    return False


def attach(C):
    from . import interp as I
    Ref, TupleV, FuncV, BoundV, ClassV, ModV, SuperV, IteV, IterV, MethV = (
        I.Ref, I.TupleV, I.FuncV, I.BoundV, I.ClassV, I.ModV, I.SuperV, I.IteV, I.IterV, I.MethV)
    Cell, Exit, State = I.Cell, I.Exit, I.State
    truth_term, upd, mk_exists, mk_sum = I.truth_term, I.upd, I.mk_exists, I.mk_sum

    def method(f):
        setattr(C, f.__name__, f)
        return f

    def iscond(t):
        return isinstance(t, T) and (t.op in CONDOP or is_bool(t) or
                                     (t.op == "ite" and iscond(t.args[1]) and iscond(t.args[2])))

    # ------------------------------------------------------------ expressions
    @method
    def ev(self, e, fr, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opaque("expr:" + type(e).__name__, e)
        return m(e, fr, st)

    @method
    def e_Constant(self, e, fr, st):
        return const(e.value)

    @method
    def e_Name(self, e, fr, st):
        return self.lookup(e.id, fr, st)

    @method
    def e_Attribute(self, e, fr, st):
        return self.getattr_(self.ev(e.value, fr, st), e.attr, st, e)

    @method
    def e_Slice(self, e, fr, st):
        f = lambda x: NONE if x is None else self.tt(self.ev(x, fr, st), st)
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    @method
    def e_Index(self, e, fr, st):
        return self.ev(e.value, fr, st)

    @method
    def e_Subscript(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        i = self.ev(e.slice, fr, st)
        return self.getitem(b, i, st, e)

    @method
    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        return self.binary(AUG[type(e.op)], a, b, st, e)

    @method
    def binary(self, op, a, b, st, node):
        if isinstance(a, IteV):
            return self.split(a.c, a.a, a.b, lambda x, s: self.binary(op, x, b, s, node), st)
        if isinstance(b, IteV):
            return self.split(b.c, b.a, b.b, lambda x, s: self.binary(op, a, x, s, node), st)
        if op == "+":
            la = self.conc(a, st)
            lb = self.conc(b, st)
            if la is not None and lb is not None:
                if isinstance(a, TupleV):
                    return TupleV(la + lb)
                return self.newlist(la + lb, st)
            if isinstance(a, Ref) and a.kind == "list" or isinstance(b, Ref) and b.kind == "list" and not isinstance(a, Ref):
                if not (isinstance(a, Ref) and a.kind == "arr") and not (isinstance(b, Ref) and b.kind == "arr") and isinstance(a, (Ref, TupleV)):
                    r = Ref("list")
                    st.heap[r.rid] = Cell("list", None, self.cat(self.tt(a, st), self.tt(b, st)))
                    return r
        if op in ("-", "&", "|") and all(isinstance(x, Ref) and x.kind == "set" and st.heap[x.rid].sym is None for x in (a, b)):
            la, lb = ([self.tt(x, st) for x in st.heap[r.rid].items] for r in (a, b))
            if all(x.op == "const" for x in la + lb):
                items = [x for x in la if x not in lb] if op == "-" else [x for x in la if x in lb] if op == "&" else la + [x for x in lb if x not in la]
                r = Ref("set")
                st.heap[r.rid] = Cell("set", items)
                return r
        if op == "*":
            la = self.conc(a, st)
            n = as_int(self.tt(b, st)) if la is not None else None
            if la is not None and n is not None and n * len(la) <= 64:
                return TupleV(la * n) if isinstance(a, TupleV) else self.newlist(la * n, st)
            if la is not None and len(la) == 1:
                k = fresh()
                r = Ref("list")
                st.heap[r.rid] = Cell("list", None, mk_map(self.tt(b, st), k, self.tt(la[0], st)))
                return r
        for x, y in ((a, b),):
            ci = x.cls if isinstance(x, Ref) and x.kind == "obj" else (self.cinfo(x) if isinstance(x, T) else None)
            nm = {"+": "__add__", "-": "__sub__", "*": "__mul__"}.get(op)
            if ci is not None and nm:
                m = self.pkg.find_method(ci, nm)
                if m:
                    return self.call_func(FuncV(m[1], m[0].module, None, m[0]), [x, y], {}, st, node)
        ta, tb = self.tt(a, st), self.tt(b, st)
        if op == "/" and is_path(ta):
            return mk("call", *(ta.args + ((tb.args[1:]) if is_path(tb) else (tb,))))
        if op in ("&", "|") and (iscond(ta) or iscond(tb)):
            return (conj if op == "&" else disj)([truth_term(ta), truth_term(tb)])
        if op == "@":
            return mk("call", mk("ext", "numpy.matmul"), ta, tb)
        if op == "%" and is_str(ta):
            r = self.pct(cval(ta), tb)
            if r is not None:
                return r
        r = binop(op, ta, tb)
        if self.risk is not None and r.op == "bin" and op in ("+", "/", "%", "//"):
            self.risk.append(r)
        return r

    @method
    def cat(self, a, b):
        if a.op == "seq" and not a.args:
            return b
        if b.op == "seq" and not b.args:
            return a
        if a.op == "seq" and b.op == "seq":
            return mk("seq", *(a.args + b.args))
        return mk("concat", a, b)

    @method
    def pct(self, s, t):
        ts = list(t.args) if t.op == "seq" else [t]
        import re as _re
        if _re.findall(r"%[^sd%]", s) or "%%" in s:
            return None
        bits = _re.split(r"%[sd]", s)
        if len(bits) != len(ts) + 1:
            return None
        parts = [const(bits[0])]
        for x, b in zip(ts, bits[1:]):
            parts += [x, const(b)]
        return mk("str", *parts)

    @method
    def conc(self, v, st):
        """items of a concrete list/tuple value, else None"""
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, Ref) and v.kind == "list" and st.heap[v.rid].sym is None:
            return list(st.heap[v.rid].items)
        if isinstance(v, T) and v.op == "seq" and not any(x.op == "star" for x in v.args):
            return list(v.args)
        return None

    @method
    def e_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v, st))
        t = self.tt(v, st)
        if isinstance(e.op, ast.USub):
            return const(-cval(t)) if is_num(t) else mk("neg", t)
        if isinstance(e.op, ast.Invert):
            return neg(truth_term(t))
        return t

    @method
    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        return self.boolop(e.values, isand, fr, st)

    @method
    def boolop(self, values, isand, fr, st):
        v = self.ev(values[0], fr, st)
        if len(values) == 1:
            return v
        c = self.truth(v, st)
        if c is TRUE or c is FALSE:
            if (c is TRUE) == isand:
                return self.boolop(values[1:], isand, fr, st)
            return v
        vt = self.tt(v, st) if not isinstance(v, Ref) or v.kind != "obj" else None
        if vt is not None and iscond(vt):
            first = TRUE if not isand else FALSE
        else:
            first = v
        go = lambda s: self.boolop(values[1:], isand, fr, s)
        stay = lambda s: first
        g = c if isand else neg(c)
        r = self.split(g, go, stay, lambda f, s: f(s), st)
        return r

    @method
    def e_Compare(self, e, fr, st):
        l = self.ev(e.left, fr, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, fr, st)
            out.append(self.compare(op, l, rv, st, e))
            l = rv
        return conj(out) if len(out) > 1 else out[0]

    @method
    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return neg(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(a, b, st, node)
            return neg(r) if isinstance(op, ast.NotIn) else r
        o = CMPS[type(op)]
        if isinstance(a, IteV):
            return self.split(a.c, a.a, a.b, lambda x, s: self.compare(op, x, b, s, node), st)
        if isinstance(b, IteV):
            return self.split(b.c, b.a, b.b, lambda x, s: self.compare(op, a, x, s, node), st)
        if o in ("==", "!="):
            ca = a.cls if isinstance(a, Ref) and a.kind == "obj" else (self.cinfo(a) if isinstance(a, T) else None)
            if ca is not None:
                m = self.pkg.find_method(ca, "__eq__")
                if m and (m[0].name + ".__eq__") not in self.no_inline and "__eq__" not in self.no_inline:
                    r = truth_term(self.tt(self.call_func(FuncV(m[1], m[0].module, None, m[0]), [a, b], {}, st, node), st))
                    return r if o == "==" else neg(r)
            if isinstance(a, ClassV) and isinstance(b, ClassV):
                return const((a.info is b.info) == (o == "=="))
        ta, tb = self.tt(a, st), self.tt(b, st)
        if o in ("==", "!=") and ta.op == "attr" and tb.op == "attr":
            k = fresh()
            if self.cinfo(sub(ta, k)) is not None and self.cinfo(sub(tb, k)) is not None:
                # lists of objects: element by element
                n = mk("len", ta)
                differ = self.compare(ast.NotEq(), sub(ta, k), sub(tb, k), st, node)
                r = conj([cmp_("==", n, mk("len", tb)), neg(mk_exists(n, k, differ))])
                return r if o == "==" else neg(r)
        return cmp_(o, ta, tb)

    @method
    def is_(self, a, b, st):
        if isinstance(a, IteV):
            return ite(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, T) and b is NONE:
            if isinstance(a, T):
                t = self.deref(a, st)
                if t is NONE:
                    return TRUE
                return self.isnone(t)
            return FALSE
        if isinstance(a, T) and a is NONE:
            return self.is_(b, a, st)
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return const(a.info is b.info)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return const(a.rid == b.rid)
        ta, tb = self.tt(a, st), self.tt(b, st)
        if is_bool(tb):
            return truth_term(ta) if tb is TRUE else neg(truth_term(ta))
        return self.same_object(ta, tb)

    @method
    def same_object(self, ta, tb):
        if ta is tb and given(ta):
            return TRUE
        for x, y in ((ta, tb), (tb, ta)):
            if x.op == "ite":
                return ite(x.args[0], self.same_object(x.args[1], y), self.same_object(x.args[2], y))
            # an object built here is none of the objects the caller handed in
            if x.op in ("obj", "seq", "map", "concat") and given(y):
                return FALSE
        return cmp_("==", ta, tb)

    @method
    def isnone(self, t):
        if t is NONE:
            return TRUE
        if t.op == "ite":
            return ite(t.args[0], self.isnone(t.args[1]), self.isnone(t.args[2]))
        if t.op in ("const", "seq", "map", "filt", "obj", "dict", "str", "cls", "fn", "bin", "full") or self.cinfo(t) is not None:
            return FALSE
        if t.op == "param" and self.types.get(t) in ("dict", "str", "list", "tuple") or norm.call_name(t) in ("obspy.read", "pandas.read_csv", "pathlib.Path"):
            return FALSE
        if t.op == "attr" and t.args[1] in MEASURED:
            return FALSE
        return mk("isnone", t)

    @method
    def present(self, v):
        if isinstance(v, T):
            if v.op == "absent":
                return FALSE
            if v.op == "ite":
                return ite(v.args[0], self.present(v.args[1]), self.present(v.args[2]))
            return TRUE
        if isinstance(v, IteV):
            return ite(v.c, self.present(v.a), self.present(v.b))
        return TRUE

    @method
    def in_(self, a, b, st, node):
        if isinstance(b, IteV):
            return ite(b.c, self.in_(a, b.a, st, node), self.in_(a, b.b, st, node))
        ta = self.tt(a, st)
        if isinstance(b, Ref) and b.kind == "obj":
            m = self.pkg.find_method(b.cls, "__contains__")
            if m:
                return truth_term(self.tt(self.call_func(FuncV(m[1], m[0].module, None, m[0]), [b, a], {}, st, node), st))
        if isinstance(b, Ref) and st.heap[b.rid].sym is None:
            cell = st.heap[b.rid]
            if b.kind == "dict":
                return disj([conj([cmp_("==", ta, k), self.present(x)]) for k, x in cell.items.items()])
            if b.kind in ("list", "set"):
                return disj([cmp_("==", ta, self.tt(x, st)) for x in cell.items])
        if isinstance(b, TupleV):
            return disj([cmp_("==", ta, self.tt(x, st)) for x in b.items])
        tb = self.tt(b, st)
        if tb.op == "seq" and not any(x.op == "star" for x in tb.args):
            return disj([cmp_("==", ta, x) for x in tb.args])
        if tb.op == "dict":
            return disj([cmp_("==", ta, tb.args[i]) for i in range(0, len(tb.args), 2)])
        if is_str(tb) and is_str(ta):
            return const(cval(ta) in cval(tb))
        if tb.op == "call" and norm.call_name(tb) == "range" and len(tb.args) == 3:
            return conj([cmp_(">=", ta, tb.args[1]), cmp_("<", ta, tb.args[2])])
        if tb.op == "keys":
            tb = tb.args[0]
        return mk("in", ta, tb)

    @method
    def e_IfExp(self, e, fr, st):
        c = self.truth(self.ev(e.test, fr, st), st)
        if c is TRUE:
            return self.ev(e.body, fr, st)
        if c is FALSE:
            return self.ev(e.orelse, fr, st)
        return self.split(c, e.body, e.orelse, lambda x, s: self.ev(x, fr, s), st)

    @method
    def e_Lambda(self, e, fr, st):
        return self.mkfunc(e, fr, st)

    @method
    def mkfunc(self, node, fr, st):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        for n, x in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[n] = self.ev(x, fr, st)
        for x, y in zip(a.kwonlyargs, a.kw_defaults):
            if y is not None:
                d[x.arg] = self.ev(y, fr, st)
        return FuncV(node, fr["module"], fr, None, d)

    @method
    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev(v, fr, st))
        parts = [self.tt(p, st) for p in parts]
        if not parts:
            return const("")
        if all(is_str(p) for p in parts):
            return const("".join(cval(p) for p in parts))
        return mk("str", *parts)

    @method
    def e_FormattedValue(self, e, fr, st):
        t = self.tt(self.ev(e.value, fr, st), st)
        if e.format_spec is None and e.conversion in (-1, 115):
            if t.op == "const":
                v = cval(t)
                if isinstance(v, Fraction):
                    return const(str(int(v))) if v.denominator == 1 else mk("str", t)
                return const(str(v))
            if t.op == "ite":
                return t
            return mk("str", textual(t))
        spec = self.tt(self.ev(e.format_spec, fr, st), st) if e.format_spec is not None else const("!%d" % e.conversion)
        r = formatted(t, spec)
        return r if r is not None else mk("str", mk("fmt", t, spec))

    @method
    def seq_items(self, elts, fr, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr, st)
                d = self.domain(v, st)
                if isinstance(d, list):
                    out.extend(d)
                else:
                    out.append(mk("star", self.tt(v, st)))
            else:
                out.append(self.ev(x, fr, st))
        return out

    @method
    def e_List(self, e, fr, st):
        it = self.seq_items(e.elts, fr, st)
        if len(it) == 1 and isinstance(it[0], T) and it[0].op == "star":
            r = Ref("list")
            st.heap[r.rid] = Cell("list", None, it[0].args[0])
            return r
        if any(isinstance(x, T) and x.op == "star" for x in it):
            whole = mk("seq")
            for x in it:
                whole = self.cat(whole, x.args[0] if isinstance(x, T) and x.op == "star" else mk("seq", self.tt(x, st)))
            r = Ref("list")
            st.heap[r.rid] = Cell("list", None, whole)
            return r
        return self.newlist(it, st)

    @method
    def e_Tuple(self, e, fr, st):
        return TupleV(self.seq_items(e.elts, fr, st))

    @method
    def e_Set(self, e, fr, st):
        r = Ref("set")
        st.heap[r.rid] = Cell("set", self.seq_items(e.elts, fr, st))
        return r

    @method
    def e_Dict(self, e, fr, st):
        r = Ref("dict")
        st.heap[r.rid] = Cell("dict", {})
        for k, v in zip(e.keys, e.values):
            val = self.ev(v, fr, st)
            if k is None:
                self.dict_update(r, [val], {}, st)
                continue
            kt = self.tt(self.ev(k, fr, st), st)
            cell = st.heap[r.rid]
            if cell.sym is None:
                st.wcell(r).items[kt] = val
            else:
                st.wcell(r).sym = upd(st.heap[r.rid].sym, kt, self.tt(val, st))
        return r

    @method
    def comp(self, e, fr, st, kind, elt, val=None):
        fid = self.fresh_frame(st)
        cfr = dict(fr)
        cfr["fid"] = fid
        cfr["parent"] = fr
        cfr.pop("nonlocal", None)
        acc = Ref("dict" if kind == "dict" else "list")
        st.heap[acc.rid] = Cell(acc.kind, {} if kind == "dict" else [])
        st.frames[fid]["$acc"] = acc
        name = ast.Name(id="$acc", ctx=ast.Load())
        if kind == "dict":
            inner = ast.Assign(targets=[ast.Subscript(value=name, slice=elt, ctx=ast.Store())], value=val)
        else:
            inner = ast.Expr(value=ast.Call(func=ast.Attribute(value=name, attr="append", ctx=ast.Load()), args=[elt], keywords=[]))
        body = [inner]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            for n in ast.walk(b):
                if not hasattr(n, "lineno"):
                    n.lineno = getattr(e, "lineno", 0)
        # the first iterable is evaluated in the enclosing scope: names resolve identically through parent
        self.block(body, cfr, st)
        return st.frames.get(fid, {}).get("$acc", acc)

    @method
    def e_ListComp(self, e, fr, st):
        return self.comp(e, fr, st, "list", e.elt)

    @method
    def e_GeneratorExp(self, e, fr, st):
        return self.comp(e, fr, st, "list", e.elt)

    @method
    def e_SetComp(self, e, fr, st):
        r = self.comp(e, fr, st, "list", e.elt)
        return mk("set", self.tt(r, st))

    @method
    def e_DictComp(self, e, fr, st):
        return self.comp(e, fr, st, "dict", e.key, e.value)

    @method
    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        self.assign(e.target, v, fr, st)
        return v

    @method
    def e_Starred(self, e, fr, st):
        return mk("star", self.tt(self.ev(e.value, fr, st), st))

    @method
    def e_Yield(self, e, fr, st):
        v = self.ev(e.value, fr, st) if e.value is not None else NONE
        f = fr
        while f is not None:
            env = st.frames.get(f["fid"], {})
            if "$yield" in env:
                self.call_method(env["$yield"], "append", [v], {}, st, e)
                break
            f = f["parent"]
        return NONE

    @method
    def e_YieldFrom(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        env = st.frames.get(fr["fid"], {})
        if "$yield" in env:
            self.call_method(env["$yield"], "extend", [v], {}, st, e)
        return NONE

    @method
    def e_Await(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def root_name(e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else None

    @method
    def e_Call(self, e, fr, st):
        f = e.func
        rn = root_name(f)
        if rn in ("logger", "warnings", "logging") and isinstance(f, ast.Attribute) and f.attr not in ("getLogger", "catch_warnings"):
            return NONE
        if isinstance(f, ast.Name) and f.id == "print":
            return NONE
        if isinstance(f, ast.Name) and f.id == "super":
            if e.args:
                c = self.ev(e.args[0], fr, st)
                s = self.ev(e.args[1], fr, st)
                return SuperV(c.info if isinstance(c, ClassV) else fr["cls"], s)
            ff = fr
            while ff is not None and (ff.get("self") is None or ff.get("cls") is None):
                ff = ff["parent"]
            if ff is None:
                return self.opaque("super", e)
            # first parameter of the enclosing method
            return SuperV(ff["cls"], ff["self"])
        base = None
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, fr, st)
            if isinstance(base, T) and base.op != "ext" and self.cinfo(base) is None and base.op not in ("ite", "cls"):
                fv = MethV(base, f.attr)
            else:
                fv = self.getattr_(base, f.attr, st, f)
        else:
            fv = self.ev(f, fr, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                d = self.domain(v, st)
                if isinstance(d, list):
                    args.extend(d)
                else:
                    args.append(mk("star", self.tt(v, st)))
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is not None:
                kw[k.arg] = v
            elif isinstance(v, Ref) and v.kind == "dict" and st.heap[v.rid].sym is None and all(is_str(x) for x in st.heap[v.rid].items):
                for x, y in st.heap[v.rid].items.items():
                    kw[cval(x)] = y
            elif isinstance(v, T) and v.op == "dict" and all(is_str(v.args[i]) for i in range(0, len(v.args), 2)):
                for i in range(0, len(v.args), 2):
                    kw[cval(v.args[i])] = v.args[i + 1]
            else:
                kw["**"] = v
        if st.dead:
            return NONE
        return self.call_star(fv, args, kw, st, e)

    @method
    def call_star(self, fv, args, kw, st, e):
        """f(**d) for a dictionary known under conditions"""
        if "**" in kw:
            def known(t):
                if t.op == "ite":
                    return known(t.args[1]) and known(t.args[2])
                return t.op == "dict" and all(is_str(t.args[i]) for i in range(0, len(t.args), 2))
            t = self.tt(kw["**"], st)
            if known(t):
                rest = {k: v for k, v in kw.items() if k != "**"}
                if t.op == "ite":
                    return self.split(t.args[0], t.args[1], t.args[2], lambda x, s: self.call_star(fv, list(args), dict(rest, **{"**": x}), s, e), st)
                for i in range(0, len(t.args), 2):
                    rest[cval(t.args[i])] = t.args[i + 1]
                kw = rest
        for n, v in kw.items():
            # an entry of the dictionary that is there under a condition only
            if isinstance(v, T) and v.op == "absent":
                return self.call_star(fv, args, {k: x for k, x in kw.items() if k != n}, st, e)
            if isinstance(v, IteV) or isinstance(v, T) and v.op == "ite":
                c, x, y = (v.c, v.a, v.b) if isinstance(v, IteV) else v.args
                if maybe_absent(x) or maybe_absent(y):
                    return self.split(c, x, y, lambda z, s: self.call_star(fv, list(args), dict(kw, **{n: z}), s, e), st)
        return self.call(fv, args, kw, st, e)

    # ------------------------------------------------------------ assignment
    ROOTED = ("param", "attr", "sub", "fv", "bv")

    @method
    def setname(self, name, v, fr, st):
        f = fr
        if name in fr.get("nonlocal", ()):
            f = fr["parent"]
            while f is not None and name not in st.frames.get(f["fid"], {}):
                f = f["parent"]
            f = f or fr
        if name in fr.get("global", ()):
            self.global_writes.append((fr["module"].name, name))
            self.event("globalwrite", name, [self.tt(v, st)], st, None)
        st.frames[f["fid"]][name] = v

    @method
    def assign(self, tg, v, fr, st, node=None):
        if isinstance(tg, ast.Name):
            self.setname(tg.id, v, fr, st)
        elif isinstance(tg, ast.Attribute):
            self.setattr_(self.ev(tg.value, fr, st), tg.attr, v, st, tg)
        elif isinstance(tg, ast.Subscript):
            b, i = self.store_base(tg, fr, st)
            self.setitem(b, i, v, st, tg)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg.elts, v, fr, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, fr, st)
        else:
            self.opaque("target:" + type(tg).__name__, tg)

    @method
    def own_array(self, b):
        """a value computed here, which a store through its name changes"""
        return b.op not in ("param", "attr", "sub", "fv", "bv", "ite") and self.cinfo(b) is None

    @method
    def as_array(self, name, b, fr, st):
        r = Ref("arr")
        st.heap[r.rid] = Cell("arr", None, self.deref(b, st))
        self.setname(name, r, fr, st)
        return r

    @method
    def own_stores(self, body, fr, st):
        """before a loop: names of computed values that its body stores into become arrays"""
        for s in body:
            for n in ast.walk(s):
                if not isinstance(n, ast.Subscript) or isinstance(n.ctx, ast.Load):
                    continue
                e = n.value
                while isinstance(e, ast.Subscript):
                    e = e.value
                if isinstance(e, ast.Name):
                    b = st.frames[fr["fid"]].get(e.id)
                    if isinstance(b, T) and (self.own_array(b) or b.op == "ite" and self.cinfo(b) is None and not contains(b, lambda x: x.op == "obj")) \
                            and b.op not in ("const", "opaque", "absent", "len"):
                        if b.op == "ite":
                            self.event("mutate-maybe", "setitem", [], st, n, recv=b)
                        self.as_array(e.id, b, fr, st)

    @method
    def store_base(self, tg, fr, st):
        """container and index of a subscript store"""
        inner = tg.value
        if isinstance(inner, ast.Subscript):
            bb = self.ev(inner.value, fr, st)
            if isinstance(bb, Ref) and (bb.kind == "arr"):
                b, i1 = self.store_base(inner, fr, st)
                i2 = self.ev(tg.slice, fr, st)
                t1, t2 = self.tt(i1, st), self.tt(i2, st)
                if t1.op not in ("slice", "cmp", "seq") and t2.op != "seq":
                    return b, TupleV([t1, t2])
        b = self.ev(inner, fr, st)
        if isinstance(inner, ast.Name) and isinstance(b, T) and self.own_array(b):
            b = self.as_array(inner.id, b, fr, st)
        elif isinstance(inner, ast.Name) and isinstance(b, T) and b.op == "ite" and self.cinfo(b) is None and not contains(b, lambda x: x.op == "obj"):
            r = Ref("arr")
            st.heap[r.rid] = Cell("arr", None, self.deref(b, st))
            self.setname(inner.id, r, fr, st)
            self.event("mutate-maybe", "setitem", [], st, tg, recv=b)
            b = r
        i = self.ev(tg.slice, fr, st)
        return b, i

    @method
    def unpack(self, elts, v, fr, st):
        n = len(elts)
        star = [j for j, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if isinstance(v, IteV):
            vals = None
            try:
                a, b = self.domain(v.a, st), self.domain(v.b, st)
                if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                    vals = [self.joinv(v.c, x, y, st, st, st) for x, y in zip(a, b)]
            except Exception:
                vals = None
            if vals is None:
                v = self.tt(v, st)
        else:
            vals = None
        if vals is None:
            if isinstance(v, T):
                t = self.deref(v, st)
                vals = list(t.args) if t.op == "seq" and not any(x.op == "star" for x in t.args) else None
                if t.op == "map" and not star:
                    vals = [sub(t, const(j)) for j in range(n)]
            else:
                d = self.domain(v, st)
                if isinstance(d, list):
                    vals = d
                else:
                    vals = None if star else [d[1](const(j)) for j in range(n)]
        if vals is not None and not star and len(vals) == n:
            for x, y in zip(elts, vals):
                self.assign(x, y, fr, st)
            return
        if vals is not None and star:
            s = star[0]
            after = n - s - 1
            for x, y in zip(elts[:s], vals[:s]):
                self.assign(x, y, fr, st)
            self.assign(elts[s].value, self.newlist(vals[s:len(vals) - after], st), fr, st)
            for x, y in zip(elts[s + 1:], vals[len(vals) - after:] if after else []):
                self.assign(x, y, fr, st)
            return
        t = self.tt(v, st)
        for j, x in enumerate(elts):
            if isinstance(x, ast.Starred):
                after = n - j - 1
                self.assign(x.value, sub(t, mk("slice", const(j), const(-after) if after else NONE, NONE)), fr, st)
            else:
                idx = j if not star or j < star[0] else j - n
                self.assign(x, self.getitem(t, const(idx), st), fr, st)

    # ------------------------------------------------------------ statements
    @method
    def block(self, body, fr, st):
        for s in body:
            if st.dead:
                return
            if time.monotonic() > self.limit:
                raise OutOfTime("abstract evaluation took too long")
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.opaque("stmt:" + type(s).__name__, s)
                continue
            m(s, fr, st)

    @method
    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return
        name = self.library_name(s.value, fr, st)
        if name in ("numpy.putmask", "numpy.place", "numpy.copyto") and not any(isinstance(a, ast.Starred) for a in s.value.args):
            a, k = s.value.args, {x.arg: x.value for x in s.value.keywords}
            m = None
            if name == "numpy.copyto" and len(a) == 2 and set(k) <= {"where"}:
                m, v = k.get("where", ast.Slice(None, None, None)), a[1]
            elif name != "numpy.copyto" and len(a) == 3 and not k:
                m, v = a[1], a[2]
            if m is not None and (isinstance(m, ast.Slice) or isinstance(v, (ast.Constant, ast.UnaryOp))):
                x = ast.Assign([ast.Subscript(a[0], m, ast.Store())], v)
                for n in ast.walk(x):
                    if isinstance(n, (ast.expr, ast.stmt)):
                        ast.copy_location(n, s)
                return self.s_Assign(x, fr, st)
        v = self.ev(s.value, fr, st)
        if name is not None and name.split(".")[0] in ("numpy", "scipy", "random", "operator", "itertools", "functools", "obspy") \
                and not name.startswith(("numpy.seterr", "numpy.set_printoptions", "numpy.random.seed", "random.seed")) \
                and not any(x.arg == "out" for x in s.value.keywords):
            # called for what it does to its arguments
            for a in s.value.args[:2]:
                b = self.ev(a, fr, st) if isinstance(a, (ast.Name, ast.Attribute)) else None
                if isinstance(b, Ref) and b.kind in ("arr", "list", "dict"):
                    c = st.wcell(b)
                    c.sym, c.items = mk("opaque", "changed by " + name), None
                elif isinstance(b, T) and b.op in ("param", "attr", "sub", "call"):
                    self.event("mutate", "call", [mk("opaque", "changed by " + name)], st, s, recv=b)
                    st.arr[b] = mk("opaque", "changed by " + name)

    @method
    def library_name(self, e, fr, st):
        """dotted name of the library function a call statement calls"""
        if not isinstance(e, ast.Call):
            return None
        f, parts = e.func, []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        if not parts and f.id in st.frames[fr["fid"]]:
            return None
        b = self.ev(ast.copy_location(ast.Name(f.id, ast.Load()), e), fr, st)
        if isinstance(b, T) and b.op == "ext":
            from .interp import ALIAS
            n = ".".join([b.args[0]] + parts[::-1])
            return ALIAS.get(n, n)
        return None

    @method
    def s_Pass(self, s, fr, st):
        pass

    @method
    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, fr, st)

    @method
    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)

    @method
    def s_AugAssign(self, s, fr, st):
        op = AUG[type(s.op)]
        tg = s.target
        if isinstance(tg, ast.Subscript):
            b, i = self.store_base(tg, fr, st)
            old = self.getitem(b, i, st, tg)
            v = self.ev(s.value, fr, st)
            self.setitem(b, i, self.binary(op, old, v, st, s), st, tg)
            return
        old = self.ev(ast.copy_location(ast.Name(tg.id, ast.Load()), tg) if isinstance(tg, ast.Name) else
                      ast.copy_location(ast.Attribute(tg.value, tg.attr, ast.Load()), tg), fr, st)
        v = self.ev(s.value, fr, st)
        if isinstance(old, Ref) and old.kind == "list" and op == "+":
            self.call_method(old, "extend", [v], {}, st, s)
            return
        if isinstance(old, Ref) and old.kind == "arr":
            new = self.tt(self.binary(op, old, v, st, s), st)
            c = st.wcell(old)
            c.sym, c.items = new, None
            return
        if isinstance(old, T) and old.op in ("param", "attr", "sub") and isinstance(tg, ast.Name):
            self.event("augmutate", op, [self.tt(v, st)], st, s, recv=old)
        if isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, fr, st)
            if isinstance(b, T):
                pass
        new = self.binary(op, old, v, st, s)
        self.assign(tg, new, fr, st)

    @method
    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        if st.dead:
            return
        self.sink.append(Exit("return", st.copy(), v))
        st.dead = True

    @method
    def s_Raise(self, s, fr, st):
        if s.exc is None:
            v = st.frames[fr["fid"]].get("$exc", mk("ext", "reraise"))
        else:
            v = self.ev(s.exc, fr, st)
        if st.dead:
            return
        self.raise_(v if isinstance(v, T) else (mk("ext", v.info.name) if isinstance(v, ClassV) else self.tt(v, st)), st, s)

    @method
    def s_Assert(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st)
        self.raise_(mk("call", mk("ext", "AssertionError")), st, s, neg(c))

    @method
    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fr["fid"]].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, st)
                self.delitem(b, self.ev(t.slice, fr, st), st, t)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, st)
                if isinstance(b, Ref) and b.kind == "obj":
                    st.wcell(b).items.pop(t.attr, None)
                else:
                    self.event("mutate", "delattr", [const(t.attr)], st, t, recv=self.tt(b, st))

    @method
    def s_Global(self, s, fr, st):
        fr.setdefault("global", set()).update(s.names)

    @method
    def s_Nonlocal(self, s, fr, st):
        fr.setdefault("nonlocal", set()).update(s.names)

    @method
    def s_Import(self, s, fr, st):
        for a in s.names:
            d = a.name if a.asname else a.name.split(".")[0]
            r = self.pkg.resolve(d) or ("ext", d)
            self.setname(a.asname or a.name.split(".")[0], self.from_resolution(r, st), fr, st)

    @method
    def s_ImportFrom(self, s, fr, st):
        base = s.module or ""
        if s.level:
            parts = fr["module"].name.split(".")
            if not fr["module"].path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            d = base + "." + a.name if base else a.name
            r = self.pkg.resolve(d) or ("ext", d)
            self.setname(a.asname or a.name, self.from_resolution(r, st), fr, st)

    @method
    def s_FunctionDef(self, s, fr, st):
        f = self.mkfunc(s, fr, st)
        for d in s.decorator_list:
            f = self.mkcall(self.tt(self.ev(d, fr, st), st), [f], {}, st)
        self.setname(s.name, f, fr, st)

    @method
    def s_ClassDef(self, s, fr, st):
        self.setname(s.name, self.opaque("local-class", s), fr, st)

    @method
    def s_If(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st)
        if st.dead:
            return
        self.branch(c, lambda x: self.block(s.body, fr, x), lambda x: self.block(s.orelse, fr, x), st)

    @method
    def branch(self, c, f1, f2, st):
        c0 = self.known(c, st)
        if c0 is TRUE:
            f1(st)
            return
        if c0 is FALSE:
            f2(st)
            return
        n = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.pc = s1.pc + (c,)
        s2.pc = s2.pc + (neg(c),)
        f1(s1)
        f2(s2)
        if s1.dead and s2.dead:
            st.become(s1)
            st.dead = True
            return
        if s1.dead:
            st.become(s2)
            return
        if s2.dead:
            st.become(s1)
            return
        r1, r2 = conj(s1.pc[n:]), conj(s2.pc[n:])
        j = self.join(c, s1, s2)
        d = I.simplify_or([r1, r2], disj([r1, r2]))
        j.pc = st.pc[:n] + (() if d is TRUE else tuple(d.args) if d.op == "and" else (d,))
        st.become(j)

    @method
    def known(self, c, st):
        """condition already decided by the path"""
        if c is TRUE or c is FALSE:
            return c
        for p in st.pc:
            if p is c:
                return TRUE
            if p is neg(c):
                return FALSE
        return c

    @method
    def s_Break(self, s, fr, st):
        self.sink.append(Exit("break", st.copy()))
        st.dead = True

    @method
    def s_Continue(self, s, fr, st):
        self.sink.append(Exit("continue", st.copy()))
        st.dead = True

    @method
    def s_With(self, s, fr, st):
        for it in s.items:
            v = self.ev(it.context_expr, fr, st)
            if isinstance(v, Ref) and v.kind == "obj":
                m = self.pkg.find_method(v.cls, "__enter__")
                if m:
                    v = self.call_func(FuncV(m[1], m[0].module, None, m[0]), [v], {}, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st)
        self.block(s.body, fr, st)

    @method
    def s_Match(self, s, fr, st):
        v = self.ev(s.subject, fr, st)
        self.match_cases(list(s.cases), v, fr, st)

    @method
    def match_cases(self, cases, v, fr, st):
        if not cases:
            return
        c = cases[0]
        cond = self.pattern(c.pattern, v, fr, st)
        if c.guard is not None:
            cond = conj([cond, self.truth(self.ev(c.guard, fr, st), st)])
        self.branch(cond, lambda x: self.block(c.body, fr, x), lambda x: self.match_cases(cases[1:], v, fr, x), st)

    @method
    def pattern(self, p, v, fr, st):
        if isinstance(p, ast.MatchValue):
            return cmp_("==", self.tt(v, st), self.tt(self.ev(p.value, fr, st), st))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, const(p.value), st)
        if isinstance(p, ast.MatchOr):
            return disj([self.pattern(x, v, fr, st) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, fr, st)
            if p.name:
                self.setname(p.name, v, fr, st)
            return c
        return truth_term(self.opaque("pattern", p))

    # ------------------------------------------------------------ try
    @method
    def s_Try(self, s, fr, st):
        outer_risk, outer_sink = self.risk, self.sink
        pre = st.copy()
        n = len(st.pc)
        self.risk, self.sink = [], []
        self.block(s.body, fr, st)
        risks, exits = self.risk, self.sink
        self.risk, self.sink = outer_risk, []
        names = [self.handler_names(h, fr, st) for h in s.handlers]
        # implicit exceptions of the body
        live = []      # (state) that continue after the try
        pend = []
        maxr = []
        risks = [r for r in risks if any(may_raise(r, nm) for nm in names)]
        for r in risks:
            if not any(r is not q and contains(q, lambda x: x is r) for q in risks) and r not in maxr:
                maxr.append(r)
        others = []
        handled = []
        for e in exits:
            if e.kind == "raise":
                hit = None
                for h, nm in zip(s.handlers, names):
                    if catches(nm, e.exc):
                        hit = h
                        break
                if hit is not None:
                    handled.append((e, hit))
                    continue
            others.append(e)
        if s.handlers and maxr:
            gates = []
            for h, nm in zip(s.handlers, names):
                mine = [r for r in maxr if may_raise(r, nm)]
                gates.append(mk("exc", *(sorted(mine, key=lambda x: x.id) + [const("|".join(nm))])) if mine else FALSE)
            g = disj(gates)
            # all body outcomes happen under not g
            for e in others + [x for x, _ in handled]:
                e.st.pc = e.st.pc[:n] + (neg(g),) + e.st.pc[n:]
            if not st.dead:
                st.pc = st.pc[:n] + (neg(g),) + st.pc[n:]
            prev = []
            for h, gt in zip(s.handlers, gates):
                if gt is FALSE:
                    continue
                hs = pre.copy()
                hs.pc = hs.pc + tuple(neg(x) for x in prev) + (gt,)
                prev.append(gt)
                self.run_handler(h, mk("ext", "implicit"), fr, hs)
                if not hs.dead:
                    live.append(hs)
        if not st.dead and s.orelse:
            self.block(s.orelse, fr, st)
        if not st.dead:
            live.append(st.copy())
        for e, h in handled:
            hs = e.st
            hs.dead = False
            self.run_handler(h, e.exc, fr, hs)
            if not hs.dead:
                live.append(hs)
        others += self.sink
        self.sink = outer_sink
        if s.finalbody:
            no = []
            for e in others:
                e.st.dead = False
                self.sink = []
                self.block(s.finalbody, fr, e.st)
                if not e.st.dead:
                    no.append(e)
                no.extend(self.sink)
            self.sink = outer_sink
            others = no
        self.sink.extend(others)
        if not live:
            st.dead = True
            return
        out, _ = self.join_many([(x, NONE) for x in live], n)
        st.become(out)
        st.dead = False
        if s.finalbody:
            self.block(s.finalbody, fr, st)

    s_TryStar = s_Try

    @method
    def run_handler(self, h, exc, fr, hs):
        if h.name:
            self.setname(h.name, exc, fr, hs)
        old = hs.frames[fr["fid"]].get("$exc")
        hs.frames[fr["fid"]]["$exc"] = exc
        self.event("handler", "", [], hs, h)
        self.block(h.body, fr, hs)
        if fr["fid"] in hs.frames:
            hs.frames[fr["fid"]].pop("$exc", None)

    @method
    def handler_names(self, h, fr, st):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t, fr, st)
            out.append(v.info.name if isinstance(v, ClassV) else (v.args[0] if isinstance(v, T) and v.op == "ext" else "?"))
        return sorted(out)

    ANYWAY = {"Exception", "BaseException", "?"}
    IMPLICIT = {"bin": {"TypeError", "ValueError", "ZeroDivisionError", "ArithmeticError", "OverflowError", "FloatingPointError"},
                "sub": {"KeyError", "IndexError", "LookupError", "TypeError", "ValueError"},
                "attr": {"AttributeError"}, "getattr": {"AttributeError", "TypeError"}}

    def may_raise(r, names):
        if r.op in ("str", "const", "param", "obj"):
            return False
        if r.op == "bin" and any(x.op == "str" or is_str(x) for x in r.args[1:]):
            return False
        ks = IMPLICIT.get(r.op)
        return ks is None or any(n in ks or n in ANYWAY or n not in BUILTIN_EXC for n in names)

    import builtins as _b
    BUILTIN_EXC = {n for n in dir(_b) if n.endswith("Error") or n in ANYWAY}

    def catches(names, exc):
        n = I.exc_name(exc)
        import builtins
        c = getattr(builtins, n, None)
        for h in names:
            hc = getattr(builtins, h, None)
            if h == n or h in ("BaseException", "Exception"):
                return True
            if isinstance(c, type) and isinstance(hc, type) and issubclass(c, hc):
                return True
        return False
    C.catches = staticmethod(catches)

    # ------------------------------------------------------------ loops
    @method
    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        if st.dead:
            return
        d = self.domain(it, st)
        if isinstance(d, list):
            self.unroll(s, d, fr, st)
        else:
            self.own_stores(s.body, fr, st)
            self.symloop(s, d[0], d[1], fr, st)

    s_AsyncFor = s_For

    @method
    def unroll(self, s, items, fr, st):
        n = len(st.pc)
        outer = self.sink
        breaks = []
        dead = False
        for x in items:
            self.sink = []
            self.assign(s.target, x, fr, st)
            self.block(s.body, fr, st)
            exits = self.sink
            self.sink = outer
            live = [] if st.dead else [st.copy()]
            for e in exits:
                if e.kind == "continue":
                    live.append(e.st)
                elif e.kind == "break":
                    breaks.append(e.st)
                else:
                    self.sink.append(e)
            if not live:
                dead = True
                break
            if len(live) == 1:
                st.become(live[0])
            else:
                o, _ = self.join_many([(y, NONE) for y in live], n)
                st.become(o)
            st.dead = False
        if not dead and s.orelse:
            self.block(s.orelse, fr, st)
            dead = st.dead
        fin = ([] if dead else [st.copy()]) + breaks
        if not fin:
            st.dead = True
            return
        if len(fin) == 1:
            st.become(fin[0])
        else:
            o, _ = self.join_many([(y, NONE) for y in fin], n)
            st.become(o)
        st.dead = False

    def veq(a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, TupleV):
            return len(a.items) == len(b.items) and all(veq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, IteV):
            return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
        if isinstance(a, FuncV):
            return a.node is b.node and (a.frame or {}).get("fid") == (b.frame or {}).get("fid")
        if isinstance(a, BoundV):
            return a.func.node is b.func.node and veq(a.self_, b.self_)
        if isinstance(a, ClassV):
            return a.info is b.info
        if isinstance(a, MethV):
            return a.name == b.name and veq(a.recv, b.recv)
        if isinstance(a, ModV):
            return a.mod is b.mod
        return False

    def ceq(a, b):
        if a is b:
            return True
        if a.sym is not b.sym:
            return False
        if (a.items is None) != (b.items is None):
            return False
        if a.items is None:
            return True
        if isinstance(a.items, list):
            return len(a.items) == len(b.items) and all(veq(x, y) for x, y in zip(a.items, b.items))
        return list(a.items) == list(b.items) and all(veq(a.items[k], b.items[k]) for k in a.items)

    @method
    def changed(self, pre, post, k):
        """keys of the state whose value differs after one iteration"""
        out = []
        for fid, env in pre.frames.items():
            e2 = post.frames.get(fid, {})
            for nm, v in e2.items():
                if nm in env:
                    if not veq(env[nm], v):
                        out.append(("var", fid, nm))
        for rid, c in pre.heap.items():
            c2 = post.heap.get(rid)
            if c2 is None or ceq(c, c2):
                continue
            if isinstance(c.items, dict) and isinstance(c2.items, dict) and c.sym is None and c2.sym is None:
                for nm in list(c2.items):
                    if nm not in c.items or not veq(c.items[nm], c2.items[nm]):
                        out.append(("item", rid, nm))
                for nm in c.items:
                    if nm not in c2.items:
                        out.append(("item", rid, nm))
            else:
                out.append(("cell", rid))
        for key, v in post.fields.items():
            if key not in pre.fields or not veq(pre.fields[key], v):
                out.append(("field", key))
        for key, v in post.arr.items():
            if pre.arr.get(key) is not v:
                out.append(("arr", key))
        return out

    @method
    def get_key(self, key, s):
        t = key[0]
        if t == "var":
            return s.frames.get(key[1], {}).get(key[2], mk("absent"))
        if t == "item":
            c = s.heap.get(key[1])
            if c is None or c.items is None:
                return mk("absent")
            return c.items.get(key[2], mk("absent"))
        if t == "cell":
            r = Ref.__new__(Ref)
            r.rid, r.kind, r.cls = key[1], s.heap[key[1]].kind, None
            return self.tt(r, s)
        if t == "field":
            return s.fields.get(key[1], mk("attr", *key[1]))
        return s.arr.get(key[1], key[1])

    @method
    def set_key(self, key, v, s):
        t = key[0]
        if t == "var":
            s.frames[key[1]][key[2]] = v
        elif t == "item":
            c = s.heap[key[1]].copy()
            if c.items is None:
                c.items, c.sym = {}, None
            c.items[key[2]] = v
            s.heap[key[1]] = c
        elif t == "cell":
            s.heap[key[1]] = Cell(s.heap[key[1]].kind, None, v)
        elif t == "field":
            s.fields[key[1]] = v
        else:
            s.arr[key[1]] = v

    def key_has(key, k):
        if key[0] == "field":
            return k in key[1][0].fvs
        if key[0] == "arr":
            return k in key[1].fvs
        return False

    @method
    def run_iter(self, run, s, k, n):
        """one symbolic iteration -> (normal state or None, breaks, others)"""
        outer = self.sink
        self.sink = []
        self.loops.append((k, n))
        np_ = len(s.pc)
        try:
            run(s, k)
        finally:
            self.loops.pop()
            exits, self.sink = self.sink, outer
        live = [] if s.dead else [s]
        br, ot = [], []
        for e in exits:
            (live.append(e.st) if e.kind == "continue" else br.append(e.st) if e.kind == "break" else ot.append(e))
        if not live:
            return None, br, ot
        if len(live) == 1:
            return live[0], br, ot
        o, _ = self.join_many([(y, NONE) for y in live], np_)
        return o, br, ot

    @method
    def symloop(self, s, n, fn, fr, st):
        def run(x, k):
            self.assign(s.target, self.alive(fn(k)), fr, x)
            self.block(s.body, fr, x)
        self.loop(run, n, fr, st, s.orelse, s)

    @method
    def alive(self, v):
        """what a loop over an array yields when its body stores into the array: a part of the array as it is then"""
        now = getattr(self, "stored", None)
        if not now:
            return v
        if isinstance(v, TupleV):
            return TupleV([self.alive(x) for x in v.items])
        if not isinstance(v, T):
            return v

        def at(t, whole):
            if t in now and not whole:
                return now[t]
            if t.op == "sub":
                return sub(at(t.args[0], False), t.args[1])
            if t.op == "seq":
                return mk("seq", *[at(x, True) for x in t.args])
            if t.op == "call" and norm.call_name(t) == "numpy.transpose" and len(t.args) == 2:
                return mk("call", t.args[0], at(t.args[1], False))
            return t
        return at(v, True)

    @method
    def loop(self, run, n, fr, st, orelse, node, while_cond=None):
        pre = st.copy()
        np_ = len(pre.pc)
        k = fresh()
        keys = []
        phis = {}
        for attempt in range(6):
            s = pre.copy()
            phis = {}
            self.phi_init = getattr(self, "phi_init", {})
            for key in keys:
                if key_has(key, k):
                    continue
                p = fresh()
                v0 = self.get_key(key, pre)
                t0 = v0 if isinstance(v0, T) else self.tt(v0, pre)
                phis[key] = p
                self.phi_init[p] = t0
                cn = self.cname(v0) if isinstance(v0, T) else (v0.cls.name if isinstance(v0, Ref) and v0.cls else None)
                if cn:
                    self.types[p] = cn
                self.set_key(key, p, s)
            ev0, un0, gl0, rk0 = len(self.events), len(self.unsupported), len(self.global_writes), len(self.risk or ())
            wc = None
            if while_cond is not None:
                wc = self.truth(while_cond(s), s)
                if wc is not TRUE:
                    s.pc = s.pc + (wc,)
            base = s.copy()
            before = getattr(self, "stored", None)
            self.stored = {self.phi_init[p]: p for key, p in phis.items() if (key[0] == "arr" or key[0] == "cell" and pre.heap[key[1]].kind == "arr") and
                           self.phi_init[p].op in ("param", "attr", "sub", "upd", "call", "fv", "mu", "fill")}
            norm_, br, ot = self.run_iter(run, s, k, n)
            self.stored = before
            ends = ([norm_] if norm_ is not None else []) + br
            new = []
            for e in ends:
                for key in self.changed(base, e, k):
                    if key not in keys and key not in new:
                        new.append(key)
            if not new:
                break
            del self.events[ev0:]
            del self.unsupported[un0:]
            del self.global_writes[gl0:]
            if self.risk is not None:
                del self.risk[rk0:]
            keys = keys + new
        # ---------------- while loops in counted form
        wclosed = {}
        if while_cond is not None:
            n2 = None
            if wc is not None and wc.op == "not" and wc.args[0].op == "cmp" and wc.args[0].args[0] in "<=>=":
                wc = mk("cmp", {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(wc.args[0].args[0], "!="), *wc.args[0].args[1:])
            if wc is not None and wc.op == "cmp" and norm_ is not None and not br:
                n2 = self.counted(wc, phis, norm_, pre)
            if n2 is None:
                n = mk("opaque", "while")
                self.unsupported.append(("while", getattr(node, "lineno", 0)))
            else:
                n = n2
        # ---------------- closed forms of counters at iteration k
        closed = {}
        vals = {}
        for key, p in phis.items():
            v = self.get_key(key, norm_) if norm_ is not None else self.get_key(key, pre)
            vals[key] = v if isinstance(v, T) else self.tt(v, norm_ if norm_ is not None else pre)
        init = {}
        self.arr_keys = {key for key in phis if key[0] == "cell" and key[1] in pre.heap and pre.heap[key[1]].kind == "arr"}
        for key in phis:
            v0 = self.get_key(key, pre)
            init[key] = v0 if isinstance(v0, T) else self.tt(v0, pre)
        pset = set(phis.values())
        for key, p in phis.items():
            step = add_step(vals[key], p)
            if step is not None and not (step.fvs & pset) and k not in step.fvs:
                closed[p] = binop("+", init[key], binop("*", step, k)) if not (is_num(init[key]) and cval(init[key]) == 0) else (k if is_num(step) and cval(step) == 1 else binop("*", step, k))
            elif vals[key] is p:
                closed[p] = init[key]
        for key, p in phis.items():
            if p not in closed and not (vals[key].fvs & pset) and k not in vals[key].fvs:
                # assigned the same value every iteration: value at iteration k is init or that value
                pass
        sc0 = lambda t: subst(t, closed) if closed and isinstance(t, T) else t
        vals = {key: sc0(v) for key, v in vals.items()}
        # a part of an array that only this round stores into is read as it was before the loop
        parts = {p: own_part(p, vals[key], k) for key, p in phis.items() if isinstance(vals[key], T)}
        parts = {p: w for p, w in parts.items() if w}
        inits = {p: init[key] for key, p in phis.items()}

        def before(t):
            if not parts or not isinstance(t, T) or not t.fvs & pset:
                return t
            m_ = {}
            for p, w in parts.items():
                if p in t.fvs:
                    m_.update(own_reads(t, p, inits[p], k, w))
            return subst(t, m_) if m_ else t
        vals = {key: before(v) for key, v in vals.items()}
        # values at the start of iteration k of variables with a regular recurrence
        closed2 = dict(closed)
        if while_cond is None or n.op != "opaque":
            for _ in range(4):
                grown = False
                for key, p in phis.items():
                    if p in closed2:
                        continue
                    v = subst(vals[key], {q: t for q, t in closed2.items() if q is not p})
                    c = self.at_iteration(key, v, p, init[key], k, pset)
                    if c is not None:
                        closed2[p] = c
                        grown = True
                if not grown:
                    break
            vals = {key: subst(v, {q: t for q, t in closed2.items() if q is not phis[key]}) for key, v in vals.items()}
        sc = lambda t: subst(t, closed2) if closed2 and isinstance(t, T) else t
        if phis:
            lost = {p: mk("opaque", "carried") for p in pset if p not in closed2}
            fix = lambda t: subst(before(sc(t)), lost) if isinstance(t, T) and t.fvs & pset else t
            for e in self.events[ev0:]:
                e.args = [fix(a) for a in e.args]
                e.pc = tuple(fix(a) for a in e.pc)
                e.recv = fix(e.recv)
                e.kwargs = {q: fix(a) for q, a in e.kwargs.items()}
                e.loops = tuple((q, fix(a)) for q, a in e.loops)
        # list contents as prefix: append-only lists read inside are left as phi
        # ---------------- exits
        rel = lambda e: before(sc(conj(e.pc[np_:])))
        brc = disj([rel(e) for e in br])
        if while_cond is not None and wc is not None and brc is not FALSE:
            brc = simp_given(brc, wc)
        dirty = lambda t: bool(t.fvs & pset)
        m = n
        has_break = brc is not FALSE

        def told(c, n):
            """whether and when c holds first depends on what the loop carries along: all that decides it is kept"""
            need, more = [], c.fvs
            while True:
                got = [key for key, p in phis.items() if p in more and key not in need]
                if not got:
                    break
                need += got
                more = frozenset().union(more, *[vals[key].fvs for key in got])
            need = [key for key in phis if key in need]
            z = fresh()
            inner = mk("seq", c, *[vals[key] for key in need])
            inner = subst(inner, {phis[key]: sub(z, const(j)) for j, key in enumerate(need)})
            if inner.fvs & pset:
                self.unsupported.append(("loop-carried-break", getattr(node, "lineno", 0)))
            return binder("mu", k, n, mk("seq", *[init[key] for key in need]), binder("lam", z, inner))
        if has_break:
            if dirty(brc):
                story = told(brc, n)
                brk_exists = truth_term(mk("stops", story))
                m = mk("stopsat", story)
            else:
                brk_exists = mk_exists(n, k, brc)
                if k in brc.fvs:
                    m = binder("first", k, n, brc, k, n)
                else:
                    m = ite(brc, const(0), n)
        post = pre.copy()
        # returns / raises inside the loop
        rest = TRUE
        allx = [rel(e.st) for e in ot]
        leaving = []
        for e, c in zip(ot, allx):
            x = e.st.copy()
            if dirty(c):
                tale = told(c, n if not has_break else m)
                ex = truth_term(mk("stops", tale))
                idx = mk("stopsat", tale)
                post.pc = post.pc + (neg(ex),)
                c = FALSE
            else:
                ex = mk_exists(n if not has_break else m, k, c)
                idx = binder("first", k, n, c, k, n) if k in c.fvs else const(0)
            x2 = pre.copy()
            for key in phis:
                self.set_key(key, mk("opaque", "loop-exit"), x2)
            # keep the state of the exiting iteration for values unaffected by carried state
            for key in phis:
                v = self.get_key(key, x)
                t = sc(v if isinstance(v, T) else self.tt(v, x))
                if not dirty(t):
                    self.set_key(key, subst(t, {k: idx}), x2)
            x2.pc = pre.pc + (ex,) if ex is not TRUE else pre.pc
            val = e.val
            if val is not None:
                tv = val if isinstance(val, T) else self.tt(val, x)
                val = subst(sc(tv), {k: idx})
                if val.fvs & pset:
                    val = mk("opaque", "loop-return")
            self.sink.append(Exit(e.kind, x2, val, e.exc))
            if c is not FALSE:
                leaving.append(c)
        if leaving:
            ex = mk_exists(n if not has_break else m, k, disj(leaving))
            if ex is not FALSE:
                post.pc = post.pc + (neg(ex),)
        # ---------------- summaries
        final = {}
        undone = []
        for key, p in phis.items():
            r = self.summarise(key, vals[key], p, init[key], m, k, pset, phis)
            if r is None:
                undone.append(key)
            else:
                final[key] = r
        if undone:
            for key, r in running(undone, vals, phis, init, m, k).items():
                final[key] = r
                undone.remove(key)
        for undone in groups_of(undone, vals, phis, init):
            for key in undone:
                self.opaque_n += 1
            ps = [phis[x] for x in undone]
            z = fresh()
            body = subst(mk("seq", *[vals[x] for x in undone]), {p: (sub(z, const(j)) if len(ps) > 1 else z) for j, p in enumerate(ps)})
            if len(ps) == 1:
                body = body.args[0]
            left = body.fvs & pset
            if left:
                # depends on prefixes of summarised variables
                body = subst(body, {p: mk("prefix", final.get(x, mk("opaque", "carried")), k) for x, p in phis.items() if p in left})
            ini = mk("seq", *[init[x] for x in undone]) if len(ps) > 1 else init[undone[0]]
            mu = binder("mu", k, m, ini, binder("lam", z, body))
            for j, key in enumerate(undone):
                final[key] = sub(mu, const(j)) if len(ps) > 1 else mu
        if has_break:
            for key, p in phis.items():
                vb = None
                for e in br:
                    v = self.get_key(key, e)
                    t = leaf_where(sc(v if isinstance(v, T) else self.tt(v, e)), rel(e))
                    vb = t if vb is None else ite(rel(e), t, vb)
                if vb is p or vb is closed.get(p):
                    if vb is not p:
                        final[key] = ite(brk_exists, subst(vb, {k: m}), final[key]) if k in vb.fvs else final[key]
                    continue
                vb = subst(vb, {q: final[x] for x, q in phis.items() if x in final})
                final[key] = ite(brk_exists, subst(vb, {k: m}), final[key])
        for key in phis:
            v = final[key]
            if key[0] == "cell":
                self.set_key(key, v, post)
            else:
                v0 = self.get_key(key, pre)
                self.set_key(key, self.rewrap(v0, v, post), post)
        # element writes
        src = norm_ if norm_ is not None else (br[0] if br else None)
        if src is not None:
            for key in keys:
                if key_has(key, k):
                    v = self.get_key(key, src)
                    t = sc(v if isinstance(v, T) else self.tt(v, src))
                    if dirty(t):
                        t = subst(t, {p: mk("opaque", "carried") for p in pset})
                    if has_break:
                        t = mk("opaque", "partial-write", t)
                    if key[0] == "field":
                        post.quant.append(((k, key[1][0]), key[1][1], t))
                    else:
                        post.quant.append(((k, key[1]), "$", t))
            for q in src.quant[len(pre.quant):]:
                if q not in post.quant:
                    post.quant.append(q)
            # names first bound inside the loop
            for fid, env in src.frames.items():
                if fid not in pre.frames:
                    post.frames[fid] = dict(env)
                    continue
                for nm, v in env.items():
                    if nm not in pre.frames[fid]:
                        try:
                            if isinstance(v, (FuncV, ClassV, ModV, BoundV)):
                                post.frames[fid][nm] = v
                                continue
                            t = sc(v if isinstance(v, T) else self.tt(v, src))
                        except Exception:
                            t = mk("opaque", "loopvar")
                        if dirty(t):
                            t = subst(t, {p: mk("opaque", "carried") for p in pset})
                        if k in t.fvs:
                            t = subst(t, {k: binop("-", m, const(1))})
                        post.frames[fid][nm] = t
        for e in [norm_] + br:
            if e is None:
                continue
            for rid, c in e.heap.items():
                if rid not in post.heap:
                    post.heap[rid] = c
        if orelse:
            if has_break:
                s1, s2 = post.copy(), post.copy()
                s1.pc = s1.pc + (brk_exists,)
                s2.pc = s2.pc + (neg(brk_exists),)
                self.block(orelse, fr, s2)
                if s2.dead:
                    st.become(s1)
                    st.dead = False
                    return
                j = self.join(brk_exists, s1, s2)
                r1, r2 = conj(s1.pc[np_:]), conj(s2.pc[np_:])
                d = I.simplify_or([r1, r2], disj([r1, r2]))
                j.pc = pre.pc + (() if d is TRUE else (d,))
                st.become(j)
                st.dead = False
                return
            self.block(orelse, fr, post)
        st.become(post)

    @method
    def rewrap(self, v0, v, st):
        """keep container-ness of a value that was a container before the loop"""
        if isinstance(v0, Ref) and v0.kind in ("list", "arr", "dict") and isinstance(v, T):
            r = Ref(v0.kind)
            st.heap[r.rid] = Cell(v0.kind, None, v)
            return r
        return v

    @method
    def counted(self, wc, phis, norm_, pre):
        o, a, b = wc.args
        for x, y, oo in ((a, b, o), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}[o])):
            for key, p in phis.items():
                if x is p and not (y.fvs & set(phis.values())):
                    v = self.get_key(key, norm_)
                    t = v if isinstance(v, T) else self.tt(v, norm_)
                    step = add_step(t, p)
                    if step is None or step.fvs & set(phis.values()):
                        continue
                    if not is_num(step):
                        # as many steps as it takes
                        i0 = self.get_key(key, pre)
                        i0 = i0 if isinstance(i0, T) else self.tt(i0, pre)
                        if oo in ("<", "<="):
                            return mk("steps", step, binop("-", y, i0), const(oo))
                        continue
                    i0 = self.get_key(key, pre)
                    i0 = i0 if isinstance(i0, T) else self.tt(i0, pre)
                    if cval(step) == 1 and oo in ("<", "!="):
                        return binop("-", y, i0) if not (is_num(i0) and cval(i0) == 0) else y
                    if cval(step) == 1 and oo == "<=":
                        return binop("+", binop("-", y, i0), const(1))
                    if cval(step) == -1 and oo in (">", "!="):
                        return binop("-", i0, y)
                    if cval(step) == -1 and oo == ">=":
                        return binop("+", binop("-", i0, y), const(1))
        return None

    def add_step(v, p):
        if v.op == "bin" and v.args[0] == "+":
            if v.args[1] is p and p not in v.args[2].fvs:
                return v.args[2]
            if v.args[2] is p and p not in v.args[1].fvs:
                return v.args[1]
        if v.op == "bin" and v.args[0] == "-" and v.args[1] is p and p not in v.args[2].fvs:
            t = v.args[2]
            return const(-cval(t)) if is_num(t) else mk("neg", t)
        return None

    def simp_given(c, wc):
        if c is wc:
            return TRUE
        if c.op == "and":
            return conj([simp_given(x, wc) for x in c.args])
        if c.op == "or":
            return disj([simp_given(x, wc) for x in c.args])
        return c

    @method
    def shape_of(self, t):
        seen = 0
        while seen < 20:
            seen += 1
            if t.op == "fv" and t in getattr(self, "phi_init", {}):
                t = self.phi_init[t]
            elif t.op in ("upd",):
                t = t.args[0]
            elif t.op == "fill":
                t = t.args[1]
            elif t.op == "full":
                s = t.args[0]
                return list(s.args) if s.op == "seq" else [s]
            elif t.op == "map":
                return [t.args[0]]
            else:
                return None
        return None

    def boolish(c):
        if c.op == "ite":
            x, a, b = boolish(c.args[0]), c.args[1], c.args[2]
            a = TRUE if a is c.args[0] else boolish(a)
            b = FALSE if b is c.args[0] else boolish(b)
            return disj([conj([x, a]), conj([neg(x), b])])
        return c

    def gate_of(v, p):
        """(c, e) when v is e under c and p otherwise"""
        if v is p:
            return FALSE, None
        if v.op != "ite":
            return TRUE, v
        c1, e1 = gate_of(v.args[1], p)
        c2, e2 = gate_of(v.args[2], p)
        if e1 is not None and e2 is not None and e1 is not e2:
            return None, None
        if c1 is None or c2 is None:
            return None, None
        c = boolish(v.args[0])
        parts = []
        if c1 is not FALSE:
            parts.append(conj([c, c1]))
        if c2 is not FALSE:
            parts.append(conj([neg(c), c2]))
        return disj(parts), (e1 if e1 is not None else e2)

    FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}

    def running(undone, vals, phis, init, n, k):
        """running extremum with its companions: best = x where x beats best, which = e there"""
        out = {}
        pset = {phis[x] for x in undone}
        for key in undone:
            if key in out:
                continue
            p = phis[key]
            c, x = gate_of(vals[key], p)
            if c is None or x is None or x.fvs & pset or c is TRUE or c is FALSE:
                continue
            cs = list(c.args) if c.op == "and" else [c]
            mine = [y for y in cs if p in y.fvs]
            other = [y for y in cs if p not in y.fvs]
            if len(mine) != 1 or any(y.fvs & pset for y in other):
                continue
            t = mine[0]
            neg_ = False
            if t.op == "not":
                t, neg_ = t.args[0], True
            if t.op != "cmp" or t.args[0] not in FLIP:
                continue
            op, a, b = t.args
            if a is p and b is x:
                op, a, b = FLIP[op], b, a
            if a is not x or b is not p:
                continue
            if neg_:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            g = conj(other)
            kind = mk("const", op)
            out[key] = binder("runbest", k, n, g, x, init[key], kind)
            for k2 in undone:
                if k2 in out:
                    continue
                q = phis[k2]
                c2, e = gate_of(vals[k2], q)
                if c2 is None or e is None or e.fvs & pset:
                    continue
                if c2 is c or (c2.op == "and" and c.op == "and" and set(c2.args) == set(c.args)):
                    out[k2] = binder("runwhich", k, n, g, x, e, init[key], init[k2], kind)
        # lists that take an element only when it is new to one of them
        for key in undone:
            if key in out:
                continue
            p = phis[key]
            c, a = gate_of(vals[key], p)
            if c is None or a is None or a.op != "append" or a.args[0] is not p or a.args[1].fvs & pset or c in (TRUE, FALSE):
                continue
            x = a.args[1]
            cs = list(c.args) if c.op == "and" else [c]
            mine = [y for y in cs if p in y.fvs]
            other = [y for y in cs if p not in y.fvs]
            if len(mine) != 1 or any(y.fvs & pset for y in other):
                continue
            t = mine[0]
            if t.op != "not" or t.args[0].op != "in" or t.args[0].args[0] is not x or t.args[0].args[1] is not p:
                continue
            g = conj(other)

            def grown(i0, e):
                r = binder("uniq", k, n, g, x, e, init[key])
                return r if i0.op == "seq" and not i0.args else mk("concat", i0, r)
            out[key] = grown(init[key], x)
            for k2 in undone:
                if k2 in out:
                    continue
                q = phis[k2]
                c2, e = gate_of(vals[k2], q)
                if c2 is None or e is None or e.op != "append" or e.args[0] is not q or e.args[1].fvs & pset:
                    continue
                if c2 is c or (c2.op == "and" and c.op == "and" and set(c2.args) == set(c.args)):
                    out[k2] = grown(init[k2], e.args[1])
        # a companion recognised without its leader would be wrong: leaders come first by construction
        return out

    def groups_of(undone, vals, phis, init):
        """independent groups of mutually dependent variables, each in canonical order"""
        left = list(undone)
        out = []
        tok = {phis[x]: mk("param", "$carried") for x in undone}
        while left:
            grp = [left.pop(0)]
            grew = True
            while grew:
                grew = False
                for y in list(left):
                    if any(phis[y] in vals[g].fvs or phis[g] in vals[y].fvs for g in grp):
                        grp.append(y)
                        left.remove(y)
                        grew = True
            grp.sort(key=lambda x: (init[x].id, subst(vals[x], tok).id))
            out.append(grp)
        return out

    @method
    def summarise(self, key, v, p, init, n, k, pset, phis):
        others = pset - {p}
        if v is p:
            return init
        if not (v.fvs & pset):
            if k not in v.fvs:
                if is_num(n) and cval(n) > 0:
                    return v
                return ite(cmp_(">", n, const(0)), v, init)
            e = at_last(v, k, n)
            return e if is_num(n) and cval(n) > 0 else ite(cmp_(">", n, const(0)), e, init)
        if v.fvs & others:
            return None
        fr = self.first_then_add(v, p, k, init)
        if fr is not None:
            return ite(cmp_(">", n, const(0)), mk_sum(n, k, fr), init)
        step = add_step(v, p)
        if step is not None:
            if key[0] == "cell" and (init.op == "seq" or step.op in ("seq",)):
                if step.op == "seq" and len(step.args) == 1:
                    mp = mk_map(n, k, step.args[0])
                    return mp if init.op == "seq" and not init.args else binop("+", init, mp)
                return None
            sm = mk_sum(n, k, step)
            return sm if is_num(init) and cval(init) == 0 else binop("+", init, sm)
        if v.op == "append" and v.args[0] is p and p not in v.args[1].fvs:
            mp = mk_map(n, k, v.args[1])
            return mp if init.op == "seq" and not init.args else mk("concat", init, mp)
        if v.op == "upd" and v.args[0] is p:
            return self.sum_upd(p, v.args[1], v.args[2], init, n, k)
        if v.op == "fill" and v.args[1] is p:
            # inner loop filled a row
            z = fresh()
            nn, _, idx, e = open_binder(v, z)
            sh = self.shape_of(init)
            if sh and len(sh) >= 2 and idx.op == "seq" and len(idx.args) == 2 and idx.args[1] is z and same_t(sh[1], nn) \
                    and z not in idx.args[0].fvs and p not in e.fvs:
                return self.sum_upd(p, idx.args[0], mk_map(nn, z, e), init, n, k)
            if sh and len(sh) >= 2 and idx.op == "seq" and len(idx.args) == 2 and idx.args[0] is z and same_t(sh[0], nn) \
                    and z not in idx.args[1].fvs and p not in e.fvs and idx.args[1] is k and same_t(sh[1], n):
                return binder("map", z, nn, mk_map(n, k, e))
        if v.op == "ite":
            c, a, b = v.args
            flipd = False
            if a is p:
                c, a, b = neg(c), b, a
            if b is p and p not in c.fvs:
                if a.op == "append" and a.args[0] is p and p not in a.args[1].fvs:
                    f = mk_filt(n, k, c, a.args[1])
                    return f if init.op == "seq" and not init.args else mk("concat", init, f)
                st_ = add_step(a, p)
                if st_ is not None and key[0] != "cell":
                    sm = mk_sum(n, k, ite(c, st_, const(0)))
                    return sm if is_num(init) and cval(init) == 0 else binop("+", init, sm)
                if st_ is not None and st_.op != "seq" and init.op != "seq":
                    sm = mk_sum(n, k, ite(c, st_, const(0)))
                    return sm if is_num(init) and cval(init) == 0 else binop("+", init, sm)
                if a.op == "upd" and a.args[0] is p:
                    idx, e = a.args[1], a.args[2]
                    return self.sum_upd(p, idx, ite(c, e, sub(p, idx)), init, n, k)
                if not (a.fvs & pset):
                    if k not in a.fvs:
                        return ite(mk_exists(n, k, c), a, init)
            elif p not in c.fvs:
                # both sides append
                if a.op == "append" and b.op == "append" and a.args[0] is p and b.args[0] is p and p not in a.args[1].fvs and p not in b.args[1].fvs:
                    mp = mk_map(n, k, ite(c, a.args[1], b.args[1]))
                    return mp if init.op == "seq" and not init.args else mk("concat", init, mp)
                sa, sb = add_step(a, p), add_step(b, p)
                if sa is not None and sb is not None and key[0] != "cell":
                    sm = mk_sum(n, k, ite(c, sa, sb))
                    return sm if is_num(init) and cval(init) == 0 else binop("+", init, sm)
                if a.op == "upd" and b.op == "upd" and a.args[0] is p and b.args[0] is p and a.args[1] is b.args[1]:
                    return self.sum_upd(p, a.args[1], ite(c, a.args[2], b.args[2]), init, n, k)
            fa = flat_append(v, p)
            if fa is not None:
                c, e = fa
                f = mk_filt(n, k, c, e)
                return f if init.op == "seq" and not init.args else mk("concat", init, f)
        if v.op == "or" and p in v.args:
            rest = disj([x for x in v.args if x is not p])
            if p not in rest.fvs:
                return disj([init, mk_exists(n, k, rest)])
        if v.op == "or" and any(x.op == "truthy" and x.args[0] is p for x in v.args):
            rest = disj([x for x in v.args if not (x.op == "truthy" and x.args[0] is p)])
            if p not in rest.fvs:
                return disj([truth_term(init), mk_exists(n, k, rest)])
        if v.op == "and" and (p in v.args or any(x.op == "truthy" and x.args[0] is p for x in v.args)):
            rest = conj([x for x in v.args if not (x is p or (x.op == "truthy" and x.args[0] is p))])
            if p not in rest.fvs:
                return conj([truth_term(init), neg(mk_exists(n, k, neg(rest)))])
        return None

    @method
    def at_iteration(self, key, v, p, init, k, pset):
        """closed form of a loop variable at the start of iteration k, or None"""
        if v is p:
            return init
        if v.fvs & (pset - {p}):
            return None
        if p not in v.fvs:
            if k not in v.fvs:
                cv, ci = norm.canon(v), norm.canon(init)
                if cv is ci or norm.same(cv, ci):
                    return init
            return ite(cmp_(">", k, const(0)), subst(v, {k: binop("-", k, const(1))}), init)
        j = fresh()
        if v.op == "append" and v.args[0] is p and p not in v.args[1].fvs:
            mp = mk_map(k, j, subst(v.args[1], {k: j}))
            return mp if init.op == "seq" and not init.args else mk("concat", init, mp)
        fa = flat_append(v, p)
        if fa is not None:
            f = mk_filt(k, j, subst(fa[0], {k: j}), subst(fa[1], {k: j}))
            return f if init.op == "seq" and not init.args else mk("concat", init, f)
        if k not in v.fvs and v.op == "ite":
            # settled after the first time
            w = norm.canon(subst(v, {p: init}))
            if w.op == "const" and norm.canon(subst(v, {p: w})) is w:
                return ite(cmp_(">", k, const(0)), w, init)
        fr = self.first_then_add(v, p, k, init)
        if fr is not None:
            return ite(cmp_(">", k, const(0)), mk_sum(k, j, subst(fr, {k: j})), init)
        step = add_step(v, p)
        if step is not None and (key[0] != "cell" or key in self.arr_keys) and init.op != "seq":
            tel = telescoped(step, k)
            if tel is not None:
                # sum over j < k of new(j) - (j > 0 ? new(j-1) : first)
                zero = tel[1].op == "full" and is_num(tel[1].args[1]) and cval(tel[1].args[1]) == 0
                return binop("+", init, tel[0] if zero else binop("-", tel[0], tel[1]))
            return binop("+", init, mk_sum(k, j, subst(step, {k: j})))
        if v.op == "bin":
            z = norm.canon(v)
            if is_num(z) and cval(z) == 0 and not is_num(init):
                ci = norm.canon(init)
                if norm.call_name(ci) is None and ci.op == "full" and is_num(ci.args[1]) and cval(ci.args[1]) == 0:
                    return init
        return None

    @method
    def first_then_add(self, v, p, k, init):
        """what is added each time, where the first one starts the total"""
        if v.op != "ite":
            return None
        c, a, b = v.args
        if init is NONE and (c.op == "isnone" and c.args[0] is p or c.op == "not" and c.args[0].op == "isnone" and c.args[0].args[0] is p):
            # nothing yet: the first time
            if c.op == "isnone":
                a, b = b, a
            step = add_step(a, p)
            return step if step is not None and p not in b.fvs and same_t(step, b) and self.isnone(step) is FALSE else None
        if p in c.fvs or k not in c.fvs:
            return None
        late = norm.canon(cmp_(">", k, const(0)))
        if norm.canon(neg(c)) is late:
            a, b = b, a
        elif norm.canon(c) is not late:
            return None
        step = add_step(a, p)
        if step is not None and p not in b.fvs and same_t(step, b):
            return step
        return None

    def telescoped(step, k):
        """(value at the start of iteration k, value at the start) when the step is new(k) - old(k) with old the
        previous iteration's new"""
        if step.op != "bin" or step.args[0] != "-":
            return None
        new, old = step.args[1], step.args[2]
        if old.op != "ite" or old.args[0] is not cmp_(">", k, const(0)) or k in old.args[2].fvs:
            return None
        if not same_t(subst(new, {k: binop("-", k, const(1))}), old.args[1]):
            return None
        return old, old.args[2]

    def at_last(v, k, n):
        return subst(v, {k: binop("-", n, const(1))})

    def flat_append(v, p):
        """nested ite of appends of / phi -> (cond, element) when a single element per iteration"""
        def rec(t):
            if t is p:
                return (FALSE, None)
            if t.op == "append" and t.args[0] is p and p not in t.args[1].fvs:
                return (TRUE, t.args[1])
            if t.op == "ite" and p not in t.args[0].fvs:
                a, b = rec(t.args[1]), rec(t.args[2])
                if a is None or b is None:
                    return None
                c = ite(t.args[0], a[0], b[0])
                if a[1] is None:
                    return (conj([neg(t.args[0]), b[0]]), b[1])
                if b[1] is None:
                    return (conj([t.args[0], a[0]]), a[1])
                return (c, ite(t.args[0], a[1], b[1]))
            return None
        r = rec(v)
        return r if r is not None and r[1] is not None else None

    def same_t(a, b):
        return a is b or norm.same(norm.canon(a), norm.canon(b))

    def own_part(p, v, k):
        """0 or 1: every store of round k is at [k, ...] or at [..., k]; None: neither"""
        at = set()

        def rec(v):
            if v is p:
                return True
            if v.op == "upd":
                i = v.args[1]
                v = v.args[0]
            elif v.op == "fill":
                _, v, i, _ = open_binder(v, fresh())
            elif v.op == "ite":
                return rec(v.args[1]) and rec(v.args[2])
            else:
                return False
            at.add(0 if i is k or i.op == "seq" and i.args[0] is k else 1 if i.op == "seq" and len(i.args) == 2 and i.args[1] is k else None)
            return rec(v)
        if v is p or not rec(v) or len(at) != 1:
            return None
        return ("rows", "columns", None)[next(iter(at)) if None not in at else 2]

    def own_reads(t, p, init, k, which):
        out = {}
        for x in walk(t):
            if x.op != "sub":
                continue
            b, i = x.args
            if which == "rows" and b is p and (i is k or i.op == "seq" and i.args[0] is k):
                out[x] = sub(init, i)
            elif which == "columns" and b is p and i.op == "seq" and len(i.args) == 2 and i.args[1] is k:
                out[x] = sub(init, i)
            elif which == "columns" and i is k and norm.call_name(b) == "numpy.transpose" and b.args[1:] == (p,):
                out[x] = sub(mk("call", b.args[0], init), k)
        return out

    def once(idx, k):
        """every round stores at another place"""
        if idx is k:
            return True
        if idx.op == "seq":
            return any(once(x, k) for x in idx.args)
        if idx.op == "bin" and idx.args[0] in "+-":
            return idx.args[1] is k and k not in idx.args[2].fvs or idx.args[2] is k and k not in idx.args[1].fvs
        return idx.op == "sub" and idx.args[1] is k and norm.call_name(idx.args[0]) in ("numpy.flatnonzero", "numpy.argsort", "numpy.where", "numpy.arange")

    @method
    def sum_upd(self, p, idx, e, init, n, k):
        if p in idx.fvs:
            return None
        if p in e.fvs:
            if not once(idx, k):
                return None
            e2 = subst(e, {sub(p, idx): sub(init, idx)})
            if p in e2.fvs:
                return None
            e = e2
        if k not in idx.fvs:
            if k not in e.fvs:
                return ite(cmp_(">", n, const(0)), upd(init, idx, e), init)
            return upd(init, idx, ite(cmp_(">", n, const(0)), at_last(e, k, n), sub(init, idx)))
        sh = self.shape_of(init)
        ii = idx
        if idx.op == "seq" and len(idx.args) > 1 and all(x.op == "slice" and all(y is NONE for y in x.args) for x in idx.args[1:]):
            ii = idx.args[0]
        if ii is k and sh is not None and same_t(sh[0], n):
            return mk_map(n, k, e)
        if ii is k and init.op in ("map",) and same_t(init.args[0], n):
            return mk_map(n, k, e)
        if idx.op == "seq" and len(idx.args) == 2 and idx.args[1] is k and sh is not None and len(sh) >= 2 and same_t(sh[1], n) \
                and idx.args[0].op == "slice" and all(y is NONE for y in idx.args[0].args):
            return mk("call", mk("ext", "numpy.transpose"), mk_map(n, k, e))
        return binder("fill", k, n, init, idx, e)

    @method
    def s_While(self, s, fr, st):
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and s.body and isinstance(s.body[0], ast.If) and \
                not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break) and len(s.body) > 1:
            s = ast.copy_location(ast.While(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.body[0].test), s), body=s.body[1:], orelse=[]), s)
        # concrete unrolling while the test is decided
        for _ in range(60):
            probe = st.copy()
            ev0, un0 = len(self.events), len(self.unsupported)
            outer = self.sink
            self.sink = []
            c = self.known(self.truth(self.ev(s.test, fr, probe), probe), probe)
            self.sink = outer
            del self.events[ev0:]
            del self.unsupported[un0:]
            if c is FALSE:
                self.block(s.orelse, fr, st)
                return
            if c is not TRUE or isinstance(s.test, ast.Constant):
                break
            fake = ast.For(target=ast.Name(id="$w", ctx=ast.Store()), iter=None, body=s.body, orelse=[])
            n0 = len(st.pc)
            self.sink = []
            self.block(s.body, fr, st)
            exits, self.sink = self.sink, outer
            if any(e.kind in ("break",) for e in exits):
                live, brs = ([] if st.dead else [st.copy()]), []
                for e in exits:
                    (live.append(e.st) if e.kind == "continue" else brs.append(e.st) if e.kind == "break" else self.sink.append(e))
                if not live:
                    o, _ = self.join_many([(y, NONE) for y in brs], n0)
                    st.become(o)
                    st.dead = False
                    return
                self.opaque("while-break", s)
                st.become(live[0])
                st.dead = False
                break
            live = [] if st.dead else [st.copy()]
            for e in exits:
                (live.append(e.st) if e.kind == "continue" else self.sink.append(e))
            if not live:
                st.dead = True
                return
            o, _ = self.join_many([(y, NONE) for y in live], n0)
            st.become(o)
            st.dead = False
        n = mk("opaque", "while")

        def run(x, k):
            self.block(s.body, fr, x)
        self.loop(run, n, fr, st, s.orelse, s, while_cond=lambda x: self.ev(s.test, fr, x))


def leaf_where(t, c, deep=6):
    """t where c holds: choices that c has made"""
    if deep == 0 or t.op not in ("ite", "seq", "append", "bin"):
        return t
    if t.op != "ite":
        if not contains(t, lambda x: x.op == "ite"):
            return t
        new = [leaf_where(x, c, deep - 1) if isinstance(x, T) else x for x in t.args]
        return t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, new)
    q, a, b = t.args
    try:
        yes, no = conj([c, q]), conj([c, neg(q)])
        if not norm.satisfiable(yes):
            return leaf_where(b, c, deep - 1)
        if not norm.satisfiable(no):
            return leaf_where(a, c, deep - 1)
        a, b = leaf_where(a, yes, deep - 1), leaf_where(b, no, deep - 1)
    except norm.Budget:
        return t
    return a if a is b else ite(q, a, b)
