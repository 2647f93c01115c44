"""Hash-consed terms of the gated value graph, their normal forms and their comparison.

A term is an interned tree ``T(op, *args)``; args are terms or python atoms (str, bool,
None, Fraction, complex).  Terms carry no program text: names of locals, the order of
independent statements, helper boundaries and the surface form of loops are gone by the
time a term exists.

Vocabulary (op: args)
  const v | param name | ext dotted | attr base name | call f (args..) | kw name value
  bin op a b | cmp op a b | not a | and a b.. | or a b.. | ite c a b | neg a
  sub base idx | slice a b c | seq e.. (list or tuple) | dict k v k v ..
  map n body | filt n cond body | sum n body | exists n cond | first n cond v default
  last n v init | mu n init body | fill n init idx v | bv h | fv serial
  upd base idx v | append seq v | concat a b | obj cls name v name v .. | full shape v
  isnone t | truthy t | exc key.. | opaque tag
"""
from fractions import Fraction
import itertools


class T:
    __slots__ = ("op", "args", "id", "h", "fvs", "__weakref__")
    table = {}
    count = itertools.count()

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple((a if isinstance(a, T) else (type(a).__name__, a)) for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(T.count)
        h = 0
        fvs = frozenset()
        for a in args:
            if isinstance(a, T):
                if a.h > h:
                    h = a.h
                if a.fvs:
                    fvs = fvs | a.fvs
            elif op == "rat":
                for mono, _ in a:
                    for x, _e in mono:
                        if x.h > h:
                            h = x.h
                        if x.fvs:
                            fvs = fvs | x.fvs
        if op in BINDERS:
            h += 1
        if op == "fv":
            fvs = frozenset([t])
        t.h = h
        t.fvs = fvs
        T.table[key] = t
    return t


BINDERS = {"map", "filt", "sum", "exists", "first", "last", "mu", "fill", "lam", "runbest", "runwhich", "uniq"}

TRUE = mk("const", True)
FALSE = mk("const", False)
NONE = mk("const", None)


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", v)
    if isinstance(v, int):
        return mk("const", Fraction(v))
    if isinstance(v, Fraction):
        return mk("const", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("ext", {"inf": "numpy.inf", "nan": "numpy.nan"}.get(str(v), "-inf")) if v == v or True else None
        return mk("const", Fraction(repr(v)))
    if isinstance(v, complex):
        if v.real == 0:
            return mk("bin", "*", const(v.imag), mk("ext", "1j"))
        return mk("bin", "+", const(v.real), const(complex(0, v.imag)))
    if v is Ellipsis:
        return mk("const", "...")
    return mk("opaque", "const:%r" % (v,))


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], Fraction) and not isinstance(t.args[0], bool)


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str)


def is_bool(t):
    return t.op == "const" and isinstance(t.args[0], bool)


def as_int(t):
    if is_num(t) and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


_fv = itertools.count()


def fresh():
    return mk("fv", next(_fv))


def neg(c):
    if c.op == "const":
        v = c.args[0]
        if isinstance(v, bool):
            return FALSE if v else TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def conj(cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == "and":
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if neg(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def disj(cs):
    out = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == "or":
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if neg(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


CONDS = {"cmp", "not", "and", "or", "isnone", "truthy", "exc", "exists", "isinst", "in", "sg", "eqc", "eq"}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if b is FALSE and a.op in CONDS:
        return conj([c, a])
    if a is TRUE and b.op in CONDS:
        return disj([c, b])
    if a is FALSE and b.op in CONDS:
        return conj([neg(c), b])
    if b is TRUE and a.op in CONDS:
        return disj([neg(c), a])
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return mk("ite", c, a, b)


HOOKS = {}


def subst(t, m, memo=None):
    """Capture-free substitution: keys are fv terms (or any subterm); bound variables are
    never keys at this level because binders are closed over ``bv`` heights."""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "rat":
        r = memo[t] = HOOKS["rat"](t, lambda x: _subst(x, m, memo))
        return r
    if not any(isinstance(a, T) for a in t.args):
        memo[t] = t
        return t
    new = tuple(_subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
    if new == t.args:
        r = t
    elif t.op in BINDERS:
        # re-close: heights may have changed
        h_old = t.h
        v = fresh()
        body_idx = BINDER_BODY[t.op]
        nargs = list(t.args)
        for i in range(len(nargs)):
            if isinstance(nargs[i], T):
                if i in body_idx:
                    nargs[i] = _open(nargs[i], h_old, v)
                    mm = {}
                    nargs[i] = _subst(nargs[i], m, mm)
                else:
                    nargs[i] = _subst(nargs[i], m, memo)
        r = binder(t.op, v, *nargs)
    else:
        r = rebuild(t.op, new)
    memo[t] = r
    return r


BINDER_BODY = {"map": (1,), "filt": (1, 2), "sum": (1,), "exists": (1,), "first": (1, 2),
               "last": (1,), "mu": (2,), "fill": (2, 3), "lam": (0,), "runbest": (1, 2), "runwhich": (1, 2, 3), "uniq": (1, 2, 3)}


def _bound_h(op, args):
    h = 0
    for a in args:
        if isinstance(a, T) and a.h > h:
            h = a.h
    return h + 1


def binder(op, v, *args):
    """Close ``args`` (those in BINDER_BODY) over the fresh variable v."""
    h = _bound_h(op, args)
    bv = mk("bv", h)
    out = list(args)
    for i in BINDER_BODY[op]:
        out[i] = subst(out[i], {v: bv})
    return mk(op, *out)


def _open(body, h, v):
    return subst(body, {mk("bv", h): v})


def open_binder(t, v):
    """Return args of binder t with the bound variable replaced by v."""
    out = list(t.args)
    for i in BINDER_BODY[t.op]:
        out[i] = _open(out[i], t.h, v)
    return out


def dictmerge(a, b):
    if a.op == "dict" and not a.args:
        return b
    if b.op == "dict" and not b.args:
        return a
    return mk("dictmerge", a, b)


def rebuild(op, args):
    if op == "ite":
        return ite(*args)
    if op == "not":
        return neg(args[0])
    if op == "and":
        return conj(args)
    if op == "or":
        return disj(args)
    if op == "bin":
        return binop(*args)
    if op == "sub":
        return sub(*args)
    if op == "cmp":
        return cmp_(*args)
    if op == "len":
        return length(args[0])
    if op == "attr":
        return attr(*args)
    if op == "dictmerge":
        return dictmerge(*args)
    if op == "upd" and args[1].op in ("const", "cmp", "and", "or", "not", "truthy"):
        return upd(*args)
    return mk(op, *args)


# ------------------------------------------------------------------ light constructors
def upd(old, idx, v):
    """pointwise-canonical array update"""
    if idx is FALSE:
        return old
    if idx is TRUE:
        return v
    if idx.op in ("cmp", "and", "or", "not", "truthy"):
        return ite(idx, v, old)
    if idx.op == "slice" and all(x is NONE for x in idx.args):
        return v
    if idx.op == "seq" and idx.args and all(x.op == "slice" and all(y is NONE for y in x.args) for x in idx.args):
        return v
    if old.op == "upd" and old.args[1] is idx:
        old = old.args[0]
    return mk("upd", old, idx, v)


def binop(op, a, b):
    if is_num(a) and is_num(b):
        x, y = a.args[0], b.args[0]
        try:
            if op == "+":
                return const(x + y)
            if op == "-":
                return const(x - y)
            if op == "*":
                return const(x * y)
            if op == "/" and y != 0:
                return const(x / y)
            if op == "//" and y != 0:
                return const(Fraction(x // y))
            if op == "%" and y != 0:
                return const(x % y)
            if op == "**" and y.denominator == 1 and abs(y) < 64 and (x != 0 or y > 0):
                return const(x ** int(y))
        except (ZeroDivisionError, OverflowError):
            pass
    if op == "+" and is_str(a) and is_str(b):
        return const(a.args[0] + b.args[0])
    if op == "+" and a.op == "seq" and b.op == "seq":
        return mk("seq", *(a.args + b.args))
    if op == "*" and a.op == "seq" and as_int(b) is not None:
        return mk("seq", *(a.args * as_int(b)))
    return mk("bin", op, a, b)


def cmp_(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if op == "==":
                return const(bool(x == y) and (isinstance(x, bool) == isinstance(y, bool) or True))
            if op == "!=":
                return const(bool(x != y))
            if op == "<":
                return const(bool(x < y))
            if op == "<=":
                return const(bool(x <= y))
            if op == ">":
                return const(bool(x > y))
            if op == ">=":
                return const(bool(x >= y))
        except TypeError:
            pass
    if a is b and op in ("==", "<=", ">=") and a.op != "ext":
        return TRUE
    if a is b and op in ("!=", "<", ">") and a.op != "ext":
        return FALSE
    return mk("cmp", op, a, b)


def attr(base, name):
    if base.op == "obj":
        for i in range(1, len(base.args), 2):
            if base.args[i] == name:
                return base.args[i + 1]
    if base.op == "ite":
        return ite(base.args[0], attr(base.args[1], name), attr(base.args[2], name))
    if name == "shape" and base.op == "full":
        sh = base.args[0]
        if sh.op == "seq" or (sh.op == "attr" and sh.args[1] == "shape"):
            return sh
        if sh.op in ("const", "len", "sub", "rangelen"):
            return mk("seq", sh)
    return mk("attr", base, name)


def mk_map(n, v, body):
    """[body(v) for v in 0..n)]"""
    if body.op == "sub" and body.args[1] is v and v not in body.args[0].fvs and length(body.args[0]) is n:
        return body.args[0]
    return binder("map", v, n, body)


def mk_filt(n, v, cond, body):
    if cond is TRUE:
        return mk_map(n, v, body)
    return binder("filt", v, n, cond, body)


def length(s):
    if s.op == "seq":
        if any(isinstance(a, T) and a.op == "star" for a in s.args):
            return mk("len", s)
        return const(len(s.args))
    if s.op == "map":
        return s.args[0]
    if places(s) is not None:
        return length(places(s))
    if s.op == "dict":
        return const(len(s.args) // 2)
    if s.op in ("keys", "values"):
        return length(s.args[0])
    if is_str(s):
        return const(len(s.args[0]))
    if s.op == "ite":
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if s.op == "sub" and s.args[1].op == "slice":
        a, b, c = s.args[1].args
        if b is NONE and c is NONE and as_int(a) is not None and as_int(a) >= 0:
            return binop("-", length(s.args[0]), a)
        if (a is NONE or as_int(a) == 0) and c is NONE and as_int(b) is not None and as_int(b) < 0:
            return binop("+", length(s.args[0]), b)
        if a is NONE and b is NONE and as_int(c) == -1:
            return length(s.args[0])
    if s.op == "append":
        return binop("+", length(s.args[0]), const(1))
    if s.op == "sub" and as_int(s.args[1]) == 1 and s.args[0].op == "call" and s.args[0].args[0] is mk("ext", "matplotlib.pyplot.subplots"):
        # the panels of a figure with more than one column (and one row)
        kws = {x.args[0]: x.args[1] for x in s.args[0].args[1:] if x.op == "kw"}
        if len(kws) == len(s.args[0].args) - 1 and not kws.keys() & {"nrows", "squeeze"} and "ncols" in kws and (as_int(kws["ncols"]) or 0) > 1:
            return kws["ncols"]
    if s.op == "sub" and s.args[1].op == "map" and s.args[1].args[1].op in ("bin", "bv", "const") and not is_bool(s.args[1].args[1]) \
            and s.args[1].args[1].args[0] not in ("&", "|", "^"):
        # fancy indexing along the first axis: one entry per index
        return s.args[1].args[0]
    return mk("len", s)


def sub(base, idx):
    i = as_int(idx)
    if base.op == "seq" and i is not None and -len(base.args) <= i < len(base.args) \
            and not any(a.op == "star" for a in base.args):
        return base.args[i]
    if base.op == "seq" and idx.op == "slice" and not any(a.op == "star" for a in base.args):
        vals = []
        ok = True
        for a in idx.args:
            if a is NONE:
                vals.append(None)
            elif as_int(a) is not None:
                vals.append(as_int(a))
            else:
                ok = False
        if ok:
            return mk("seq", *base.args[slice(*vals)])
    if base.op == "map" and idx.op not in ("slice", "seq", "map", "filt"):
        if not (i is not None and i < 0):
            return open_binder(base, idx)[1]
        return open_binder(base, binop("+", base.args[0], idx))[1]
    if base.op == "dict" and idx.op == "const":
        for j in range(0, len(base.args), 2):
            if base.args[j] is idx:
                return base.args[j + 1]
    if base.op == "sub" and base.args[1].op == "slice" and idx.op not in ("slice", "seq"):
        a, b, c = base.args[1].args
        if c is NONE and (a is NONE or (as_int(a) is not None and as_int(a) >= 0)):
            if b is NONE or (as_int(b) is not None and as_int(b) < 0):
                if i is None or i >= 0:
                    return sub(base.args[0], idx if a is NONE else binop("+", idx, a))
        if b is NONE and c is NONE and i == 0:
            return sub(base.args[0], a)     # the first of what starts there
        if a is NONE and b is NONE and as_int(c) == -1:
            return sub(base.args[0], binop("-", binop("-", length(base.args[0]), idx), const(1)))
    if base.op == "upd" and base.args[1] is idx:
        return base.args[2]
    if base.op == "upd" and as_int(base.args[1]) is not None and i is not None and i != as_int(base.args[1]) and i >= 0 and as_int(base.args[1]) >= 0:
        return sub(base.args[0], idx)
    if base.op == "upd" and is_str(idx) and is_str(base.args[1]) and base.args[1] is not idx:
        return sub(base.args[0], idx)
    if idx.op == "call" and idx.args[0] is mk("ext", "numpy.flatnonzero") and len(idx.args) == 2 and idx.args[1].op not in ("const", "kw"):
        return sub(base, idx.args[1])       # the places where a condition holds select what the condition selects
    if is_str(base) and i is not None and -len(cval(base)) <= i < len(cval(base)):
        return const(cval(base)[i])
    if i == 0 and base.op == "call" and len(base.args) == 2 and base.args[0].op == "ext" and base.args[0].args[0] in ("numpy.where", "numpy.nonzero") and vector(base.args[1]):
        return mk("call", mk("ext", "numpy.flatnonzero"), base.args[1])
    if i == 0 and base.op == "sub" and places(base.args[0]) is not None and base.args[1].op not in ("slice", "seq"):
        return sub(places(base.args[0]), base.args[1])
    return mk("sub", base, idx)


def vector(x, deep=10):
    """part of a row or of a column of a matrix, or a condition on one"""
    if deep == 0:
        return False
    if x.op == "sub" and x.args[1].op == "seq" and x.args[0].op in ("param", "fv", "bv", "sub", "mu"):
        i = x.args[1]
        return i.op == "seq" and len(i.args) == 2 and (i.args[0].op == "slice") != (i.args[1].op == "slice")
    if x.op == "call" and x.args[0] is mk("ext", "numpy.squeeze") and len(x.args) == 2 and x.args[1].op == "attr" and x.args[1].args[1] == "_amp":
        return True         # the amplitude of a record
    if x.op == "sub" and x.args[1].op in ("fv", "bv"):
        rows = x.args[0]
        if rows.op == "call" and rows.args[0] is mk("ext", "numpy.array") and len(rows.args) == 2:
            rows = rows.args[1]
        if rows.op == "map":
            return vector(rows.args[-1], deep - 1)
    if x.op == "sub" and x.args[1].op == "slice":
        return vector(x.args[0], deep - 1)
    if x.op == "sub" and x.args[0].op == "call" and x.args[0].args[0] is mk("ext", "numpy.transpose") and len(x.args[0].args) == 2:
        return x.args[1].op in ("fv", "bv")
    if x.op == "call" and x.args[0].op == "ext":
        return x.args[0].args[0] == "numpy.arange" or x.args[0].args[0] in ("numpy.isnan", "numpy.isfinite", "numpy.abs", "abs", "numpy.logical_and", "numpy.logical_or", "numpy.logical_not", "scipy.signal.detrend") \
            and any(isinstance(y, T) and vector(y, deep - 1) for y in x.args[1:])
    if x.op in ("not", "and", "or", "cmp", "bin", "truthy"):
        return any(isinstance(y, T) and vector(y, deep - 1) for y in x.args)
    return False


def places(x):
    """the argwhere of a vector is the column of its flatnonzero"""
    if x.op == "call" and len(x.args) == 2 and x.args[0] is mk("ext", "numpy.argwhere") and vector(x.args[1]):
        return mk("call", mk("ext", "numpy.flatnonzero"), x.args[1])
    return None


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 12:
        return "…"
    if not isinstance(t, T):
        return str(t)
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0]) if not isinstance(a[0], Fraction) else str(a[0])
    if o in ("param", "ext"):
        return a[0]
    if o == "fv":
        return "k%d" % a[0]
    if o == "bv":
        return "i%d" % a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "call":
        return "%s(%s)" % (s(a[0]), ", ".join(s(x) for x in a[1:]))
    if o == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if o == "bin" or o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "not":
        return "not %s" % s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in a) + ")"
    if o == "ite":
        return "{%s ? %s : %s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "obj":
        return "%s{%s}" % (a[0], ", ".join("%s=%s" % (a[i], s(a[i + 1])) for i in range(1, len(a), 2)))
    if o == "rat":
        return "(" + show_rat(a, d) + ")"
    if o == "sg":
        return "sgn(%s) in %s" % (s(a[0]), a[1])
    return "%s<%s>" % (o, ", ".join(s(x) if isinstance(x, T) else repr(x) for x in a))


def show_rat(a, d):
    num, den = a

    def poly(p):
        out = []
        for mono, c in p:
            fs = [show(x, d + 1) + ("^%d" % e if e != 1 else "") for x, e in mono]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return " + ".join(out) or "0"
    if den == ((tuple(), Fraction(1)),):
        return poly(num)
    return "(%s)/(%s)" % (poly(num), poly(den))


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif x.op == "rat":
                for mono, _ in a:
                    for b, _e in mono:
                        stack.append(b)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def is_path(t):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "pathlib.Path"


def textual(t):
    """the text of a path: its parts with a slash between them"""
    if not is_path(t) or any(x.op in ("kw", "star") for x in t.args[1:]):
        return t
    parts = []
    for x in t.args[1:]:
        x = textual(x)
        parts += [const("/")] + (list(x.args) if x.op == "str" else [x])
    parts = parts[1:]
    return parts[0] if len(parts) == 1 else mk("str", *parts)


DATE = {"Y": ("year", 0), "m": ("month", 2), "d": ("day", 2), "H": ("hour", 2), "M": ("minute", 2), "S": ("second", 2)}


def padded(t, n):
    t = mk("str", t)
    return mk("call", mk("attr", t, "zfill"), const(n)) if n else t


def formatted(t, spec):
    """the text of a value under a format specification, as far as its parts are known"""
    import re
    if not is_str(spec):
        return None
    s = cval(spec)
    if s == "d":
        return mk("str", t)
    m = re.fullmatch(r"0(\d+)d?", s)
    if m and t.op not in ("str", "const") and not is_str(t) and not (t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "str"):
        return padded(t, int(m.group(1)))
    if "%" in s:
        return dated(t, s)
    return None


def dated(t, s):
    import re
    bits = re.split(r"%(.)", s)
    parts = []
    for i, b in enumerate(bits):
        if i % 2 == 0:
            if b:
                parts.append(const(b))
        elif b in DATE:
            name, n = DATE[b]
            parts.append(padded(attr(t, name), n))
        else:
            return None
    return mk("str", *parts)
