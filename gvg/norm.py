"""Normal forms (rational polynomials over canonical atoms, ordering atoms) and the
comparison of two gated values over every consistent ordering of the atoms they test."""
import time
import re
from fractions import Fraction
from .terms import *
from .terms import binder, subst, open_binder, fresh
from . import terms as TM

ONE = {(): Fraction(1)}


DEADLINE = 90.0


class Budget(Exception):
    pass


# ---------------------------------------------------------------- polynomials
def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono_mul(m1, m2):
    d = dict(m1)
    for t, e in m2:
        d[t] = d.get(t, 0) + e
    c = Fraction(1)
    out = []
    for t, e in d.items():
        if t.op == "ext" and t.args[0] == "1j":
            e %= 4
            if e >= 2:
                c = -c
                e -= 2
        if t.op == "ones" and e > 1:
            e = 1
        if e:
            out.append((t, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), c


def p_mul(a, b):
    if len(a) * len(b) > 4000:
        raise Budget("polynomial too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, c = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2 * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def r_norm(n, d):
    if not n:
        return ({}, ONE)
    # cancel monomial content
    if d != ONE:
        common = None
        for p in (n, d):
            for m in p:
                dm = dict(m)
                if common is None:
                    common = dict(dm)
                else:
                    common = {t: min(e, dm[t]) for t, e in common.items() if t in dm}
                if not common:
                    break
            if not common:
                break
        if common:
            def div(p):
                out = {}
                for m, c in p.items():
                    dm = dict(m)
                    for t, e in common.items():
                        dm[t] -= e
                    out[tuple(sorted(((t, e) for t, e in dm.items() if e), key=lambda x: x[0].id))] = c
                return out
            n, d = div(n), div(d)
        lead = d[min(d, key=mono_key)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        if len(n) == len(d) and len(d) > 1:
            # proportional?
            k = None
            for m, c in d.items():
                if m not in n:
                    break
                q = n[m] / c
                if k is None:
                    k = q
                elif k != q:
                    break
            else:
                return ({(): k}, ONE)
    return (n, d)


def mono_key(m):
    return (-sum(e for _, e in m), tuple((t.id, -e) for t, e in m))


def r_add(x, y, s=1):
    if x[1] == y[1]:
        return r_norm(p_add(x[0], y[0], s), x[1])
    return r_norm(p_add(p_mul(x[0], y[1]), p_mul(y[0], x[1]), s), p_mul(x[1], y[1]))


def r_mul(x, y):
    return r_norm(p_mul(x[0], y[0]), p_mul(x[1], y[1]))


def r_inv(x):
    return r_norm(x[1], x[0])


def r_const(c):
    return ({(): Fraction(c)} if c else {}, ONE)


def r_atom(t):
    return ({((t, 1),): Fraction(1)}, ONE)


# ---------------------------------------------------------------- canon
_canon = {}
VALUE_ID = {"float", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", "list", "tuple",
            "numpy.double", "numpy.float64", "copy.copy", "copy.deepcopy", "numpy.asanyarray", "numpy.atleast_1d_", "dict",
            "numpy.longdouble", "numpy.squeeze", "_asrow"}
COMM = {"+", "*"}


def is_strlike(t):
    return is_str(t) or t.op == "str" or (t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("str", "repr", "format"))


def is_seqlike(t):
    return t.op in ("seq", "filt", "append", "concat") or (t.op == "map" and t.args[1].op in ("param_never",))


def to_rat(t):
    """canonical term or raw term -> rational function over canonical atoms"""
    c = canon(t)
    return c_rat(c)


def c_rat(c):
    if c.op == "rat":
        return (dict(c.args[0]), dict(c.args[1]))
    if is_num(c):
        return r_const(c.args[0])
    if is_bool(c):
        return r_const(1 if c.args[0] else 0)
    if c.op == "full" and c.args[1] is not const(1) and c.args[1] is not const(0) and (is_num(c.args[1]) or c.args[1].op not in ("const", "ext")):
        return r_mul(c_rat(c.args[1]), r_atom(mk("full", c.args[0], const(1))))
    return r_atom(c)


def mk_rat(r):
    n, d = r
    if not n:
        return const(0)
    if any(a.op == "full" for a, _ in next(iter(n))):
        f = fold_full(n, d)
        if f is not None:
            return f
    if d == ONE:
        if len(n) == 1:
            (m, c), = n.items()
            if not m:
                return const(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    key = lambda p: tuple(sorted(p.items(), key=lambda mc: mono_key(mc[0])))
    return mk("rat", key(n), key(d))


def fold_full(n, d):
    """an expression in which every term carries the same constant array is one constant array"""
    sh, out = None, {}
    for m, c in n.items():
        fs = [(a, e) for a, e in m if a.op == "full"]
        if len(fs) != 1 or fs[0][1] < 1 or fs[0][0].args[1] is not const(1) or sh is not None and fs[0][0].args[0] is not sh:
            return None
        sh = fs[0][0].args[0]
        k = tuple(x for x in m if x[0] is not fs[0][0])
        out[k] = out.get(k, 0) + c
    out = {m: c for m, c in out.items() if c}
    return mk("full", sh, mk_rat((out, d)))


def rat_subst(t, f):
    def poly(p):
        r = ({}, ONE)
        for m, c in p:
            x = r_const(c)
            for a, e in m:
                b = f(a)
                y = r_atom(a) if b is a else c_rat(canon(b))
                for _ in range(abs(e)):
                    x = r_mul(x, y if e > 0 else r_inv(y))
            r = r_add(r, x)
        return r
    return mk_rat(r_mul(poly(t.args[0]), r_inv(poly(t.args[1]))))


TM.HOOKS["rat"] = rat_subst


def ext(name):
    return mk("ext", name)


def call_name(t):
    if t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0]
    return None


def canon(t):
    r = _canon.get(t)
    if r is None:
        r = _do_canon(t)
        _canon[t] = r
        _canon.setdefault(r, r)
    return r


def unrat(c):
    return c


def _do_canon(t):
    op, a = t.op, t.args
    if op in ("const", "param", "ext", "fv", "bv", "opaque", "rat", "global"):
        return t
    if op == "bin":
        o = a[0]
        x, y = canon(a[1]), canon(a[2])
        if o == "+" and (is_strlike(x) or is_strlike(y)):
            return mk_str([x, y])
        if o == "+" and (is_seqlike(x) or is_seqlike(y)):
            return mk("concat", x, y)
        if o == "%" and is_strlike(x):
            return mk("bin", "%", x, y)
        if o in ("+", "-", "*", "/"):
            rx, ry = c_rat(x), c_rat(y)
            if o == "+":
                return mk_rat(r_add(rx, ry))
            if o == "-":
                return mk_rat(r_add(rx, ry, -1))
            if o == "*":
                return mk_rat(r_mul(rx, ry))
            if not ry[0]:
                return mk("bin", "/", x, y)
            return mk_rat(r_mul(rx, r_inv(ry)))
        if o == "**":
            k = as_int(y)
            if k is not None and abs(k) <= 8:
                r = r_const(1)
                rx = c_rat(x)
                if k < 0 and not rx[0]:
                    return mk("bin", "**", x, y)
                for _ in range(abs(k)):
                    r = r_mul(r, rx)
                if k < 0:
                    r = r_inv(r)
                return mk_rat(r)
            if is_num(y) and y.args[0] == Fraction(1, 2):
                return canon(mk("call", ext("numpy.sqrt"), x))
        return mk("bin", o, x, y)
    if op == "neg":
        return mk_rat(r_mul(r_const(-1), c_rat(canon(a[0]))))
    if op == "str":
        return mk_str([canon(x) for x in a])
    if op == "cmp":
        return canon_cond(t)
    if op == "not":
        c = canon(a[0])
        return neg_c(c)
    if op in ("and", "or"):
        cs = sorted((canon(x) for x in a), key=lambda x: x.id)
        return conj(cs) if op == "and" else disj(cs)
    if op == "ite":
        return ite(canon(a[0]), canon(a[1]), canon(a[2]))
    if op == "call":
        return canon_call(t)
    if op == "sg":
        return canon_sg(canon(a[0]), a[1])
    if op in ("truthy", "isnone"):
        return canon_cond(t)
    if op == "attr":
        b = canon(a[0])
        if a[1] == "size" and b.op == "sub" and b.args[0].op == "param" and b.args[1].op == "seq" and len(b.args[1].args) == 2 and \
                sorted(1 if one_index(x) or x.op in ("rat", "sub") else 2 if x.op == "slice" else 3 for x in b.args[1].args) == [1, 2]:
            return canon(mk("len", b))      # part of a row or of a column of a matrix
        return mk("attr", shape_of(b) if a[1] in ("shape", "ndim", "size") else b, a[1])
    if op in ("sub", "stops", "stopsat") and a[0].op == "mu":
        r = ordered_state(t)
        if r is not t:
            return r
    if op == "sub":
        b = canon(a[0])
        i = canon(a[1])
        if i.op == "rat":
            ln = mk("len", b)
            if contains(i, lambda x: x is ln):
                d = canon(binop("-", i, ln))
                if d.op == "const" and as_int(d) is not None and as_int(d) < 0:
                    i = d
        if i.op == "slice" and all(x is NONE for x in i.args):
            return b
        if i.op == "seq" and i.args and all(x.op == "slice" and all(y is NONE for y in x.args) for x in i.args):
            return b
        if i.op == "seq" and len(i.args) > 1 and i.args[-1].op == "slice" and all(y is NONE for y in i.args[-1].args):
            # trailing full slices select everything
            rest = list(i.args)
            while len(rest) > 1 and rest[-1].op == "slice" and all(y is NONE for y in rest[-1].args):
                rest.pop()
            i = rest[0] if len(rest) == 1 else mk("seq", *rest)
        if call_name(b) == "numpy.reshape" and len(b.args) == 3 and i.op == "seq" and len(i.args) == 2 and b.args[2].op == "kw" \
                and b.args[2].args[1].op == "seq" and len(b.args[2].args[1].args) == 2:
            # the only column or row of a column or row vector
            sh = b.args[2].args[1].args
            for at, along in ((0, 1), (1, 0)):
                if as_one(sh[at]) and as_int(i.args[at]) in (0, -1) and i.args[along].op == "slice" and all(y is NONE for y in i.args[along].args):
                    return mk("call", b.args[0], b.args[1], mk("kw", "shape", mk("seq", sh[along])))
        if b.op == "call" and call_name(b) in POINTWISE and len(b.args) == 2 and b.args[1].op != "kw":
            # an elementwise function of a selection is the selection of the function
            return canon_call(mk("call", b.args[0], canon(mk("sub", b.args[1], i))))
        if i.op != "slice" and call_name(b) == "numpy.transpose" and len(b.args) == 2 and i.op == "seq" and len(i.args) == 2 and all(map(one_index, i.args)):
            return canon(mk("sub", b.args[1], mk("seq", i.args[1], i.args[0])))
        if b.op == "sub" and call_name(b.args[0]) == "numpy.transpose" and len(b.args[0].args) == 2 and one_index(b.args[1]) and one_index(i):
            return canon(mk("sub", b.args[0].args[1], mk("seq", i, b.args[1])))
        if call_name(b) == "numpy.transpose" and len(b.args) == 2 and one_index(i):
            return canon(mk("sub", b.args[1], mk("seq", mk("slice", NONE, NONE, NONE), i)))
        if one_index(i) and b.op == "sub" and b.args[1].op == "seq" and len(b.args[1].args) == 2 and one_index(b.args[1].args[1]) and \
                b.args[1].args[0].op == "slice" and all(y is NONE for y in b.args[1].args[0].args):
            return canon(mk("sub", mk("sub", b.args[0], i), b.args[1].args[1]))
        if i.op == "seq" and len(i.args) > 1 and one_index(i.args[0]) and b.op != "dict":
            # one row first, then what is wanted of it
            return canon(mk("sub", mk("sub", b, i.args[0]), i.args[1] if len(i.args) == 2 else mk("seq", *i.args[1:])))
        if b.op == "attr" and b.args[1] == "shape" and as_int(i) == 0 and i.op == "const":
            return canon(mk("len", b.args[0]))
        if b.op == "rat":
            xs = [x for x in inner(b) if not one_number(x)]
            if xs and (len(set(map(shape_of, xs))) == 1 and not is_num(shape_of(xs[0])) or
                       i.op != "slice" and all(x.op == "map" and x.args[0] is xs[0].args[0] for x in xs)):
                return rat_subst(b, lambda x: x if one_number(x) else mk("sub", x, i))
            if xs and one_index(i) and rows_of(xs) is not None:
                return rat_subst(b, lambda x: x if one_number(x) else mk("sub", column(x) or x, i))
        return mk("sub", b, i)
    if op == "slice":
        x = [canon(y) for y in a]
        if x[0].op == "const" and as_int(x[0]) == 0:
            x[0] = NONE
        if as_int(x[2]) == 1:
            x[2] = NONE
        return mk("slice", *x)
    if op in ("seq",):
        return mk("seq", *[y for y in map(canon, a) if not (y.op == "kw" and y.args[1].op == "absent")])
    if op == "len":
        x = canon(a[0])
        if call_name(x) == "numpy.argsort" and len(x.args) == 2:
            x = x.args[1]
            return canon(length(x))
        if call_name(x) == "numpy.transpose" and len(x.args) == 2:
            return canon(mk("sub", mk("attr", x.args[1], "shape"), const(1)))
        if x.op == "sub" and call_name(x.args[0]) == "numpy.transpose" and len(x.args[0].args) == 2 and one_index(x.args[1]):
            return canon(mk("len", x.args[0].args[1]))
        if x.op == "sub" and x.args[1].op == "seq" and len(x.args[1].args) == 2 and one_index(x.args[1].args[1]) and \
                x.args[1].args[0].op == "slice" and all(y is NONE for y in x.args[1].args[0].args):
            return canon(mk("len", x.args[0]))
        y = shape_of(x)
        if y.op == "rat":
            xs = [z for z in inner(y) if not one_number(z)]
            if xs and rows_of(xs) is not None:
                return canon(rows_of(xs))
        return mk("len", y)
    if op == "exc":
        # an interrupt is not an outcome of evaluating an expression: a bare handler and one for Exception see the same failures
        xs = {const("Exception") if x is const("BaseException") else canon(x) for x in a}
        # an interpolant that does not check bounds evaluates without error: only its construction may fail
        xs = {x.args[0] if x.op == "call" and x.args[0].op == "call" and call_name(x.args[0]) == "scipy.interpolate.interp1d" and
              mk("kw", "bounds_error", FALSE) in x.args[0].args else x for x in xs}
        y = next((x for x in xs if x.op == "attr"), None)
        if len(xs) == 2 and y is not None and const("AttributeError") in xs and y.args[0].op == "param":
            return neg_c(mk("truthy", mk("call", ext("hasattr"), y.args[0], const(y.args[1]))))
        return mk("exc", *sorted(xs, key=lambda x: x.id))
    if op == "concat":
        return canon_concat(a)
    if op == "seq" and any(isinstance(x, T) and x.op == "star" for x in a):
        # [*a, b] is a + [b]
        return canon_concat([x.args[0] if x.op == "star" else mk("seq", x) for x in a])
    if op == "upd":
        d, k, x = canon(a[0]), canon(a[1]), canon(a[2])
        if d.op == "dict" and not d.args:
            return mk("dict", k, x)
        if k.op == "seq" and len(k.args) > 1:
            # trailing full slices select everything
            rest = list(k.args)
            while len(rest) > 1 and rest[-1].op == "slice" and all(y is NONE for y in rest[-1].args):
                rest.pop()
            k = rest[0] if len(rest) == 1 else mk("seq", *rest)
        if x.op == "upd" and x.args[1].op not in BOOLS and k.op != "slice" and same(x.args[0], canon(mk("sub", d, k))):
            # a store into an element is a store into the array
            j = list(x.args[1].args) if x.args[1].op == "seq" else [x.args[1]]
            return canon(mk("upd", d, mk("seq", *((list(k.args) if k.op == "seq" else [k]) + j)), x.args[2])) if k.op != "seq" or \
                not any(y.op == "slice" for y in k.args) else mk("upd", d, k, x)
        return mk("upd", d, k, x)
    if op == "minlen":
        xs = sorted({canon(x) for x in a}, key=lambda x: x.id)
        return xs[0] if len(xs) == 1 else mk("minlen", *xs)
    if op in TM.BINDERS:
        if op == "map":
            return canon_map(t)
        v, args = canon_open(t)
        if op == "sum":
            # linearity: pull constants out is not needed; normalise sum of zero
            if is_num(args[1]) and args[1].args[0] == 0:
                return const(0)
        if op in ("exists", "filt", "runbest", "runwhich", "uniq") and (args[1].op in ("and", "or", "not") or args[1].op == "ite" and all(x.op in BOOLS or is_bool(x) for x in args[1].args)):
            args[1] = canon_bool(args[1])
            if op == "exists" and args[1] is FALSE:
                return FALSE
        if op == "filt":
            args[2] = found_best(args[1], args[2])
        if op == "mu" and args[2].op == "lam":
            z = fresh_at(args[2].h + 1)
            body = open_binder(args[2], z)[0]
            if body.op == "seq":
                # conditions among what is carried along, in one form
                new = [canon_bool(x) if x.op in ("and", "or", "not") or x.op == "ite" and all(y.op in BOOLS or is_bool(y) for y in x.args[1:]) else x for x in body.args]
                if any(x is not y for x, y in zip(new, body.args)):
                    args[2] = binder("lam", z, mk("seq", *new))
        if op == "fill":
            n, old, i, x = args
            if x.op == "upd" and x.args[1].op not in BOOLS and i.op != "slice" and same(x.args[0], canon(mk("sub", old, i))) and not \
                    (i.op == "seq" and any(y.op == "slice" for y in i.args)):
                # a store into an element is a store into the array
                j = list(x.args[1].args) if x.args[1].op == "seq" else [x.args[1]]
                args[2], args[3] = mk("seq", *((list(i.args) if i.op == "seq" else [i]) + j)), x.args[2]
            elif i is v and same(n, canon(mk("len", old))):
                return canon(binder("map", v, n, x))
        return binder(op, v, *args)
    return mk(op, *[canon(x) if isinstance(x, T) else x for x in a])


def found_best(cond, x):
    """which one was the best does not depend on where the search started, once something better was found"""
    known = cond.args if cond.op == "and" else (cond,)
    m = {}
    todo, seen = [x], set()
    while todo:
        w = todo.pop()
        if w in seen:
            continue
        seen.add(w)
        todo.extend(inner(w))
        if w.op == "runwhich" and w.args[5] is not NONE and improved(w) in known:
            m[w] = mk("runwhich", *w.args[:5], NONE, *w.args[6:])
    return canon(TM.subst(x, m)) if m else x


def improved(w):
    """condition that the search found something better than what it started from"""
    n, g, x, e, best, which, kind = w.args
    return canon_cond(mk("cmp", "!=", mk("runbest", n, g, x, best, kind), best))


BOOLS = {"sg", "eqc", "truthy", "isnone", "exc", "exists", "isinst", "in", "eq", "asbool", "and", "or", "not"}
NUMBERS = {"numpy.pi", "numpy.e", "numpy.inf", "math.pi", "math.e"}


def one_number(x):
    """x is a single number, whatever the shape of the arrays beside it"""
    return x.op == "ext" and x.args[0] in NUMBERS or \
        x.op == "attr" and x.args[1] in ("_x", "_y", "_z", "_dt", "_delay") or x.op == "param" and len(x.args) > 1 or \
        call_name(x) in ("numpy.mean", "numpy.max", "numpy.min", "numpy.sum") and len(x.args) == 2 and x.args[1].op != "kw"


def one_index(i):
    """an index that selects one entry"""
    if i.op in ("bv", "fv"):
        return True
    if i.op == "const":
        return as_int(i) is not None and not isinstance(i.args[0], bool)
    if i.op == "runwhich":
        return True
    return i.op == "rat" and all(one_index(x) or x.op == "len" for x in inner(i))


def shape_of(x):
    """a term with the same shape as x"""
    while x.op == "call" and call_name(x) in POINTWISE and len(x.args) == 2 and x.args[1].op != "kw":
        x = x.args[1]
    if x.op == "attr" and x.args[1] in PEERS:
        return mk("attr", x.args[0], "_valid")
    return x


# the arrays of one Peaks object hold one entry per peak
PEERS = {"_valid", "_frequency", "_velocity", "_azimuth", "_ellipticity", "_noise", "_power", "_slowness", "azimuth", "ellipticity", "noise", "power"}


def canon_concat(xs):
    """flatten, and let a literal prefix be absorbed by the comprehension it continues:
    [f(0)] + [f(i+1) for i in range(n-1)] is [f(i) for i in range(n)]; works on raw terms"""
    out = []

    def flat(x):
        if x.op == "concat":
            for y in x.args:
                yield from flat(y)
        elif x.op == "ite" or x.op == "attr":
            yield x
        else:
            yield x
    for x in xs:
        for y in flat(x):
            if y.op == "seq" and not y.args:
                continue
            if out and out[-1].op == "seq" and y.op == "seq":
                out[-1] = mk("seq", *(out[-1].args + y.args))
            else:
                out.append(y)
    i = 0
    while i + 1 < len(out):
        s, m = out[i], out[i + 1]
        if s.op == "seq" and m.op == "map" and not any(z.op == "star" for z in s.args):
            j = len(s.args)
            v = fresh()
            body = open_binder(m, binop("-", v, const(j)))[1]
            if all(same(canon(subst(body, {v: const(q)})), canon(s.args[q])) for q in range(j)):
                out[i:i + 2] = [binder("map", v, binop("+", m.args[0], const(j)), body)]
                continue
        i += 1
    if not out:
        return mk("seq")
    out = [canon(x) for x in out]
    return out[0] if len(out) == 1 else mk("concat", *out)


def canon_bool(k):
    """disjunctive normal form read off the ordered decision diagram of k (unique for k)"""
    k = absorb(k, {}, frozenset())
    atoms = sorted(set(cond_atoms(k)), key=lambda x: (x.args[0].id if x.op == "sg" else x.id, x.id))
    if len(atoms) > 10:
        return k
    memo, paths = {}, []

    def build(A, depth):
        if depth[0] > 300:
            raise Budget("diagram")
        depth[0] += 1
        v = eval_atom(k, A)
        if v is not None:
            return v
        for a in atoms:
            if A.value(a) is None:
                kids = []
                for lab, B in A.splits(a):
                    kids.append((lab, build(B, depth)))
                if all(c == kids[0][1] for _, c in kids):
                    return kids[0][1]
                return (a, tuple(kids))
        return None

    def lits(n, acc):
        if n is True:
            paths.append(list(acc))
            return
        if n is False or n is None:
            return
        a, kids = n
        merged = {}
        for lab, c in kids:
            merged.setdefault(repr_node(c), (c, []))[1].append(lab)
        for c, labs in merged.values():
            if a.op == "sg":
                lit = mk("sg", a.args[0], frozenset(labs))
            elif a.op == "eqc":
                lit = a if labs[0].startswith("==") else neg_c(a)
            else:
                lit = a if labs[0] is True else neg_c(a)
            lits(c, acc + [lit])

    def repr_node(n):
        if not isinstance(n, tuple):
            return n
        return (n[0].id, tuple((l, repr_node(c)) for l, c in n[1]))
    try:
        lits(build(Assign(), [0]), [])
    except Budget:
        return k
    ds = [conj(sorted(x, key=lambda z: z.id)) for x in paths]
    return absorb(disj(sorted(ds, key=lambda z: z.id)), {}, frozenset())


def absorb(k, signs, true):
    """unit propagation: a | (~a & b) is a | b, a & (~a | b) is a & b"""
    if k.op == "sg":
        have = signs.get(k.args[0])
        if have is not None:
            if have <= k.args[1]:
                return TRUE
            if not have & k.args[1]:
                return FALSE
        return k
    if k.op not in ("and", "or"):
        return TRUE if k in true else FALSE if neg_c(k) in true else k
    dual = k.op == "or"
    join = disj if dual else conj
    parts = list(k.args)
    while True:
        flat = []
        for x in parts:
            flat.extend(x.args if x.op == k.op else [x])
        parts = flat
        sg, tr, lits = dict(signs), set(true), []
        for x in parts:
            if x.op in ("and", "or"):
                continue
            y = absorb(x, sg, tr)
            if y.op == "const":
                if (y is TRUE) == dual:
                    return y
                continue
            lits.append(y)
            z = neg_c(y) if dual else y
            if z.op == "sg":
                sg[z.args[0]] = sg.get(z.args[0], frozenset("-0+")) & z.args[1]
                if not sg[z.args[0]]:
                    return TRUE if dual else FALSE
            else:
                tr.add(z)
        rest = [absorb(x, sg, tr) for x in parts if x.op in ("and", "or")]
        if any(x.op not in ("and", "or") or x.op == k.op for x in rest):
            parts = lits + rest
            if any(x.op == "const" and (x is TRUE) == dual for x in rest):
                return TRUE if dual else FALSE
            parts = [x for x in parts if x.op != "const"]
            continue
        return join(sorted(lits + rest, key=lambda z: z.id))


def ordered_state(t):
    """what a loop carries along has no order of its own"""
    z, k = fresh(), fresh()
    n, ini, lam = open_binder(t.args[0], k)
    if ini.op != "seq" or lam.op != "lam" or t.op == "sub" and as_int(t.args[1]) is None:
        return t
    body = open_binder(lam, z)[0]
    extra = 0 if t.op == "sub" else 1
    m = len(ini.args)
    if m < 2 or body.op != "seq" or len(body.args) != m + extra:
        return t
    blind = {sub(z, const(j)): const("state") for j in range(m)}
    key = [(canon(ini.args[j]).id, canon(subst(body.args[j + extra], blind)).id) for j in range(m)]
    to = sorted(range(m), key=lambda j: key[j])
    if to == list(range(m)):
        return t
    where = {j: q for q, j in enumerate(to)}
    y = fresh()
    body = subst(mk("seq", *(body.args[:extra] + tuple(body.args[j + extra] for j in to))), {sub(z, const(j)): sub(y, const(where[j])) for j in range(m)})
    mu = binder("mu", k, n, mk("seq", *[ini.args[j] for j in to]), binder("lam", y, body))
    return canon(mk("sub", mu, const(where[as_int(t.args[1])])) if t.op == "sub" else mk(t.op, mu))


def canon_open(t):
    """canonical operands of a binder under a variable that depends only on the canonical form"""
    def at(h):
        v = fresh_at(h)
        while v in t.fvs:
            h += 1000
            v = fresh_at(h)
        return v, [canon(x) if isinstance(x, T) else x for x in open_binder(t, v)]
    v, args = at(t.h)
    h = max((x.h for x in args if isinstance(x, T)), default=0) + 1
    if h != t.h:
        v, args = at(h)
    return v, args


def column(x):
    """the values of x[:, np.newaxis]"""
    if x.op == "sub" and x.args[1].op == "seq" and len(x.args[1].args) == 2 and x.args[1].args[1] is NONE and \
            x.args[1].args[0].op == "slice" and all(y is NONE for y in x.args[1].args[0].args):
        return x.args[0]
    return None


def rows_of(xs):
    """the number of rows, where every one of these has as many: tables given row by row, and columns"""
    n = [x.args[0] for x in xs if x.op == "map"]
    if n and all(x.op == "map" or column(x) is not None for x in xs):
        n += [canon(length(column(x))) for x in xs if x.op != "map"]
        if all(y is n[0] for y in n):
            return n[0]
    return None


def canon_map(t):
    """[f(g(k)) for k] -> f([g(k) for k]) for element-wise f: loops and whole-array arithmetic
    over the same elements get one normal form"""
    v, (n, body) = canon_open(t)

    def wrap(e):
        if v not in e.fvs:
            return e
        return canon_atomic_map(n, v, e)

    def cond(c):
        if v not in c.fvs:
            return c
        if c.op in ("and", "or"):
            xs = sorted((cond(x) for x in c.args), key=lambda x: x.id)
            return conj(xs) if c.op == "and" else disj(xs)
        if c.op == "not":
            return neg_c(cond(c.args[0]))
        if c.op == "sg":
            p = pw(c.args[0])
            return canon_sg(p, c.args[1])
        return c if False else mk("mapcond", n, wrap(c))

    def pw(e):
        if v not in e.fvs:
            return e
        if e.op == "rat":
            num, den = e.args
            return mk_rat(r_mul(poly(num), r_inv(poly(den))))
        if e.op == "ite":
            return ite(cond(e.args[0]), pw(e.args[1]), pw(e.args[2]))
        if e.op == "call" and call_name(e) in POINTWISE and len(e.args) == 2:
            return canon_call(mk("call", e.args[0], pw(e.args[1])))
        return wrap(e)

    def poly(p):
        r = ({}, ONE)
        for m, c in p:
            x = r_const(c)
            for a_, e_ in m:
                y = c_rat(pw(a_)) if v in a_.fvs else r_atom(a_)
                for _ in range(abs(e_)):
                    x = r_mul(x, y if e_ > 0 else r_inv(y))
            r = r_add(r, x)
        return r
    if v not in body.fvs:
        return mk("map", n, body)
    if n.op == "len" and n.args[0].op == "uniq" and n.args[0].args[4] is mk("seq"):
        # what is made of each distinct key, in order of first appearance
        u = n.args[0]
        w = fresh_at(-1)
        _, c, key, val, _ = open_binder(u, w)
        if key is val:
            b = subst(body, {mk("sub", u, v): key})
            if v not in b.fvs:
                return canon(binder("uniq", w, u.args[0], c, key, b, u.args[4]))
    if n.op == "len" and n.args[0].op == "filt":
        # picked by the indices that were picked
        w = fresh_at(-1)
        _, c, _ = open_binder(n.args[0], w)
        done = {}
        for x in walk(body):
            if x.op == "sub" and x.args[1] is v and x.args[0].op == "filt" and v not in x.args[0].fvs:
                m, c_, e = open_binder(x.args[0], w)
                if m is n.args[0].args[0] and c_ is c:
                    done[x] = e
        if done:
            b = subst(body, done)
            if v not in b.fvs:
                return canon(binder("filt", w, n.args[0].args[0], c, b))
    if body.op in ("rat", "ite") or (body.op == "call" and call_name(body) in POINTWISE):
        return pw(body)
    return wrap(body)


def canon_sg(p, signs):
    n, d = c_rat(p)
    if d != ONE or not n or (len(n) == 1 and () in n):
        return mk("sg", p, signs)
    key = min((m for m in n if m), key=mono_key)
    lead = n[key]
    s = signs
    if lead < 0:
        s = flip(s)
    n = {m: c / lead for m, c in n.items()}
    return mk("sg", mk_rat((n, d)), s)


def canon_atomic_map(n, v, e):
    if e.op == "sub" and e.args[1] is v and v not in e.args[0].fvs and canon(length(e.args[0])) is n:
        return e.args[0]
    return binder("map", v, n, e)


_fresh_at = {}


def fresh_at(h):
    """a reserved variable per binder height (keeps canonical forms stable)"""
    r = _fresh_at.get(h)
    if r is None:
        r = _fresh_at[h] = mk("fv", -100000 - h)
    return r


POINTWISE = {"abs", "numpy.sqrt", "numpy.log", "numpy.exp", "numpy.log10", "numpy.conjugate", "numpy.isnan", "numpy.cos", "numpy.sin", "numpy.real", "numpy.imag", "numpy.angle"}


def mk_sg(p, s):
    """sign condition; signs a quantity that is never negative cannot have are dropped"""
    b, c, _ = split_const(p)
    if c <= 0 and nonneg(b):
        s = s - {"-"} if c == 0 else s - {"-", "0"}
        if not s or c < 0:
            return const(bool(s))
        if len(s) == 2:
            return TRUE
        if c == 0 and b.op == "rat" and b.args[1] == tuple(ONE.items()) and len(b.args[0]) > 1 and all(len(m) == 1 and m[0][1] == 1 for m, _ in b.args[0]):
            # quantities that are never negative add up to zero when each of them is zero
            xs = sorted((canon_cond(mk("cmp", "==", m[0][0], const(0))) for m, _ in b.args[0]), key=lambda x: x.id)
            return conj(xs) if s == frozenset("0") else disj(sorted(map(neg_c, xs), key=lambda x: x.id))
    return mk("sg", p, s)


def neg_c(c):
    if c.op == "sg":
        return mk_sg(c.args[0], frozenset("-0+") - c.args[1])
    if c.op == "and":
        return disj(sorted((neg_c(x) for x in c.args), key=lambda x: x.id))
    if c.op == "or":
        return conj(sorted((neg_c(x) for x in c.args), key=lambda x: x.id))
    return neg(c)


def mk_str(parts):
    out = []
    for p in parts:
        if p.op == "str":
            ps = list(p.args)
        else:
            if call_name(p) == "str" and len(p.args) == 2:
                p = p.args[1]
            ps = [p]
        for q in ps:
            if is_str(q) and out and is_str(out[-1]):
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif is_str(q) and q.args[0] == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("str", *out)


def as_one(x):
    return is_num(x) and x.args[0] == 1


def canon_call(t):
    a = t.args
    f = canon(a[0])
    args = []
    for x in a[1:]:
        if x.op == "kw":
            y = canon(x.args[1])
            if y.op != "absent":
                args.append(mk("kw", x.args[0], y))
        else:
            args.append(canon(x))
    name = f.args[0] if f.op == "ext" else None
    if name == "numpy.ravel" and len(args) == 1 and TM.places(args[0]) is not None:
        return canon(TM.places(args[0]))
    if name in VALUE_ID:
        pos = [x for x in args if x.op != "kw"]
        kws = {x.args[0]: x.args[1] for x in args if x.op == "kw"}
        kws.pop("copy", None)
        dt = kws.pop("dtype", None)
        if len(pos) == 2 and dt is None:
            dt = pos.pop()
        if len(pos) == 1 and not kws:
            d = dtype_of(dt)
            if d == "int":
                return canon(mk("call", ext("int"), pos[0]))
            if d == "bool":
                return canon_cond(mk("truthy", pos[0])) if False else mk("asbool", pos[0])
            return pos[0]
        if not pos and not kws and name in ("list", "tuple"):
            return mk("seq")
    if name == "abs" and len(args) == 1:
        n, d = c_rat(args[0])
        if not n:
            return const(0)
        lead = n[min(n, key=mono_key)]
        if lead < 0:
            n = {m: -c for m, c in n.items()}
        if d == ONE and len(n) == 1 and () in n:
            return const(n[()])
        return mk("call", f, mk_rat((n, d)))
    if name == "int" and len(args) == 1:
        x = args[0]
        if is_num(x):
            return const(Fraction(int(x.args[0])))
        if integral(x):
            return x
        if x.op == "rat":
            # the quotient of two counts, cut to a whole number
            n, d = (mk_rat((dict(p), ONE)) for p in x.args)
            if d is not const(1) and integral(n) and integral(d):
                return canon(binop("//", n, d))
    if name == "round" and len(args) == 1 and integral(args[0]):
        return args[0]
    if f.op == "attr" and f.args[1] in ("capitalize", "lower", "upper", "title", "strip") and is_str(f.args[0]) and not args:
        return const(getattr(f.args[0].args[0], f.args[1])())
    if f.op == "attr" and f.args[1] == "join" and is_str(f.args[0]) and len(args) == 1:
        n = groups_of(args[0])
        if n:
            out = []
            for i in range(n):
                out += ([f.args[0]] if i else []) + [mk("sub", args[0], const(i))]
            return mk_str(out)
    if name in ("numpy.diff",) and len(args) == 1:
        x = args[0]
        return canon(binop("-", TM.sub(x, mk("slice", const(1), NONE, NONE)), TM.sub(x, mk("slice", NONE, const(-1), NONE))))
    if name == "numpy.sum" and len(args) == 1 and args[0].op == "not" and args[0].args[0].op == "truthy" and call_name(args[0].args[0].args[0]) == "numpy.isnan" \
            and len(args[0].args[0].args[0].args) == 2:
        # numbers are what is not missing
        x = args[0].args[0].args[0].args[1]
        one = x.op == "sub" and x.args[1].op not in ("slice", "seq") or x.op in ("filt", "map")
        return canon(binop("-", length(x) if one else mk("attr", x, "size"), mk("call", f, args[0].args[0].args[0])))
    kws = sorted((x for x in args if x.op == "kw"), key=lambda x: x.args[0])
    pos = [x for x in args if x.op != "kw"]
    if name == "numpy.reshape" and len(kws) == 1 and kws[0].args[0] == "shape" and kws[0].args[1].op == "seq" and len(kws[0].args[1].args) == 2:
        # a column (row) has as many entries as there are
        r, c = kws[0].args[1].args
        if c is const(1) and r is not const(1):
            kws = [mk("kw", "shape", mk("seq", const(-1), const(1)))]
        elif r is const(1) and c is not const(1):
            kws = [mk("kw", "shape", mk("seq", const(1), const(-1)))]
    if len(pos) == 1 and call_name(pos[0]) == "numpy.reshape" and len(pos[0].args) == 3:
        inner, sh = pos[0].args[1], pos[0].args[2]
        if name == "numpy.reshape" and len(kws) == 1:
            return mk("call", f, inner, kws[0])
        if name in POINTWISE and not kws:
            return canon(mk("call", pos[0].args[0], mk("call", f, inner), sh))
        if name == "numpy.transpose" and not kws and sh.op == "kw" and sh.args[1].op == "seq" and len(sh.args[1].args) == 2 \
                and any(as_one(x) for x in sh.args[1].args):
            return mk("call", pos[0].args[0], inner, mk("kw", sh.args[0], mk("seq", *reversed(sh.args[1].args))))
    if name in ("numpy.dot", "numpy.matmul"):
        f = ext("numpy.matmul")
        if len(pos) == 2 and not kws:
            # a product of matrices does not depend on the bracketing
            chain = []
            for x in pos:
                todo = [x]
                while todo:
                    y = todo.pop()
                    if y.op == "call" and y.args[0] is f and len(y.args) == 3:
                        todo += [y.args[2], y.args[1]]
                    else:
                        chain.append(y)
            r = chain[0]
            for y in chain[1:]:
                r = mk("call", f, r, y)
            return r
    return mk("call", f, *(pos + kws))


def groups_of(x):
    """number of groups if x is what a match of a literal pattern gives as .groups()"""
    if x.op == "call" and len(x.args) == 1 and x.args[0].op == "attr" and x.args[0].args[1] == "groups":
        y = x.args[0].args[0]
        if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] in ("search", "match", "fullmatch"):
            z = y.args[0].args[0]
            if call_name(z) == "re.compile" and len(z.args) == 2 and is_str(z.args[1]):
                try:
                    return re.compile(z.args[1].args[0]).groups
                except re.error:
                    return None
    return None


def dtype_of(d):
    if d is None:
        return None
    n = d.args[0] if d.op in ("ext", "const") else None
    if n in ("int", "numpy.int64", "numpy.int32", "numpy.intp", "numpy.int_"):
        return "int"
    if n in ("bool", "numpy.bool_", "numpy.bool"):
        return "bool"
    if n in ("complex", "numpy.complex128"):
        return "complex"
    return "float"


INTEGRAL_CALLS = {"int", "len", "numpy.argmin", "numpy.argmax", "numpy.ceil", "numpy.floor", "math.ceil", "math.floor"}


def integral(c):
    if is_num(c):
        return c.args[0].denominator == 1
    if c.op == "rat":
        if c.args[1] != tuple(ONE.items()):
            return False
        return all(co.denominator == 1 and all(integral(t) and e > 0 for t, e in m) for m, co in c.args[0])
    if c.op in ("len",):
        return True
    if call_name(c) in INTEGRAL_CALLS:
        return True
    if call_name(c) == "round" and len(c.args) == 2:
        return True
    if call_name(c) == "abs":
        return integral(c.args[1])
    if c.op == "sub" and c.args[0].op == "attr" and c.args[0].args[1] == "shape":
        return True
    if c.op == "bin" and c.args[0] in ("//", "%"):
        return integral(c.args[1]) and integral(c.args[2])
    if c.op in ("bv", "fv"):
        return True
    if c.op == "attr" and c.args[1] in ("size", "ndim"):
        return True
    if c.op == "ite":
        return integral(c.args[1]) and integral(c.args[2])
    if c.op == "sub" and c.args[0].op == "mu":
        return integral_state(c)
    return False


def integral_state(t):
    """a carried number that starts whole and stays whole"""
    r = WHOLE.get(t)
    if r is None:
        WHOLE[t] = False
        mu, j = t.args[0], as_int(t.args[1])
        z, k = fresh(), fresh()
        n, ini, lam = open_binder(mu, k)
        r = False
        if j is not None and ini.op == "seq" and lam.op == "lam" and 0 <= j < len(ini.args) and integral(ini.args[j]):
            body = open_binder(lam, z)[0]
            if body.op == "seq" and len(body.args) == len(ini.args):
                whole = fresh()
                r = integral(canon(subst(body.args[j], {sub(z, const(j)): whole})))
        WHOLE[t] = r
    return r


WHOLE = {}


def flip(s):
    return frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in s)


RELS = {"<": "-", "<=": "-0", ">": "+", ">=": "+0", "==": "0", "!=": "-+"}


def canon_cond(t):
    """cmp / truthy / isnone -> canonical atom (or boolean constant)"""
    if t.op == "truthy":
        x = canon(t.args[0])
        if x.op == "const":
            return const(bool(x.args[0]))
        if x.op in ("sg", "and", "or", "not", "isnone", "exists", "exc", "eqc", "asbool", "isinst", "in"):
            return x
        if x.op == "ite":
            return ite(canon(x.args[0]), canon_cond(mk("truthy", x.args[1])), canon_cond(mk("truthy", x.args[2])))
        if x.op == "len" or integral(x) or x.op == "rat":
            return canon_cond(mk("cmp", "!=", x, const(0)))
        if x.op in ("seq",):
            return const(len(x.args) > 0)
        if call_name(x) in ("numpy.any", "numpy.all") and len(x.args) == 2:
            c = x.args[1]
            if call_name(c) == "numpy.isnan" or c.op in ("sg", "and", "or", "not", "truthy"):
                if call_name(x) == "numpy.any":
                    return canon_cond(mk("cmp", "!=", mk("call", ext("numpy.sum"), c), const(0)))
                return canon_cond(mk("cmp", "==", mk("call", ext("numpy.sum"), neg_c(c if call_name(c) != "numpy.isnan" else canon_cond(mk("truthy", c)))), const(0)))
        if x.op in ("filt", "append", "map"):
            return canon_cond(mk("cmp", ">", length(x), const(0)))
        return mk("truthy", x)
    if t.op == "isnone":
        x = canon(t.args[0])
        if x.op == "const":
            return const(x.args[0] is None)
        if x.op in ("seq", "map", "filt", "rat", "sg", "obj", "dict", "str", "cls", "fn"):
            return FALSE
        if call_name(x) and call_name(x).startswith("numpy."):
            return FALSE
        if x.op == "runwhich" and x.args[6].args[0] in ("<", ">") and x.args[3].op in ("bv", "const", "rat") and x.args[3] is not NONE:
            if x.args[5] is NONE:
                return neg_c(improved(x))
            if x.args[5].op in ("const", "rat"):
                return FALSE
        return mk("isnone", x)
    o, l, r = t.args
    x, y = canon(l), canon(r)
    if x.op == "const" and y.op == "const":
        z = cmp_(o, x, y)
        if z.op == "const":
            return z
    if o in ("==", "!="):
        for u, v in ((x, y), (y, x)):
            if v.op == "const" and not isinstance(v.args[0], Fraction):
                if isinstance(v.args[0], bool):
                    at = mk("truthy", u) if u.op not in ("sg", "and", "or", "not", "isnone", "exists", "exc", "eqc", "asbool") else u
                    r_ = at if v.args[0] else neg_c(at)
                    return r_ if o == "==" else neg_c(r_)
                if v.args[0] is None:
                    r_ = canon_cond(mk("isnone", u))
                    return r_ if o == "==" else neg_c(r_)
                if is_num(u) or u.op in ("rat", "seq"):
                    return const(o == "!=")
                r_ = mk("eqc", u, v)
                return r_ if o == "==" else neg_c(r_)
        if x.op in ("seq", "dict", "str", "cls", "obj") or y.op in ("seq", "dict", "str", "cls", "obj"):
            if x is y:
                return const(o == "==")
            if x.op == "seq" and y.op == "seq" and not any(q.op == "star" for q in x.args + y.args):
                if len(x.args) != len(y.args):
                    return const(o == "!=")
                r_ = canon(conj([mk("cmp", "==", p, q) for p, q in zip(x.args, y.args)]))
                return r_ if o == "==" else neg_c(r_)
            p, q = sorted((x, y), key=lambda z: z.id)
            r_ = mk("eq", p, q)
            return r_ if o == "==" else neg_c(r_)
    n, d = r_add(c_rat(x), c_rat(y), -1)
    if not n:
        return const(o in ("==", "<=", ">="))
    s = frozenset(RELS[o])
    if d == ONE:
        if len(n) == 1 and () in n:
            return const(("+" if n[()] > 0 else "-") in s)
        key = min((m for m in n if m), key=mono_key)
        lead = n[key]
        if lead < 0:
            s = flip(s)
        n = {m: c / lead for m, c in n.items()}
        return mk_sg(mk_rat((n, d)), s)
    if o in ("==", "!="):
        key = min(n, key=mono_key)
        n = {m: c / n[key] for m, c in n.items()}
        return mk("sg", mk_rat((n, ONE)), s)
    key = min(n, key=mono_key)
    lead = n[key]
    if lead < 0:
        s = flip(s)
    n = {m: c / abs(lead) * (1 if lead > 0 else 1) for m, c in n.items()} if lead > 0 else {m: c / lead for m, c in n.items()}
    return mk("sg", mk_rat((n, d)), s)


# ---------------------------------------------------------------- assignments
def split_const(p):
    """sign atom poly -> (base key T, c, integral) meaning sign(base - c)"""
    n, d = c_rat(p)
    if d != ONE:
        return (p, Fraction(0), False)
    c = -n.get((), Fraction(0))
    base = {m: v for m, v in n.items() if m}
    b = mk_rat((base, ONE))
    return (b, c, integral(b))


def nonneg(b):
    if b.op == "len" or call_name(b) in ("len", "abs", "numpy.sqrt"):
        return True
    if b.op in ("bv", "fv"):
        return True
    if b.op == "attr" and b.args[1] in ("size", "ndim"):
        return True
    if b.op == "sub" and b.args[0].op == "attr" and b.args[0].args[1] == "shape":
        return True
    if call_name(b) == "numpy.isnan" or call_name(b) in ("numpy.sum", "numpy.mean", "int", "float") and len(b.args) > 1 and b.args[1].op != "kw" and nonneg(b.args[1]):
        return True
    if b.op == "rat" and b.args[1] == tuple(ONE.items()):
        return all(c > 0 and all(e > 0 and nonneg(x) for x, e in m) for m, c in b.args[0])
    return False


class Assign:
    """A consistent region: interval per linear base, booleans, equal-to-constant facts."""
    __slots__ = ("iv", "bo", "eq", "memo")

    def __init__(self, iv=None, bo=None, eq=None):
        self.memo = {}
        self.iv = iv or {}
        self.bo = bo or {}
        self.eq = eq or {}

    def sign(self, p):
        b, c, integ = split_const(p)
        pos = self.sign_of(b, c, integ)
        if b.op == "len" and self.iv:
            for x in self.lengths().get(b, ()):
                if x is not b:
                    pos = pos & self.sign_of(x, c, True)
        return pos

    def sign_of(self, b, c, integ):
        lo, ls, hi, hs = self.iv.get(b, (Fraction(0), False, None, False) if nonneg(b) else (None, False, None, False))
        pos = {"-", "0", "+"}
        if lo is not None:
            if lo > c or (lo == c and ls):
                pos -= {"-", "0"}
            elif lo == c:
                pos -= {"-"}
            elif integ and ls and lo + 1 > c:
                pos -= {"-", "0"}
            elif integ and ls and lo + 1 == c:
                pos -= {"-"}
        if hi is not None:
            if hi < c or (hi == c and hs):
                pos -= {"+", "0"}
            elif hi == c:
                pos -= {"+"}
            elif integ and hs and hi - 1 < c:
                pos -= {"+", "0"}
            elif integ and hs and hi - 1 == c:
                pos -= {"+"}
        if c.denominator != 1 and integ:
            pos -= {"0"}
        if len(pos) > 1 and c == 0 and (b.op in ("rat", "bin") or call_name(b) in ("round", "int")):
            pos = pos & self.made_of(b)
            if len(pos) > 1 and b.op == "rat":
                pos = pos & self.over_rest(b)
        return pos

    def made_of(self, t):
        """the signs t can have, from the signs of its parts"""
        if t.op == "const":
            v = t.args[0]
            return {"+" if v > 0 else "-" if v < 0 else "0"} if isinstance(v, Fraction) else {"-", "0", "+"}
        k = ("made", t)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = {"-", "0", "+"}
        if t.op == "rat":
            r = None
            for p in c_rat(t):
                q = None
                for m, w in p.items():
                    s = {"+" if w > 0 else "-"}
                    for x, e in m:
                        if e.denominator != 1 if isinstance(e, Fraction) else not isinstance(e, int):
                            s = {"-", "0", "+"}
                            break
                        z = self.sign_of(x, Fraction(0), integral(x))
                        if e % 2 == 0:
                            z = {"0" if y == "0" else "+" for y in z}
                        s = {"0" if "0" in (u, v) else "+" if u == v else "-" for u in s for v in z}
                    q = s if q is None else {u if v == "0" else v if u == "0" else u if u == v else None for u in q for v in s}
                    if None in q:
                        q = {"-", "0", "+"}
                        break
                q = q if q is not None else {"0"}
                r = q if r is None else {"0" if u == "0" else "+" if u == v else "-" for u in r for v in q - {"0"}}
            r = r or {"-", "0", "+"}
        elif call_name(t) in ("round", "int") and len(t.args) == 2:
            r = (self.made_of(t.args[1]) if t.args[1].op in ("rat", "const") else self.sign_of(t.args[1], Fraction(0), False)) | {"0"}
        elif t.op == "bin" and t.args[0] == "%":
            y = t.args[2]
            r = (self.made_of(y) if y.op in ("rat", "const") else self.sign_of(y, Fraction(0), integral(y))) | {"0"}
        self.memo[k] = r
        return r

    def over_rest(self, b):
        """sign of y - x % y: the remainder lies between 0 and the divisor"""
        n, d = c_rat(b)
        if d == ONE:
            for m, k in n.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bin" and m[0][0].args[0] == "%" and abs(k) == 1:
                    r, y = m[0][0], m[0][0].args[2]
                    rest = {u: w * -k for u, w in n.items() if u != m}
                    if canon(mk_rat((rest, ONE))) is canon(y):
                        pos = set()
                        for z in (y, r):
                            s = self.sign_of(z, Fraction(0), integral(z)) if z.op != "rat" else {"-", "0", "+"}
                            for u in ("-", "+"):
                                if s == {u}:
                                    pos.add(u)
                        if len(pos) == 1:
                            return pos if k < 0 else flip(frozenset(pos))
        return {"-", "0", "+"}

    def with_sign(self, p, s):
        b, c, integ = split_const(p)
        lo, ls, hi, hs = self.iv.get(b, (Fraction(0), False, None, False) if nonneg(b) else (None, False, None, False))
        if s == "0":
            lo, ls, hi, hs = c, False, c, False
        elif s == "+":
            if lo is None or lo < c or (lo == c and not ls):
                lo, ls = c, True
        else:
            if hi is None or hi > c or (hi == c and not hs):
                hi, hs = c, True
        iv = dict(self.iv)
        iv[b] = (lo, ls, hi, hs)
        return Assign(iv, self.bo, self.eq)

    def with_bool(self, t, v):
        bo = dict(self.bo)
        bo[t] = v
        return Assign(self.iv, bo, self.eq)

    def with_eq(self, x, c, yes):
        eq = dict(self.eq)
        pos, negs = eq.get(x, (None, frozenset()))
        eq[x] = (c, negs) if yes else (pos, negs | {c})
        return Assign(self.iv, self.bo, eq)

    def value(self, atom):
        """True/False/None for a canonical atom"""
        if gated(atom):
            a = self.resolve(atom)
            if a is not atom:
                return eval_atom(a, self)
        if atom.op == "sg":
            pos = self.sign(atom.args[0])
            if pos <= atom.args[1]:
                return True
            if not (pos & atom.args[1]):
                return False
            return None
        if atom.op == "eqc":
            x, c = atom.args
            if self.bo.get(mk("isnone", x)) is True:
                return False
            pos, negs = self.eq.get(x, (None, ()))
            if pos is not None:
                return pos is c
            if c in negs:
                return False
            return None
        if atom.op == "isnone":
            x = atom.args[0]
            if self.eq.get(x, (None, ()))[0] is not None:
                return False
            if x in self.iv or self.bo.get(mk("truthy", x)) is True:
                return False
            if x.op == "sub" and self.bo.get(mk("truthy", mk("get", *x.args, NONE))) is True:
                return False
        if atom.op == "exists" and "+" not in self.sign(atom.args[0]):
            return False
        if atom.op == "truthy" and atom.args[0].op == "sub":
            # an entry that is there is what .get() gives
            g = self.bo.get(mk("truthy", mk("get", *atom.args[0].args, NONE)))
            if g:
                return True
        if atom.op == "truthy" and atom.args[0].op == "get" and len(atom.args[0].args) == 3 and atom.args[0].args[2] is NONE:
            g = self.bo.get(mk("truthy", mk("sub", *atom.args[0].args[:2])))
            if g is not None:
                return g
        if atom.op == "truthy":
            if self.bo.get(mk("isnone", atom.args[0])) is True:
                return False
            e = self.eq.get(atom.args[0], (None, ()))[0]
            if e is not None:
                return bool(e.args[0])
        return self.bo.get(atom)

    def resolve(self, atom):
        """the atom with the choices inside it that this region decides made"""
        r = self.memo.get(atom)
        if r is None:
            self.memo[atom] = atom
            r = self.memo[atom] = canon(choose(atom, self, {}))
        return r

    def pinned(self, t):
        """the constant, if this region leaves the term one value"""
        if t.op not in ("param", "sub", "attr", "call", "len") or t.fvs:
            return t
        p = self.memo.get("pinned")
        if p is None:
            p = {b: const(lo) for b, (lo, ls, hi, hs) in self.iv.items() if lo is not None and lo == hi and not ls and not hs and b.op != "rat"}
            p.update((x, e[0]) for x, e in self.eq.items() if e[0] is not None)
            self.memo["pinned"] = p
        return p.get(canon(t), t) if p else t

    def lengths(self):
        cl = self.memo.get("lengths")
        if cl is None:
            cl = {}
            for b, (lo, _, hi, _) in self.iv.items():
                if lo == 0 and hi == 0 and b.op == "rat":
                    n, d = c_rat(b)
                    ms = list(n.items())
                    if d == ONE and len(ms) == 2 and ms[0][1] == -ms[1][1] and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" for m, _ in ms):
                        x, y = ms[0][0][0][0], ms[1][0][0][0]
                        c = cl.get(x, {x}) | cl.get(y, {y})
                        for z in c:
                            cl[z] = c
            self.memo["lengths"] = cl
        return cl

    def standin(self, t):
        """one representative for the lengths this region says are equal"""
        cl = self.lengths()
        if cl:
            c = cl.get(canon(t))
            if c is not None and not t.fvs:
                k = ("length", min(x.id for x in c))
                return self.memo.setdefault(k, t)
        return t

    def splits(self, atom):
        if atom.op == "sg":
            return [(s, self.with_sign(atom.args[0], s)) for s in sorted(self.sign(atom.args[0]))]
        if atom.op == "eqc":
            x, c = atom.args
            return [("==%s" % show(c), self.with_eq(x, c, True)), ("!=%s" % show(c), self.with_eq(x, c, False))]
        if atom.op == "exists" and not is_num(atom.args[0]):
            return [(True, self.with_sign(atom.args[0], "+").with_bool(atom, True)), (False, self.with_bool(atom, False))]
        return [(True, self.with_bool(atom, True)), (False, self.with_bool(atom, False))]

    def describe(self):
        out = []
        for b, (lo, ls, hi, hs) in self.iv.items():
            if lo is not None and lo == hi:
                out.append("%s = %s" % (show(b), lo))
            else:
                if lo is not None:
                    out.append("%s %s %s" % (show(b), ">" if ls else ">=", lo))
                if hi is not None:
                    out.append("%s %s %s" % (show(b), "<" if hs else "<=", hi))
        for t, v in self.bo.items():
            out.append("%s is %s" % (show(t), v))
        for x, (p, n) in self.eq.items():
            out.append("%s == %s" % (show(x), show(p)) if p is not None else "%s not in {%s}" % (show(x), ", ".join(show(c) for c in n)))
        return "; ".join(out) or "always"


# ---------------------------------------------------------------- specialise
def spec_cond(c, A, memo):
    """three-valued: returns TRUE/FALSE or residual raw condition; c raw"""
    if c.op == "const":
        return c if isinstance(c.args[0], bool) else const(bool(c.args[0]))
    if c.op == "not":
        return neg(spec_cond(c.args[0], A, memo))
    if c.op in ("and", "or"):
        xs = [spec_cond(x, A, memo) for x in c.args]
        return conj(xs) if c.op == "and" else disj(xs)
    if c.op == "ite":
        g = spec_cond(c.args[0], A, memo)
        if g is TRUE:
            return spec_cond(c.args[1], A, memo)
        if g is FALSE:
            return spec_cond(c.args[2], A, memo)
        return ite(g, spec_cond(c.args[1], A, memo), spec_cond(c.args[2], A, memo))
    s = spec_term(c, A, memo, True)
    return s


def eval_atom(k, A):
    if k.op == "const":
        return bool(k.args[0])
    if k.op == "not":
        v = eval_atom(k.args[0], A)
        return None if v is None else not v
    if k.op in ("and", "or"):
        vs = [eval_atom(x, A) for x in k.args]
        if k.op == "and":
            if False in vs:
                return False
            return None if None in vs else True
        if True in vs:
            return True
        return None if None in vs else False
    if k.op == "ite":
        g = eval_atom(k.args[0], A)
        if g is None:
            return None
        return eval_atom(k.args[1 if g else 2], A)
    return A.value(k)


CONDOPS = {"sg", "eqc", "cmp", "truthy", "isnone", "exc", "exists", "isinst", "in", "and", "or", "not", "eq"}


def spec(t, A):
    return spec_term(t, A, {}, False)


def spec_term(t, A, memo, as_cond):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ("const", "param", "ext", "fv", "bv", "opaque"):
        r = t
        if as_cond and op in ("param", "fv", "bv", "ext", "opaque"):
            v = eval_atom(canon(mk("truthy", t)), A)
            if v is not None:
                r = const(v)
    elif op == "ite":
        g = spec_cond(t.args[0], A, memo)
        if g is TRUE:
            r = spec_term(t.args[1], A, memo, False)
        elif g is FALSE:
            r = spec_term(t.args[2], A, memo, False)
        else:
            r = ite(g, spec_term(t.args[1], A, memo, False), spec_term(t.args[2], A, memo, False))
    elif op in ("and", "or", "not"):
        r = spec_cond_inner(t, A, memo)
    elif op in CONDOPS or as_cond:
        if op == "exc":
            # the failing evaluation keeps its own terms
            memo_ = memo.setdefault("exc", {"unpinned": True})
        else:
            memo_ = memo
        nt = TM.rebuild(op, tuple(spec_term(x, A, memo_, False) if isinstance(x, T) else x for x in t.args)) if op not in TM.BINDERS else spec_binder(t, A, memo)
        if nt.op in ("const",):
            r = nt if isinstance(nt.args[0], bool) or not as_cond else const(bool(nt.args[0]))
        elif nt.op in CONDOPS or as_cond:
            k = canon(nt if nt.op in CONDOPS else mk("truthy", nt))
            v = eval_atom(k, A)
            r = nt if v is None else const(v)
        else:
            r = nt
    elif op in TM.BINDERS:
        r = spec_binder(t, A, memo)
    elif op == "rat":
        r = rat_subst(t, lambda x: spec_term(x, A, memo, False))
    else:
        r = TM.rebuild(op, tuple(spec_term(x, A, memo, False) if isinstance(x, T) else x for x in t.args))
        if r.op == "dictmerge" and A.bo:
            # nothing is added by an empty one (None is not one)
            x, y = (canon(z) for z in r.args)
            if A.value(mk("truthy", y)) is False and A.value(mk("isnone", y)) is not True:
                r = r.args[0]
            elif A.value(mk("truthy", x)) is False and A.value(mk("isnone", x)) is not True:
                r = r.args[1]
        if r.op == "kw" and r.args[0] == "**" and A.bo and r.args[1].op not in ("dict", "dictmerge"):
            y = canon(r.args[1])
            if A.value(mk("truthy", y)) is False and A.value(mk("isnone", y)) is not True:
                r = mk("kw", "**", mk("dict"))
        if op == "len" and A.iv:
            r = A.standin(r)
        if call_name(r) == "abs" and len(r.args) == 2 and A.iv:
            # the sign is known here
            if eval_atom(canon(mk("cmp", ">=", r.args[1], const(0))), A) is True:
                r = r.args[1]
            elif eval_atom(canon(mk("cmp", "<=", r.args[1], const(0))), A) is True:
                r = mk("neg", r.args[1])
        if r.op == "get" and len(r.args) == 3 and (r.args[2] is NONE or r.args[2].op == "const" and not r.args[2].args[0]) and \
                (A.value(mk("truthy", canon(r))) is True or r.args[2] is NONE and A.value(mk("isnone", canon(r))) is False):
            # the default would not pass the test: the key is there
            r = sub(r.args[0], r.args[1])
    if (A.iv or A.eq) and "unpinned" not in memo:
        r = A.pinned(r)
    memo[t] = r
    return r


def spec_cond_inner(t, A, memo):
    if t.op == "not":
        return neg(spec_cond(t.args[0], A, memo))
    xs = [spec_cond(x, A, memo) for x in t.args]
    return conj(xs) if t.op == "and" else disj(xs)


def spec_binder(t, A, memo):
    v = mk("fv", -t.h)
    args = open_binder(t, v)
    nargs = []
    for i, x in enumerate(args):
        if not isinstance(x, T):
            nargs.append(x)
        elif (t.op == "filt" and i == 1) or (t.op == "exists" and i == 1) or (t.op in ("first", "runbest", "runwhich", "uniq") and i == 1):
            nargs.append(spec_cond(x, A, memo))
        else:
            nargs.append(spec_term(x, A, memo, False))
    if t.op == "map":
        return mk_map(nargs[0], v, nargs[1])
    if t.op == "filt":
        if nargs[1] is FALSE:
            return mk("seq")
        return mk_filt(nargs[0], v, nargs[1], nargs[2])
    if t.op == "exists":
        if nargs[1] is FALSE:
            return FALSE
    return binder(t.op, v, *nargs)


def find_atom(t, A):
    """An undetermined condition atom that gates a choice in the (specialised) term t."""
    for x in order(t):
        if x.op == "ite":
            a = undetermined(canon(x.args[0]), A)
            if a is not None:
                return a
    return None


def cond_atoms(k):
    if k.op in ("and", "or", "not"):
        for x in k.args:
            yield from cond_atoms(x)
    elif k.op == "ite":
        for x in k.args:
            yield from cond_atoms(x)
    elif k.op == "const":
        return
    elif k.op in ("sg", "eqc", "truthy", "isnone", "exc", "exists", "isinst", "in", "eq", "asbool"):
        yield k
    else:
        yield mk("truthy", k)


GATED = {}


def inner(t):
    """the terms directly inside a canonical term"""
    if t.op == "rat":
        return [x for p in t.args for mono, _ in p for x, _e in mono]
    return [x for x in t.args if isinstance(x, T)]


def gated(t):
    """is there a choice inside the canonical term, outside any binder"""
    r = GATED.get(t)
    if r is None:
        r = t.op == "ite" or t.op not in TM.BINDERS and any(gated(x) for x in inner(t))
        GATED[t] = r
    return r


def gates(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or not gated(x):
            continue
        seen.add(x)
        if x.op == "ite":
            yield x.args[0]
        if x.op not in TM.BINDERS:
            stack.extend(reversed(inner(x)))


SIGNS = {frozenset(v): k for k, v in RELS.items()}


def choose(t, A, memo):
    """a raw term for the canonical term t with the choices made that A decides; binders are left alone"""
    if not gated(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        g = eval_atom(t.args[0], A)
        if g is None:
            r = ite(t.args[0], choose(t.args[1], A, memo), choose(t.args[2], A, memo))
        else:
            r = choose(t.args[1 if g else 2], A, memo)
    elif t.op == "rat":
        def poly(p):
            out = None
            for mono, c in p:
                q = const(c)
                for x, e in mono:
                    q = mk("bin", "*", q, mk("bin", "**", choose(x, A, memo), const(e)))
                out = q if out is None else mk("bin", "+", out, q)
            return const(0) if out is None else out
        r = mk("bin", "/", poly(t.args[0]), poly(t.args[1]))
    elif t.op == "sg":
        r = mk("cmp", SIGNS[t.args[1]], choose(t.args[0], A, memo), const(0))
    elif t.op in ("eqc", "eq"):
        r = mk("cmp", "==", choose(t.args[0], A, memo), choose(t.args[1], A, memo))
    else:
        r = TM.rebuild(t.op, tuple(choose(x, A, memo) if isinstance(x, T) else x for x in t.args))
    memo[t] = r
    return r


def undetermined(k, A):
    for a in cond_atoms(k):
        if A.value(a) is None:
            if gated(a):
                # what the atom says depends on choices inside it: those come first
                r = A.resolve(a)
                if r is not a:
                    return undetermined(r, A)
                for g in gates(a):
                    b = undetermined(canon(g), A)
                    if b is not None:
                        return b
            return a
    return None


def order(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in reversed(x.args):
            if isinstance(a, T):
                stack.append(a)


def open_all(t):
    """Replace bound variables by height-named free variables so that gates under binders
    are visible as atoms (pointwise comparison)."""
    return t


# ---------------------------------------------------------------- equality
class Result:
    def __init__(self, ok, why="", left=None, right=None, region="", cases=0, atoms=()):
        self.atoms = atoms
        self.ok, self.why, self.left, self.right, self.region, self.cases = ok, why, left, right, region, cases
        self.loops = ()


def same(c1, c2):
    """structural equality of canonical terms, with cross-multiplied fractions"""
    if c1 is c2:
        return True
    if c1.op == "rat" or c2.op == "rat":
        n1, d1 = c_rat(c1)
        n2, d2 = c_rat(c2)
        try:
            if p_mul(n1, d2) == p_mul(n2, d1):
                return True
        except Budget:
            pass
        if c1.op == "rat" and c2.op == "rat":
            return rat_same((n1, d1), (n2, d2))
        return False
    if c1.op != c2.op or len(c1.args) != len(c2.args):
        return False
    for x, y in zip(c1.args, c2.args):
        if isinstance(x, T) and isinstance(y, T):
            if not same(x, y):
                return False
        elif isinstance(x, T) or isinstance(y, T) or x != y:
            return False
    return True


def rat_same(r1, r2):
    """unify atoms of both sides that are `same` though not identical, then compare"""
    rep = []

    def rp(t):
        for u in rep:
            if u is t:
                return u
        for u in rep:
            if u.op == t.op and u.op != "rat" and same(u, t):
                return u
        rep.append(t)
        return t

    def m(p):
        out = {}
        for mono, c in p.items():
            q = ()
            k = Fraction(1)
            for t, e in mono:
                q, kk = mono_mul(q, ((rp(t), e),))
                k *= kk
            out[q] = out.get(q, 0) + c * k
        return {a: b for a, b in out.items() if b}
    try:
        return p_mul(m(r1[0]), m(r2[1])) == p_mul(m(r2[0]), m(r1[1]))
    except Budget:
        return False


def compare_loops(t1, t2, assume=(), depth=0):
    """compare(); two loops that carry the same start and whose rounds agree for every state are one loop"""
    global DEADLINE
    r = compare(t1, t2, assume)
    if r.ok is not False or depth > 3:
        return r
    keep = DEADLINE
    DEADLINE = min(DEADLINE, 12.0)
    try:
        pairs = []
        u2 = aligned(canon(t1), canon(t2), assume, depth, time.monotonic() + keep, pairs)
        r.loops = pairs
        if u2 is not None:
            pairs, r = r.loops, compare(canon(t1), u2, assume)
            r.loops = pairs
    finally:
        DEADLINE = keep
    return r


def loops_in(t):
    """the loops that carry a state, outermost first, each once; those over an open variable excepted"""
    out, seen = [], set()

    def go(x):
        if x.op == "mu":
            if all(y.args[0] <= x.h for y in walk(x) if y.op == "bv") and not any(x is z for z in out):
                out.append(x)
            return
        if x.id in seen:
            return
        seen.add(x.id)
        for y in x.args:
            if isinstance(y, T):
                go(y)
            elif x.op == "rat":
                for mono, _ in y:
                    for b, _e in mono:
                        go(b)
    go(t)
    return out


def aligned(c1, c2, assume, depth, limit, pairs):
    """c2 with its loops replaced by loops of c1 that are proved to be the same; None when there is none"""
    m1, m2 = loops_in(c1), loops_in(c2)
    to = {}
    for y in m2:
        if any(x is y for x in m1):
            continue
        for x in m1:
            if any(x is z for z in m2) or time.monotonic() > limit:
                continue
            p, r = loop_equal(x, y, assume, depth)
            if p is not None:
                if p:
                    to.update({mk("sub", y, const(j)): mk("sub", x, const(i)) for j, i in enumerate(p)})
                to[y] = x
                break
            pairs.append((x, y, r))
    return subst(c2, to) if to else None


def loop_equal(x, y, assume, depth):
    """(where each part of y's state is in x's, None), or (None, a round that differs)"""
    k, z = fresh(), fresh()
    n1, ini1, l1 = open_binder(x, k)
    n2, ini2, l2 = open_binder(y, k)
    if l1.op != "lam" or l2.op != "lam" or not compare_loops(n1, n2, assume, depth + 1).ok:
        return None, None
    b1, b2 = open_binder(l1, z)[0], open_binder(l2, z)[0]
    if ini1.op != "seq" and ini2.op != "seq":
        if not compare_loops(ini1, ini2, assume, depth + 1).ok:
            return None, None
        r = compare_loops(b1, b2, assume, depth + 1)
        return ([], None) if r.ok else (None, r)
    if not (ini1.op == ini2.op == b1.op == b2.op == "seq") or len(ini1.args) != len(ini2.args) or len(b1.args) != len(b2.args):
        return None, None
    m, extra = len(ini1.args), len(b1.args) - len(ini1.args)
    if extra not in (0, 1):
        return None, None
    same_start = [[i for i in range(m) if compare_loops(ini1.args[i], ini2.args[j], assume, depth + 1).ok] for j in range(m)]
    best = [None, -1]

    def places(p):
        if len(p) == m:
            yield list(p)
            return
        for i in same_start[len(p)]:
            if i not in p:
                yield from places(p + [i])
    for tried, p in enumerate(places([])):
        if tried > 24:
            return None, None
        back = {sub(z, const(j)): sub(z, const(i)) for j, i in enumerate(p)}
        c2 = subst(b2, back)
        agree = 0
        for j in sorted(range(m + extra), key=lambda j: b2.args[j].h):
            a = b1.args[j] if j < extra else b1.args[p[j - extra] + extra]
            r = compare_loops(a, c2.args[j], assume, depth + 1)
            if not r.ok:
                if agree > best[1]:
                    best = [r, agree]
                break
            agree += 1
        else:
            return p, None
    return None, best[0]


def compare(t1, t2, assume=(), budget=3000):
    """Are t1 and t2 equal in every consistent region?  assume: raw conditions that hold."""
    stats = [0]
    limit = time.monotonic() + DEADLINE
    starts = [Assign()]
    lazy = []
    # enforce assumptions by splitting; the ones that split too often are kept for the leaves
    for c in assume:
        kc = canon(c)
        nxt = []
        for A in starts:
            for B in regions(kc, A, True):
                nxt.append(B)
                if len(nxt) > 48:
                    break
            if len(nxt) > 48:
                break
        if len(nxt) > 48:
            lazy.append(kc)
        else:
            starts = nxt

    def under(A, ks):
        """regions of A in which every condition of ks holds"""
        if not ks:
            yield A
            return
        for B in regions(ks[0], A, True):
            if time.monotonic() > limit:
                raise Budget("out of time")
            yield from under(B, ks[1:])

    def leaf(c1, c2, A):
        if not lazy or all(eval_atom(x, A) for x in lazy):
            return (c1, c2, A)
        for B in under(A, lazy):
            r = rec(B)
            if r:
                return r
        return None

    def rec(A):
        stats[0] += 1
        if stats[0] > budget:
            raise Budget("too many regions")
        if time.monotonic() > limit:
            raise Budget("out of time")
        if any(eval_atom(x, A) is False for x in lazy):
            return None
        s1, s2 = spec(t1, A), spec(t2, A)
        c1, c2 = canon(s1), canon(s2)
        if same(c1, c2):
            return None
        a = find_atom(s1, A) or find_atom(s2, A)
        if a is None:
            # boolean valued terms
            if boolish(c1) or boolish(c2):
                a = None
                for k in (c1, c2):
                    a = undetermined(k, A) if boolish(k) else None
                    if a is not None:
                        break
                if a is not None:
                    for _, B in A.splits(a):
                        r = rec(B)
                        if r:
                            return r
                    return None
            # last resort: atoms anywhere inside
            a = any_atom(c1, A) or any_atom(c2, A)
            if a is not None:
                for _, B in A.splits(a):
                    r = rec(B)
                    if r:
                        return r
                return None
            return leaf(c1, c2, A)
        for _, B in A.splits(a):
            r = rec(B)
            if r:
                return r
        return None

    try:
        for A in starts:
            r = rec(A)
            if r:
                return Result(False, "differ", r[0], r[1], r[2].describe(), stats[0],
                              list(r[2].iv) + list(r[2].bo) + list(r[2].eq))
    except Budget as e:
        return Result(None, str(e), cases=stats[0])
    return Result(True, cases=stats[0])


def boolish(k):
    return k.op in ("sg", "eqc", "truthy", "isnone", "exc", "exists", "isinst", "in", "eq", "and", "or", "not", "asbool") or is_bool(k)


def any_atom(c, A):
    for x in order(c):
        if x.op == "rat":
            continue
        if x.op in ("sg", "eqc", "isnone", "truthy", "exists") and A.value(x) is None:
            return undetermined(x, A) or x
    return None


def regions(k, A, want):
    """all regions refining A in which canonical condition k evaluates to want"""
    v = eval_atom(k, A)
    if v is not None:
        if v == want:
            yield A
        return
    a = undetermined(k, A)
    if a is None:
        yield A
        return
    for _, B in A.splits(a):
        yield from regions(k, B, want)


def satisfiable(c, assume=()):
    As = [Assign()]
    for x in list(assume) + [c]:
        As = [B for A in As for B in regions(canon(x), A, True)]
        if not As:
            return False
    return True


def implies(c, d):
    """c => d over orderings"""
    return not satisfiable(conj([c, neg(d)]))
