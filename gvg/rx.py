"""Regular expressions as marked languages: inclusion decided on automata, nothing is matched."""
import re._parser as sp
import re._constants as sc
import sys

SAMPLE = [chr(i) for i in range(32, 127)] + ["\n", "\t", "\r", "\x0b", "\x0c", "\x00", "\u0663", "\u00e9", "\u2003", "\u20ac", "\ue000", "\ue001", "\ue002"]


class Unsupported(Exception):
    pass


def cat(c, k):
    k = str(k)
    if k == "CATEGORY_DIGIT":
        return c.isdigit()
    if k == "CATEGORY_NOT_DIGIT":
        return not c.isdigit()
    if k == "CATEGORY_SPACE":
        return c.isspace()
    if k == "CATEGORY_NOT_SPACE":
        return not c.isspace()
    if k == "CATEGORY_WORD":
        return c.isalnum() or c == "_"
    if k == "CATEGORY_NOT_WORD":
        return not (c.isalnum() or c == "_")
    raise Unsupported(k)


class NFA:
    def __init__(self, pattern, flags=0):
        self.eps, self.edges = {}, {}
        self.n = 0
        self.names = {}
        try:
            tree = sp.parse(pattern, flags)
        except Exception as e:
            raise Unsupported("does not parse: %s" % e)
        if tree.state.flags & ~(32 | flags):
            raise Unsupported("flags")
        self.start = self.new()
        self.end = self.seq(tree, self.start)

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, lab, b):
        self.edges.setdefault(a, []).append((lab, b))

    def seq(self, items, s):
        for op, av in items:
            s = self.item(op, av, s)
        return s

    def chars(self, s, ok):
        b = self.new()
        cs = frozenset(c for c in SAMPLE if ok(c))
        self.t(s, cs, b)
        return b

    def mark(self, s, m):
        b = self.new()
        self.t(s, m, b)
        return b

    def item(self, op, av, s):
        o = str(op)
        if o == "LITERAL":
            return self.chars(s, lambda c: ord(c) == av)
        if o == "NOT_LITERAL":
            return self.chars(s, lambda c: ord(c) != av)
        if o == "ANY":
            return self.chars(s, lambda c: c != "\n")
        if o == "CATEGORY":
            return self.chars(s, lambda c: cat(c, av))
        if o == "IN":
            return self.chars(s, lambda c: self.inn(c, av))
        if o == "SUBPATTERN":
            group, add, rem, p = av
            if add or rem:
                raise Unsupported("inline flags")
            if group is None:
                return self.seq(p, s)
            s = self.mark(s, "(%d" % group)
            s = self.seq(p, s)
            return self.mark(s, ")%d" % group)
        if o == "BRANCH":
            end = self.new()
            for p in av[1]:
                a = self.new()
                self.e(s, a)
                self.e(self.seq(p, a), end)
            return end
        if o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, p = av
            for _ in range(lo):
                s = self.seq(p, s)
            if hi is sc.MAXREPEAT or hi >= 1000:
                a = self.new()
                self.e(s, a)
                self.e(self.seq(p, a), a)
                b = self.new()
                self.e(a, b)
                return b
            end = self.new()
            self.e(s, end)
            for _ in range(hi - lo):
                s = self.seq(p, s)
                self.e(s, end)
            return end
        if o in ("ASSERT", "ASSERT_NOT", "AT"):
            return self.mark(s, "@" + o + repr(av))
        raise Unsupported(o)

    def inn(self, c, av):
        neg, hit = False, False
        for op, a in av:
            o = str(op)
            if o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                hit |= ord(c) == a
            elif o == "RANGE":
                hit |= a[0] <= ord(c) <= a[1]
            elif o == "CATEGORY":
                hit |= cat(c, a)
            else:
                raise Unsupported(o)
        return hit != neg

    def close(self, ss):
        seen, todo = set(ss), list(ss)
        while todo:
            for b in self.eps.get(todo.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return frozenset(seen)

    def step(self, ss, x):
        return self.close({b for a in ss for lab, b in self.edges.get(a, ()) if lab == x or isinstance(lab, frozenset) and x in lab})

    def labels(self, ss):
        out = set()
        for a in ss:
            for lab, _ in self.edges.get(a, ()):
                if isinstance(lab, frozenset):
                    out |= lab
                else:
                    out.add(lab)
        return out

    def marks(self):
        return {lab for es in self.edges.values() for lab, _ in es if not isinstance(lab, frozenset)}


def included(a, b, limit=200000):
    """shortest marked word of a that b lacks, or None"""
    s = (a.close({a.start}), b.close({b.start}))
    seen = {s}
    todo = [(s, ())]
    while todo:
        nxt = []
        for (x, y), w in todo:
            if a.end in x and b.end not in y:
                return w
            for c in sorted(a.labels(x), key=lambda c: (len(c) > 1, c)):
                z = (a.step(x, c), b.step(y, c))
                if not z[0] or z in seen:
                    continue
                seen.add(z)
                if len(seen) > limit:
                    raise Unsupported("too many states")
                nxt.append((z, (w, c)))
        todo = nxt
    return None


def word(w):
    out = []
    while w:
        w, c = w
        out.append(c if not c.startswith("@") else "^")
    return "".join(reversed(out))
