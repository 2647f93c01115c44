"""Interprocedural points-to and effect analysis (gvg.effects): every public function and method is interpreted over abstract
objects; calls into the package are followed. No write (item, attribute, in-place operator, mutating method, out= argument,
deletion) may reach an object that the caller passed in, other than the receiver."""
from .eff import analyse, describe

MIN_OBLIGATIONS = 90


def check(K):
    for r in analyse(K):
        if r.error:
            K.undecided(r.label, r.error, r.where)
            continue
        bad = [e for e in r.effects if e.obj.root == "param" and e.obj.name != r.self_name]
        sure = [e for e in bad if e.sure]
        if sure:
            K.add(r.label, "VIOLATION", "; ".join(describe(e) for e in sure[:4]), sure[0].where)
        elif bad:
            K.undecided(r.label, "; ".join(describe(e) for e in bad[:4]), r.where)
        else:
            K.add(r.label, "HOLDS", "no write reaches an argument in %d functions" % len(r.visited), r.where)
