"""Interprocedural effect analysis (gvg.effects): from every public function and method, no module variable, class attribute or
mutable default value is written, no process-wide setting is changed, and no clock, random generator, environment variable
or listing order is read, apart from the random replacement that statistics of incomplete data document."""
import ast
from gvg.effects import AMBIENT, SETTERS, Analyzer, Ext, NONE, State
from gvg import swtypes
from .eff import analyse, describe

MIN_OBLIGATIONS = 90
RANDOM = ("Statistics.from_peakssuite", "Statistics.from_data_matrix", "PeaksSuite.statistics")
GENERATORS = ("numpy.random.default_rng", "numpy.random.PCG64", "numpy.random.Generator", "numpy.random.SeedSequence")


def check(K):
    for r in analyse(K):
        if r.error:
            K.undecided(r.label, r.error, r.where)
            continue
        bad = [describe(e) for e in r.effects if e.obj.root in ("global", "class", "default") and e.sure]
        may = [describe(e) for e in r.effects if e.obj.root in ("global", "class", "default") and not e.sure]
        for (name, where), how in r.ambient.items():
            if r.label in RANDOM and name.startswith(GENERATORS):
                continue
            if name.startswith(("logging.", "numpy.random.Generator")):
                continue
            (may if how.startswith("may") else bad).append("%s %s at %s" % (how, name, where))
        if bad:
            K.add(r.label, "VIOLATION", "; ".join(bad[:4]), r.where)
        elif may:
            K.undecided(r.label, "; ".join(may[:4]), r.where)
        else:
            K.add(r.label, "HOLDS", "no ambient state in %d functions" % len(r.visited), r.where)
    for m in K.pkg.repo_modules():
        an = Analyzer(K.pkg, swtypes.attr_table(), swtypes.PARAMS)
        found = an.module_level(m)
        K.add("import of " + m.name, "VIOLATION" if found else "HOLDS", "; ".join(found) or "only definitions", m.path)
