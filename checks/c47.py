"""Interprocedural effect analysis (gvg.effects) against a table of frame conditions: for every public method, the attributes of the
receiver (and of the objects it holds) that it may write. A method that is not listed writes none."""
from gvg.effects import TYPES
from .eff import analyse, describe

MIN_OBLIGATIONS = 90
PADS = {("_amp",), ("_multiple",)}
TRIMS = {("_amp",), ("_delay",)}


def each(prefix, paths):
    return {prefix + p for p in paths} | {prefix + p + ("[]",) for p in paths}


S, P, A = ("sensors", "[]"), ("peaks", "[]"), ("array",)
SENSORS = {("sensors",), ("sensors", "[]")}
STEP = {"trim_offsets": {("array", "sensors"), ("array", "sensors", "[]")}, "detrend": each(A + S, {("_amp",)}), "select_noise": {("noise",)},
        "trim_time": each(A + S, TRIMS), "mute": each(A + S, {("_amp",)}) | {("signal_start",), ("signal_end",)}, "select_signal": {("signal",)},
        "calculate_snr": {("snr",)}, "pad": each(A + S, PADS), "check": set()}
RUN = {("array",), ("noise",), ("signal",), ("signal_start",), ("signal_end",), ("snr",), ("fnames",)}
MAY = {
    "stack_append": each((), {("_amp",), ("_nstacks",)}),
    "ActiveTimeSeries.trim": each((), TRIMS), "Sensor1C.trim": each((), TRIMS),
    "ActiveTimeSeries.zero_pad": each((), PADS), "Sensor1C.zero_pad": each((), PADS),
    "ActiveTimeSeries.detrend": each((), {("_amp",)}), "Sensor1C.detrend": each((), {("_amp",)}), "SourceWithSignal.detrend": each((), {("_amp",)}),
    "Array1D.trim": each(S, TRIMS), "Array1DwSource.trim": each(S, TRIMS), "Array1D.zero_pad": each(S, PADS), "Array1DwSource.zero_pad": each(S, PADS),
    "trim_offsets": SENSORS, "Array1D.mute": each(S, {("_amp",)}), "Array1DwSource.mute": each(S, {("_amp",)}), "interactive_mute": each(S, {("_amp",)}),
    "xcorrelate": SENSORS,
    "Peaks.reject_limits_outside": each((), {("_valid",)}), "Peaks.reject_box_inside": each((), {("_valid",)}),
    "PeaksSuite.reject_limits_outside": each(P, {("_valid",)}), "PeaksSuite.reject_box_inside": each(P, {("_valid",)}),
    "interactive_trimming": each(P, {("_valid",)}), "append": {("peaks",), ("ids",), ("peaks", "[]"), ("ids", "[]")},
    "normalize": each((), {("power",), ("_to_abs",)}), "plot of a transform": each((), {("power",), ("_to_abs",)}), "stack": each((), {("power",), ("n",)}),
    "run": RUN,
}
WORKFLOWS = ("AbstractMaswWorkflow", "SingleMaswWorkflow", "TimeDomainMaswWorkflow", "TimeDomainXcorrMaswWorkflow", "FrequencyDomainMaswWorkflow")
TRANSFORMS = ("AbstractWavefieldTransform", "EmptyWavefieldTransform", "SlantStack", "PhaseShift", "FDBF", "FK")


def allowed(label):
    c, _, n = label.partition(".")
    if c in WORKFLOWS:
        return STEP.get(n, MAY.get(n, set()))
    if c in TRANSFORMS and n == "plot":
        return MAY["plot of a transform"]
    return MAY.get(label, MAY.get(n, set()) if n not in ("trim", "zero_pad", "mute", "detrend") else set())


def plain(path):
    return tuple("[]" if p.startswith("[") else p for p in path)


def check(K):
    for r in analyse(K, lambda n: "." in n and not n.endswith(".__init__")):
        if r.error:
            K.undecided(r.label, r.error, r.where)
            continue
        ok = allowed(r.label)
        if r.node.name == "run" and r.cls is not None and r.cls.name in WORKFLOWS:
            tops = {p[0] for p in ok}
            ok_path = lambda p: p[0] in tops and p[0] != "fnames" or p == ("fnames",)
        else:
            ok_path = lambda p: p in ok
        bad, may = [], []
        for e in r.effects:
            if e.obj.root != "param" or e.obj.name != r.self_name:
                continue
            p = plain(e.target) or ("(itself)",)
            if ok_path(p):
                continue
            known = all(x == "[]" or any(k[1] == x for k in TYPES) for x in p)
            (bad if e.sure and known else may).append("%s [%s]" % (describe(e), ".".join(p)))
        if bad:
            K.add(r.label, "VIOLATION", "; ".join(bad[:4]), r.where)
        elif may:
            K.undecided(r.label, "; ".join(may[:4]), r.where)
        else:
            K.add(r.label, "HOLDS", "writes only %s" % (", ".join(sorted(".".join(p) for p in ok if p[-1] != "[]")) or "nothing"), r.where)
