"""Points-to analysis (gvg.effects): after a constructor, loader or copy, no array, list or dictionary that the caller passed in
(and no default value, class attribute or module variable) can be reached from the new object, so that later changes to either
do not reach the other. Sensors, sources and peaks themselves are held by reference, as documented."""
from gvg.effects import Obj, reachable
from .eff import analyse

MIN_OBLIGATIONS = 25
SCOPE = """ActiveTimeSeries.__init__ ActiveTimeSeries.from_activetimeseries ActiveTimeSeries.from_trace_seg2 ActiveTimeSeries.from_trace
ActiveTimeSeries.from_cross_stack ActiveTimeSeries.crosscorr Sensor1C.__init__ Sensor1C.from_sensor1c Sensor1C.from_activetimeseries Sensor1C.from_trace
Source.from_source SourceWithSignal.__init__ Array1D.__init__ Array1D.from_array1d Array1D.from_files Array1D.timeseriesmatrix Array1D.position Array1D.offsets
Array1DwSource.__init__ Array1DwSource.from_files Array1DwSource.from_array1d Peaks.__init__ Peaks.from_dict Peaks.from_json Peaks.from_max Peaks.frequency Peaks.velocity
Peaks.azimuth Peaks.ellipticity Peaks.noise Peaks.power Peaks.slowness Peaks.wavelength Peaks.wavenumber Peaks.extended_attrs PeaksSuite.__init__
PeaksSuite.from_peaks PeaksSuite.from_peakssuite PeaksSuite.from_dict PeaksSuite.from_json PeaksSuite.from_max
Statistics.__init__ Statistics.from_peakssuite Statistics.from_data_matrix SignaltoNoiseRatio.__init__ SignaltoNoiseRatio.from_array1ds
SlantStack.from_array PhaseShift.from_array FDBF.from_array FK.from_array EmptyWavefieldTransform.from_array
leastsquare_iterativealgorithm leastsquare_posterioricovmatrix""".split()
DATA = ("array", "array2", "list", "dict", "set")


def check(K):
    for r in analyse(K, lambda n: n in SCOPE):
        if r.error or r.final is None:
            K.undecided(r.label, r.error or "no path returns", r.where)
            continue
        init = r.node.name == "__init__"
        me = [o for o in {o for o, _ in r.final.heap} if o.root == "param" and not o.path and o.name == r.self_name]
        roots = me[:1] if init else [x for x in r.retval if isinstance(x, Obj)]
        shared = reachable(None, r.final, roots)
        if not init:
            shared += [((), o) for o in roots if not o.fresh]
        bad, may = [], []
        for path, o in shared:
            if o.root == "param" and o.name == r.self_name and init:
                continue
            text = "%s is %s itself" % (".".join(path) or "the result", o.show())
            if o.kind in DATA or o.root in ("default", "class", "global"):
                bad.append(text)
            elif o.kind is None and o.path == ():
                may.append(text)
        if bad and r.guess:
            K.undecided(r.label, "an attribute is set by a name that is not known here: " + "; ".join(sorted(bad)[:4]), r.where)
        elif bad:
            K.add(r.label, "VIOLATION", "; ".join(sorted(bad)[:4]), r.where)
        elif may:
            K.undecided(r.label, "; ".join(sorted(may)[:4]), r.where)
        else:
            K.add(r.label, "HOLDS", "%d objects reachable from the result, none of the caller's arrays, lists or dictionaries" % len(shared), r.where)
