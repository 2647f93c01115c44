"""Planted bugs: realistic changes that break a property and pass the tests, each with a demonstration."""
ALL = []
X = "swprocess/"
HEAD = """import numpy as np
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source
from swprocess.array1d import Array1D
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
import swprocess.wavefieldtransforms as wt


def gather(xs, source=-5., n=32, dt=0.01, seed=3, **kw):
    rng = np.random.RandomState(seed)
    return Array1D([Sensor1C(rng.normal(size=n), dt, x, 0, 0, **kw) for x in xs], Source(source, 0, 0))


"""


def PLANT(id, prop, edits, demo, needs, breaks):
    ALL.append(dict(id=id, prop=prop, edits=[(X + a, b, c) for a, b, c in edits], demo=HEAD + demo.lstrip("\n"), needs=needs, breaks=breaks))


PLANT("stack-weight", "C01", [("activetimeseries.py", "                     timeseries._amp*timeseries.nstacks)\n        self._amp /= (self.nstacks + timeseries.nstacks)",
                               "                     timeseries._amp)\n        self._amp /= (self.nstacks + timeseries.nstacks - timeseries.nstacks + 1)")], """
a = ActiveTimeSeries([1., 1, 1, 1], 0.1, nstacks=2)
b = ActiveTimeSeries([4., 4, 4, 4], 0.1, nstacks=4)
a.stack_append(b)
assert np.allclose(a.amplitude, (2*1+4*4)/6), a.amplitude
assert a.nstacks == 6
""", "the appended record already represents several shots", "the weight of the appended record is taken as one")
PLANT("stack-dt", "C01", [("activetimeseries.py", """            if getattr(self, attr) != getattr(other, attr):
                return False
        return True""", """            if round(getattr(self, attr), 3) != round(getattr(other, attr), 3):
                return False
        return True""")], """
a = ActiveTimeSeries([1., 1, 1, 1], 0.0010)
b = ActiveTimeSeries([4., 4, 4, 4], 0.00125)
try:
    a.stack_append(b)
except ValueError:
    pass
else:
    raise SystemExit("records of different time steps were stacked")
""", "time steps differing by less than half a millisecond", "records with different time steps are stacked")
PLANT("stack-count", "C02", [("wavefieldtransforms.py", "        self.n += other.n", "        self.n += 1")], """
def image(v, n):
    t = wt.AbstractWavefieldTransform.__new__(wt.PhaseShift)
    wt.AbstractWavefieldTransform.__init__(t, np.array([1., 2]), np.array([100., 200]), np.full((2, 2), v, dtype=complex))
    t.n = n
    return t


e = wt.EmptyWavefieldTransform(np.array([1., 2]), np.array([100., 200]), np.zeros((2, 2), dtype=complex))
e.stack(image(1., 3))
e.stack(image(5., 1))
assert np.allclose(e.power, (3*1+5)/4), e.power
""", "an image that already represents several images is stacked and another follows", "the number of images stacked is counted as one")
PLANT("copy-depth", "C03", [("source.py", """for attr in ["x", "y", "z"]]
        return cls""", """for attr in ["x", "y"]] + [0]
        return cls""")], """
s = Source(1, 2, 3)
assert Source.from_source(s).z == 3
""", "a source that is not at the surface", "the copy of a source loses its elevation")
PLANT("copy-rounded", "C03", [("sensor1c.py", '"x": float, "y": float, "z": float}', '"x": lambda x: round(x, 2), "y": float, "z": float}')], """
s = Sensor1C([1., 2, 3], 0.1, 1.125, 0, 0)
assert Sensor1C.from_sensor1c(s).x == 1.125
""", "positions finer than a centimetre", "copying rounds the position")
PLANT("segy-scalar", "C04", [("sensor1c.py", """        header = trace.stats.segy.trace_header

        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            msg = "Resetting nstacks from zero to one."
            warnings.warn(msg)
            nstacks = 1
""", """        header = trace.stats.segy.trace_header

        nstack_key = "number_of_vertically_summed_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            msg = "Resetting nstacks from zero to one."
            warnings.warn(msg)
            nstacks = 1
""")], """
import obspy
from obspy.io.segy.segy import SEGYTraceHeader
t = obspy.Trace(np.arange(5.))
t.stats.delta = 0.01
t.stats.segy = {}
t.stats.segy.trace_header = SEGYTraceHeader()
h = t.stats.segy.trace_header
h.number_of_horizontally_stacked_traces_yielding_this_trace = 7
h.number_of_vertically_summed_traces_yielding_this_trace = 1
h.coordinate_units = 1
s = Sensor1C.from_trace(t, format="SEGY")
assert s.nstacks == 7, s.nstacks
""", "a SEGY file whose traces are stacks", "the stack count is read from another header field")
PLANT("su-delay", "C04", [("sensor1c.py", """                              format="SU",
                              nstacks=nstacks,
                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,""", """                              format="SU",
                              nstacks=nstacks,
                              delay=-abs(cls._safely_get_header(header, "delay_recording_time", 0, int))/1000,""")], """
import obspy
from obspy.io.segy.segy import SEGYTraceHeader
t = obspy.Trace(np.arange(5.))
t.stats.delta = 0.01
t.stats.su = {}
t.stats.su.trace_header = SEGYTraceHeader()
h = t.stats.su.trace_header
h.number_of_horizontally_stacked_traces_yielding_this_trace = 1
h.coordinate_units = 1
h.delay_recording_time = 500
try:
    s = Sensor1C.from_trace(t, format="SU")
except ValueError:
    raise SystemExit(0)
assert s.delay == 0.5, s.delay
""", "a record that starts after the trigger", "a positive recording delay becomes a pre-trigger delay")
PLANT("source-scale", "C05", [("array1d.py", """                int_y = int(stats.segy.trace_header["source_coordinate_y"])
                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))""", """                int_y = int(stats.segy.trace_header["source_coordinate_y"])
                y = int_y / abs(scaleco)
                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))""")], """
import obspy
from unittest import mock
from obspy.io.segy.segy import SEGYTraceHeader


def trace(x):
    t = obspy.Trace(np.arange(5.))
    t.stats.delta = 0.01
    t.stats._format = "SEGY"
    t.stats.segy = {}
    t.stats.segy.trace_header = SEGYTraceHeader()
    h = t.stats.segy.trace_header
    h.number_of_horizontally_stacked_traces_yielding_this_trace = 1
    h.coordinate_units = 1
    h.scalar_to_be_applied_to_all_coordinates = 10
    h.group_coordinate_x = x
    h.source_coordinate_x = -1
    h.source_coordinate_y = 3
    return t


with mock.patch("obspy.read", lambda *a, **k: obspy.Stream([trace(1), trace(2)])):
    a = Array1D.from_files("any")
assert (a.source.x, a.source.y) == (-10, 30), a.source
""", "a SEGY file with a positive coordinate scalar and a source off the axis", "the y coordinate of the source is divided instead of multiplied")
PLANT("write-delay", "C06", [("array1d.py", """                sensor.delay*1000)
            trace""", """                round(sensor.delay, 1)*1000)
            trace""")], """
import os
import tempfile
a = gather([0., 1, 2], delay=-0.25)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.su")
    a.to_file(f)
    b = Array1D.from_files(f)
assert b[0].delay == -0.25, b[0].delay
""", "a pre-trigger delay that is not a multiple of 0.1 s", "the delay is written rounded")
PLANT("source-check", "C07", [("array1d.py", "                if nsource != source:", "                if nsource.x != source.x:")], """
import obspy
from unittest import mock
from obspy.io.segy.segy import SEGYTraceHeader


def stream(y):
    out = []
    for x in (1, 2):
        t = obspy.Trace(np.arange(5.))
        t.stats.delta = 0.01
        t.stats._format = "SU"
        t.stats.su = {}
        t.stats.su.trace_header = SEGYTraceHeader()
        h = t.stats.su.trace_header
        h.number_of_horizontally_stacked_traces_yielding_this_trace = 1
        h.coordinate_units = 1
        h.scalar_to_be_applied_to_all_coordinates = 1
        h.group_coordinate_x = x
        h.source_coordinate_x = -1
        h.source_coordinate_y = y
        out.append(t)
    return obspy.Stream(out)


with mock.patch("obspy.read", lambda f, **k: stream(int(f))):
    try:
        Array1D.from_files(["0", "7"])
    except ValueError:
        pass
    else:
        raise SystemExit("files with different sources were stacked")
""", "files whose sources differ only off the axis", "shots from different positions are stacked")
PLANT("spacing-sign", "C08", [("array1d.py", "            offsets.append(abs(self.source._x - position))", "            offsets.append(abs(abs(self.source._x) - abs(position)))")], """
a = gather([-2., -1, 0, 1], source=5.)
assert a.offsets == [7., 6., 5., 4.], a.offsets
""", "receivers and source on different sides of the origin", "offsets are wrong for negative coordinates")
PLANT("spacing-last", "C08", [("array1d.py", "        max_spacing = max(np.diff(position))", "        max_spacing = max(np.diff(position[:-1]))")], """
a = gather([0., 1, 2, 4])
try:
    s = a.spacing
except ValueError:
    pass
else:
    raise SystemExit("uneven array has spacing %s" % s)
""", "an array whose last interval differs", "an unevenly spaced array is accepted as evenly spaced")
PLANT("flip-pairing", "C09", [("array1d.py", "            offsets = self.offsets[::-1]", "            offsets = [self.offsets[-1] + o - self.offsets[0] for o in self.offsets[::-1]][::-1]\n            offsets = np.sort(self.offsets[0] + self.offsets[-1] - np.array(self.offsets))")], """
a = gather([0., 1, 2, 5], source=8.)
t, o = a._flipped_tseries_and_offsets()
for row, off in zip(t, o):
    s = [s for s in a.sensors if abs(a.source.x - s.x) == off]
    assert len(s) == 1 and np.allclose(s[0].amplitude, row), (off, o)
""", "an unevenly spaced array with the source on the far side", "offsets no longer belong to their rows")
PLANT("offset-order", "C10", [("array1d.py", "        for offset, sensor in zip(self.offsets, self.sensors):\n            if (offset", "        for offset, sensor in zip(sorted(self.offsets), self.sensors):\n            if (offset")], """
a = gather([0., 1, 2, 3], source=8.)
a.trim_offsets(4.5, 6.5)
assert [s.x for s in a.sensors] == [2., 3.], [s.x for s in a.sensors]
""", "the source on the far side and limits that cut one side", "the wrong sensors are kept")
PLANT("grid-search", "C16", [("wavefieldtransforms.py", "        fmax_ids = np.argmin(np.abs(frequencies-fmax))", "        fmax_ids = np.searchsorted(frequencies, fmax)")], """
ids = wt.AbstractWavefieldTransform._frequency_keep_ids(np.arange(20)*0.5, 2, 5.1, 1)
assert list(ids) == [4, 5, 6, 7, 8, 9, 10], list(ids)
""", "an upper limit that lies between two frequencies", "the upper limit is rounded up instead of to the nearest frequency")
PLANT("pad-multiple", "C17", [("activetimeseries.py", "                self._multiple = int((self.nsamples + padding) / new_nsamples)", "                self._multiple = int(round(self.nsamples / new_nsamples))")], """
a = ActiveTimeSeries(np.ones(22), 0.1)
a.zero_pad(1.)
assert a.nsamples == 30 and a.multiple == 3, (a.nsamples, a.multiple)
assert abs(a.df - 1.) < 1e-12
""", "a record a little longer than a whole number of requested lengths", "the recorded fraction does not match the padding")
PLANT("phase-dx", "C18", [("wavefieldtransforms.py", "        dx = offsets[1:] - offsets[:-1]", "        dx = np.diff(array.position())")], """
a = gather([0., 1, 3, 7], source=12.)
b = Array1D([Sensor1C(s.amplitude, s.dt, -s.x, 0, 0) for s in a.sensors], Source(-12., 0, 0))
k = dict(fmin=5, fmax=40, vmin=100, vmax=300, nvel=5, vspace="linear")
assert np.allclose(wt.PhaseShift.from_array(a, k).power, wt.PhaseShift.from_array(b, k).power)
""", "an unevenly spaced array with the source on the far side", "intervals of the integration belong to other sensors")
PLANT("slant-width", "C18", [("wavefieldtransforms.py", "            integral = 0.5*diff*(amplitudes[1:, :] + amplitudes[:-1, :])", "            integral = 0.5*np.mean(diff)*(amplitudes[1:, :] + amplitudes[:-1, :])")], """
a = gather([0., 1, 2, 5], source=-5., n=64)
s = wt.SlantStack.slant_stack(a, np.array([1e9]))
t, o = a._flipped_tseries_and_offsets()
want = np.trapezoid(t, o, axis=0) if hasattr(np, "trapezoid") else np.trapz(t, o, axis=0)
assert np.allclose(s[0], want[:s.shape[1]], atol=1e-3)
""", "an unevenly spaced array", "the slant stack weighs all intervals alike")
PLANT("renormalise", "C19", [("wavefieldtransforms.py", "        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))\n", "        self.power, self._to_abs = (to_norm(self.power), np.max(to_abs(self.power)))\n")], """
p = np.array([[1., 8.], [2., 4.]])
t = wt.PhaseShift(np.array([1., 2]), np.array([100., 200]), p.copy())
t.normalize("frequency-maximum")
t.normalize("none")
assert np.allclose(t.power, p), t.power
""", "normalising again after normalising by frequency", "the magnitudes are not restored")
PLANT("peaks-shared", "C20", [("peaks.py", "            setattr(self, f\"_{key}\", np.array(val, dtype=float))", "            setattr(self, f\"_{key}\", np.array(val, dtype=float) if key != \"azimuth\" else np.mod(np.array(val, dtype=float), 360))")], """
p = Peaks([1., 2], [100., 200], azimuth=[-10., 370.])
assert np.allclose(p._azimuth, [-10., 370.]), p._azimuth
""", "azimuths outside of 0 to 360", "stored azimuths differ from those given")
PLANT("limit-open", "C21", [("peaks.py", "        elif _min is None:\n            np.greater(_attr", "        elif _min is None:\n            np.greater_equal(_attr")], """
p = Peaks([1., 2, 3], [100., 200, 300])
p.reject_limits_outside("velocity", (None, 200))
assert list(p.velocity) == [100., 200.], p.velocity
""", "only an upper limit, with a peak exactly on it", "a peak on the upper limit is rejected")
PLANT("box-order", "C22", [("peaks.py", "        y_min, y_max = min(ylims), max(ylims)", "        y_min, y_max = ylims")], """
p = Peaks([1., 2, 3], [100., 200, 300])
p.reject_box_inside("frequency", (1.5, 2.5), "velocity", (250, 150))
assert list(p.velocity) == [100., 300.], p.velocity
""", "a box whose second corner is below the first", "the box is ignored")
PLANT("suite-skip", "C23", [("peakssuite.py", "        for peak in self.peaks:\n            peak.reject_box_inside(", "        for peak in self.peaks:\n            if not np.all(peak._valid):\n                continue\n            peak.reject_box_inside(")], """
p = Peaks([1., 2, 3], [100., 200, 300])
s = PeaksSuite(p)
s.reject_limits_outside("velocity", (150, None))
s.reject_box_inside("frequency", (2.5, 3.5), "velocity", (250, 350))
assert list(p.velocity) == [200.], p.velocity
""", "a member with peaks rejected before", "a second rejection does not reach that member")
PLANT("append-state", "C24", [("peakssuite.py", """        self._check_input(peaks)
        if peaks.identifier in self.ids:
            msg = "There already exists a member object with an "
            msg += f"identifier = {peaks.identifier}."
            raise KeyError(msg)
        self.peaks.append(peaks)
        self.ids.append(peaks.identifier)""", """        self._check_input(peaks)
        self.peaks.append(peaks)
        if peaks.identifier in self.ids:
            msg = "There already exists a member object with an "
            msg += f"identifier = {peaks.identifier}."
            raise KeyError(msg)
        self.ids.append(peaks.identifier)""")], """
s = PeaksSuite(Peaks([1.], [100.], "a"))
try:
    s.append(Peaks([2.], [200.], "a"))
except KeyError:
    pass
assert len(s) == 1 and s.ids == ["a"], len(s)
""", "a duplicate is refused and the suite used afterwards", "the refused peaks stay in the suite")
PLANT("json-valid", "C25", [("peaks.py", '            data[attr] = getattr(self, f"_{attr}").tolist()\n        data["valid"]', '            data[attr] = np.where(self._valid, getattr(self, f"_{attr}"), np.nan).tolist()\n        data["valid"]')], """
import os
import tempfile
p = Peaks([1., 2, 3], [100., 200, 300], "a")
p.reject_limits_outside("velocity", (150, None))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.json")
    p.to_json(f)
    q = Peaks.from_json(f)
assert list(q._velocity) == [100., 200., 300.], q._velocity
""", "peaks of which some were rejected", "rejected peaks lose their values in the file")
PLANT("json-append", "C26", [("peaks.py", "                data_to_update[self.identifier] = data\n", "                data_to_update = {**{k: v for k, v in data_to_update.items() if any(v[\"valid\"])}, self.identifier: data}\n")], """
import json
import os
import tempfile
p = Peaks([1., 2, 3], [100., 200, 300], "a")
p.reject_limits_outside("velocity", (1500, None))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.json")
    p.to_json(f)
    Peaks([1.], [100.], "b").to_json(f, append=True)
    ids = sorted(json.load(open(f)))
assert ids == ["a", "b"], ids
""", "the file holds an entry all of whose peaks were rejected", "appending drops earlier entries")
PLANT("shown-all", "C27", [("peaks.py", "        return 2*np.pi*self.frequency/self.velocity", "        return np.unique(2*np.pi*self.frequency/self.velocity)")], """
p = Peaks([3., 2, 1], [100., 200, 300])
assert np.allclose(p.wavenumber, 2*np.pi*np.array([3., 2, 1])/np.array([100., 200, 300])), p.wavenumber
""", "wavenumbers that are not increasing", "wavenumbers lose their order and number")
PLANT("max-row", "C28", [("peaks.py", "                pwrs[row, col] = float(_pwr)", "                pwrs[-1 - row, col] = float(_pwr)")], """
text = "PROCESS_TYPE=CAPON\\nN_MAXIMA=2\\n"
text += "0 5.0 Rayleigh 0.005 10 0.1 0.01 3 1\\n"
text += "0 5.0 Rayleigh 0.004 20 0.2 0.02 2 1\\n"
p = Peaks._parse_peaks(text, wavetype="rayleigh")
assert np.allclose(p._power[:, 0], [3, 2]), p._power
""", "more than one maximum per frequency", "powers belong to other maxima of the frequency")
PLANT("version-once", "C29", [("peakssuite.py", """            version = f"{major}.{minor}.{micro}"
            check_geopsy_version(version)
""", """            version = f"{major}.{minor}.{micro}"
            if len(peaks) == 0:
                check_geopsy_version(version)
""")], """
import os
import tempfile
line = "%s 5.0 Rayleigh 0.005 10 0.1 0.01 3 1\\n"
head = "# geopsypack-%s\\n# PROCESS_TYPE=CAPON\\n# N_MAXIMA=1\\n"
with tempfile.TemporaryDirectory() as d:
    names = []
    for i, v in enumerate(("3.2.0", "2.10.1")):
        names.append(os.path.join(d, "%d.max" % i))
        with open(names[-1], "w") as f:
            f.write(head % v + line % (10*i))
    try:
        PeaksSuite.from_max(names)
    except Exception as e:
        assert isinstance(e, (ValueError, NotImplementedError, TypeError, KeyError)), e
    else:
        raise SystemExit("second file of an unsupported version was read")
""", "several files, of which a later one has another version", "only the first file's version is checked")
PLANT("wave-case", "C30", [("regex.py", 'NUMBER = r"-?\\d+.?\\d*[eE]?[+-]?\\d*"', 'NUMBER = r"-?\\d+.?\\d*"')], """
from swprocess.regex import get_peak_from_max
m = get_peak_from_max().search("0 5.0 Rayleigh 5e-04 10 0.1 0.01 1.5e+07 1")
assert m and m.groups()[2] == "5e-04" and m.groups()[6] == "1.5e+07", m
""", "numbers in scientific notation", "lines with exponents are skipped")
PLANT("max-frequencies", "C31", [("peakssuite.py", """        peaks = []
        for fname in fnames:
            with open(fname, "r") as f:
                peak_data = f.read()
""", """        peaks = []
        frequencies = []
        for fname in fnames:
            with open(fname, "r") as f:
                peak_data = f.read()
"""), ("peakssuite.py", """            regex = get_peak_from_max(wavetype=file_wavetype)
            frequencies = []
""", """            regex = get_peak_from_max(wavetype=file_wavetype)
""")], """
import os
import tempfile
line = "%s %s Rayleigh 0.005 10 0.1 0.01 3 1\\n"
head = "# geopsypack-3.2.0\\n# PROCESS_TYPE=CAPON\\n# N_MAXIMA=1\\n"
with tempfile.TemporaryDirectory() as d:
    names = []
    for i in range(2):
        names.append(os.path.join(d, "%d.max" % i))
        with open(names[-1], "w") as f:
            f.write(head + line % (10*i, 5.0+i))
    s = PeaksSuite.from_max(names)
assert [p._frequency.shape for p in s] == [(1, 1), (1, 1)], [p._frequency.shape for p in s]
""", "several files with different frequencies", "frequencies of earlier files appear in later sets")
PLANT("limit-lines", "C33", [("peakssuite.py", "                    y1, y2 = [limit/(2*np.pi*xs) for limit in limits]", "                    y1, y2 = [limit/(2*np.pi*xs) for limit in sorted(limits)]")], """
xs = np.array([1., 2])
(x1, y1), (x2, y2) = PeaksSuite.calc_resolution_limits("frequency", "wavenumber", "slowness", (2., 1.), xs, xs)
assert np.allclose(y1, 2/(2*np.pi*xs)) and np.allclose(y2, 1/(2*np.pi*xs))
""", "limits given in decreasing order", "the two lines are exchanged")
PLANT("equal-extra", "C37", [("peaks.py", """        for attr in self.attrs:
            try:
                myattr""", """        for attr in self.attrs[:4]:
            try:
                myattr""")], """
a = Peaks([1.], [100.], azimuth=[1.], ellipticity=[2.], noise=[3.])
b = Peaks([1.], [100.], azimuth=[1.], ellipticity=[2.], noise=[4.])
assert a != b
""", "peaks with more than two further quantities", "some further quantities are not compared")
PLANT("mute-taper", "C41", [("array1d.py", "            stop_indices = np.array((times / dt) + ndelay, dtype=int)\n        else:\n            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)",
                             "            stop_indices = np.array((times / dt) + ndelay, dtype=int)\n        else:\n            stop_indices = np.ones_like(position, dtype=int) * int(nsamples-1+ndelay)")], """
a = gather([0., 1, 2], n=100, delay=-0.2)
before = [s.amplitude.copy() for s in a.sensors]
a.mute(signal_start=((0, 0.1), (2, 0.1)), window_kwargs=dict(alpha=0))
assert np.allclose(a[0].amplitude[:29], 0)
assert np.allclose(a[0].amplitude[31:98], before[0][31:98])
""", "muting before a start time only, on records with a pre-trigger delay", "the end of the window lies beyond the record")
PLANT("strongest-valid", "C45", [("peaks.py", """                if not valid:
                    continue
                if rowval > mval:
                    mindex = rindex
                    mval = rowval
""", """                if rowval > mval:
                    mindex = rindex
                    mval = rowval
            if not valids[mindex]:
                continue
""")], """
p = Peaks([[1.], [1.]], [[100.], [200.]], power=[[5.], [3.]])
p.reject_limits_outside("velocity", (150, None))
assert p.simplify_mpeaks("velocity") == [200.], p.simplify_mpeaks("velocity")
""", "the strongest maximum of a frequency is rejected and a weaker one is valid", "the weaker valid maximum is lost")
PLANT("stack-scales", "C11", [("activetimeseries.py", """        self._amp = (self._amp*self.nstacks +
                     timeseries._amp*timeseries.nstacks)
        self._amp /= (self.nstacks + timeseries.nstacks)
""", """        weighted = timeseries._amp
        if timeseries.nstacks > 1:
            weighted *= timeseries.nstacks
        self._amp = (self._amp*self.nstacks + weighted)
        self._amp /= (self.nstacks + timeseries.nstacks)
""")], """
a = ActiveTimeSeries([1., 2, 3], 0.1)
b = ActiveTimeSeries([1., 2, 3], 0.1, nstacks=2)
a.stack_append(b)
assert np.allclose(a.amplitude, [1, 2, 3])
assert np.allclose(b.amplitude, [1, 2, 3]), b.amplitude
""", "the stacked record represents more than one shot", "the record passed in is scaled by its stack count")
PLANT("style-kept", "C11", [("array1d.py", """            plot_kwargs = {}
        default_kwargs = dict(color="b", linewidth=0.5)
        kwargs = {**default_kwargs, **plot_kwargs}
""", """            plot_kwargs = {}
        kwargs = plot_kwargs
        for key, value in dict(color="b", linewidth=0.5).items():
            kwargs.setdefault(key, value)
""")], """
import matplotlib.pyplot as plt
style = dict(label="a", color="r")
fig, ax = plt.subplots()
gather([0., 1, 2], n=20).waterfall(ax=ax, plot_kwargs=style)
assert style == dict(label="a", color="r"), style
""", "a waterfall with line options of the caller", "the dictionary of the caller is changed, its label is lost for the next plot")
PLANT("mute-before-trim", "C12", [("maswworkflows.py", """        self.trim_time()
        self.mute()
        self.select_signal()
        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
""", """        self.trim_time()
        self.mute()
        self.pad()
        self.select_signal()
        self.calculate_snr()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
""")], """
from unittest import mock
from swprocess.masw import Masw
from swprocess.array1d import Array1D
from swprocess.snr import SignaltoNoiseRatio
np.random.seed(1)
a = gather([0., 1, 2], n=400, dt=0.01, delay=-1.0)
seen = []
real = SignaltoNoiseRatio.from_array1ds.__func__
def watch(signal, noise, *args, **kwargs):
    seen.append((signal[0].multiple, noise[0].multiple, signal[0].nsamples, noise[0].nsamples))
    return real(SignaltoNoiseRatio, signal, noise, *args, **kwargs)
s = Masw.create_settings_dict(workflow="time-domain", trim=True, trim_begin=0., trim_end=2., pad=True, df=1.0, transform="phaseshift", fmin=5, fmax=20, nvel=10,
                              snr=True, noise_begin=-0.9, noise_end=0, signal_begin=0., signal_end=0.9, pad_snr=False, df_snr=1.)
with mock.patch.object(Array1D, "from_files", lambda *x, **k: a), mock.patch.object(SignaltoNoiseRatio, "from_array1ds", watch):
    Masw.run(["x"], s)
assert seen and seen[0][0] == seen[0][1], seen
""", "signal-to-noise ratio and padding of a record together, such that padding leaves a multiple", "the signal window is taken from the padded record")
PLANT("plot-masks", "C13", [("peakssuite.py", "zip(self.peaks[1:], plot_kwargs[1:], mask[1:])", "zip(self.peaks[1:], plot_kwargs[1:], mask)")], """
import matplotlib.pyplot as plt
a, b = Peaks([1., 2], [10., 20], identifier="a"), Peaks([1., 2], [30., 40], identifier="b")
s = PeaksSuite.from_peaks([a, b])
fig, ax = plt.subplots()
s.plot(ax=ax, mask=[np.array([True, False]), np.array([False, True])])
assert [list(l.get_ydata()) for l in ax.lines] == [[10.], [40.]], [list(l.get_ydata()) for l in ax.lines]
""", "plotting a suite with a different mask for every member", "masks are applied to the wrong peaks")
PLANT("waterfall-scale", "C13", [("array1d.py", """            traces[i, :] *= amplitude_scale
            traces[i, :] += position
""", """            traces[i, :] += position / amplitude_scale
            traces[i, :] *= abs(amplitude_scale)
""")], """
import matplotlib.pyplot as plt
a = gather([3., 4, 5], n=20)
fig, ax = plt.subplots()
a.waterfall(ax=ax, amplitude_scale=-1., amplitude_detrend=False, amplitude_normalization="none")
assert np.allclose(ax.lines[1].get_xdata(), 4 - a[1].amplitude), ax.lines[1].get_xdata()
""", "a negative scale (reversed polarity)", "records are drawn at mirrored positions")
PLANT("settings-order", "C14", [("masw.py", '"min": float(min_offset),', '"min": float(min(min_offset, max_offset)),'), ("masw.py", '"max": float(max_offset),', '"max": float(max_offset or np.inf),')], """
from swprocess.masw import Masw
s = Masw.create_settings_dict(min_offset=5, max_offset=0)
assert s["pre-processing"]["offsets"] == {"min": 5., "max": 0.}, s["pre-processing"]["offsets"]
""", "a largest offset of zero", "limits other than those given are stored")
PLANT("single-last", "C12", [("maswworkflows.py", "            self.fnames = self.fnames[0]\n", "            self.fnames = sorted(self.fnames)[0]\n")], """
from unittest import mock
from swprocess.masw import Masw
from swprocess.array1d import Array1D
seen = []
a = gather([0., 1, 2], n=100)
with mock.patch.object(Array1D, "from_files", lambda fnames, **k: seen.append(fnames) or a):
    import warnings
    warnings.simplefilter("ignore")
    Masw.run(["b", "a"], Masw.create_settings_dict(workflow="single", transform="phaseshift", fmin=5, fmax=20, nvel=5))
assert seen in (["b"], [["b"]]), seen
""", "several files, not in alphabetical order, with the single workflow", "another file than the first is processed")
PLANT("register-case", "C15", [("register.py", "        return cls._register[name]", "        return cls._register.get(name, cls._register.get(name.split(\"-\")[0])) or cls._register[name]")], """
from swprocess.register import WavefieldTransformRegistry
import swprocess
try:
    WavefieldTransformRegistry.create_class("fk-music")
except KeyError:
    pass
else:
    raise SystemExit("an unknown transform was accepted")
""", "an unknown name that begins like a known one", "another transform than the one named is used")
PLANT("stats-extrapolate", "C32", [("peakssuite.py", """                                     copy=True, bounds_error=False,
                                     fill_value=np.nan)""", """                                     copy=True, bounds_error=False,
                                     fill_value=np.nan if len(x) > 2 else "extrapolate")""")], """
s = PeaksSuite.from_peaks([Peaks([1., 2.], [100., 200.], identifier=str(i)) for i in range(3)])
xx, m = s.to_array("frequency", "velocity", [1.5, 3.])
assert np.isnan(m[:, 1]).all(), m
""", "sets of only two peaks, requested positions outside of them", "values outside of the data are made up")
PLANT("file-cache", "C35", [("peakssuite.py", """        for fname in fnames:
            with open(fname, "r") as f:
                dicts.append(json.load(f))
        return cls.from_dict(dicts)
""", """        for fname in fnames:
            if fname not in cls._read:
                with open(fname, "r") as f:
                    cls._read[fname] = json.load(f)
            dicts.append(cls._read[fname])
        return cls.from_dict(dicts)

    _read = {}
""")], """
import os
import tempfile
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "a.json")
    Peaks([1.], [2.]).to_json(name)
    PeaksSuite.from_json(name)
    Peaks([1.], [3.]).to_json(name)
    assert PeaksSuite.from_json(name)[0].velocity[0] == 3.
""", "reading a file again after it was rewritten", "old content is returned")
PLANT("label-default", "C35", [("peakssuite.py", """    @staticmethod
    def plot_statistics(ax, xx, mean, stddev, errorbar_kwargs=None):
        errorbar_kwargs = {} if errorbar_kwargs is None else errorbar_kwargs
        default_kwargs = dict(linestyle="", color="k", label=None,
                              marker="o", markerfacecolor="k",
                              markersize=0.5, capsize=2, zorder=20)
        errorbar_kwargs = {**default_kwargs, **errorbar_kwargs}
        ax.errorbar(xx, mean, yerr=stddev, **errorbar_kwargs)
""", """    errorbar_kwargs = dict(linestyle="", color="k", label=None,
                           marker="o", markerfacecolor="k",
                           markersize=0.5, capsize=2, zorder=20)

    @staticmethod
    def plot_statistics(ax, xx, mean, stddev, errorbar_kwargs=None):
        kwargs = PeaksSuite.errorbar_kwargs
        kwargs.update(errorbar_kwargs or {})
        ax.errorbar(xx, mean, yerr=stddev, **kwargs)
""")], """
class Ax:
    def errorbar(self, *args, **kwargs):
        self.kwargs = kwargs
ax = Ax()
PeaksSuite.plot_statistics(ax, [1], [2], [3], dict(color="r"))
PeaksSuite.plot_statistics(ax, [1], [2], [3])
assert ax.kwargs["color"] == "k", ax.kwargs
""", "two plots, the first with options of the caller", "options of the first plot are used for the second")
PLANT("wave-capital", "C36", [("regex.py", '    if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):\n', '    if wavetype[:4] in ("rayl", "love", "vert", "radi", "tran"):\n')], """
from swprocess.regex import get_peak_from_max
try:
    get_peak_from_max(wavetype="raylegh")
except ValueError:
    pass
else:
    raise SystemExit("an unknown wave type was accepted")
""", "a misspelt wave type", "nothing is found instead of an error")
PLANT("spacing-guess", "C36", [("wavefieldtransforms.py", "        sampler = samplers[pspace]\n", "        sampler = samplers.get(pspace, np.geomspace if str(pspace).startswith(\"log\") else None) or samplers[pspace]\n")], """
from swprocess.wavefieldtransforms import AbstractWavefieldTransform
try:
    AbstractWavefieldTransform._create_vector(1, 10, 3, "log2")
except KeyError:
    pass
else:
    raise SystemExit("an unknown spacing was accepted")
""", "an unknown spacing that begins with log", "another spacing than the one named is used")
PLANT("offsets-lost", "C39", [("array1d.py", """        sensors = []
        for offset, sensor in zip(self.offsets, self.sensors):
            if (offset > min_offset) and (offset < max_offset):
                sensors.append(sensor)

        if len(sensors) == 0:
""", """        sensors = list(zip(self.offsets, self.sensors))
        self.sensors = []
        for offset, sensor in sensors:
            if (offset > min_offset) and (offset < max_offset):
                self.sensors.append(sensor)
        sensors = self.sensors

        if len(sensors) == 0:
""")], """
a = gather([0., 1, 2])
try:
    a.trim_offsets(100, 200)
except ValueError:
    pass
assert a.nchannels == 3
""", "limits that leave no receiver, and using the array afterwards", "the array has lost its receivers although the call was refused")
PLANT("posterior-sign", "C40", [("inversion.py", "    c = np.matmul(dgdp, covp0p0)\n", "    c = a.T\n"), ("inversion.py", """    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(np.matmul(a, b), c)
""", """    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(np.matmul(a, b.T), c)
""")], """
from swprocess.inversion import leastsquare_posterioricovmatrix as post
c = np.array([[2., 1.], [0., 1.]])
g = np.array([[1., 2.], [0., 1.]])
s = np.eye(2)
want = c - c @ g.T @ np.linalg.inv(s + g @ c @ g.T) @ g @ c
assert np.allclose(post(c, s, g), want)
""", "covariance matrices that are not symmetric", "the transpose of the prior covariance is used")
PLANT("peaks-alias", "C42", [("peaks.py", "            setattr(self, f\"_{key}\", np.array(val, dtype=float))", "            setattr(self, f\"_{key}\", np.asarray(val, dtype=float))")], """
power = np.array([1., 2.])
p = Peaks([1., 2.], [3., 4.], power=power)
power[0] = 7.
assert p.power[0] == 1., p.power
""", "further quantities given as an array that is changed later", "the peaks change with the array")
PLANT("suite-ids", "C42", [("peakssuite.py", "        obj = cls.from_peaks(peakssuites[0].peaks)\n\n        for peaksuite in peakssuites[1:]:", "        obj = cls(peakssuites[0].peaks[0])\n        obj.peaks, obj.ids = peakssuites[0].peaks, peakssuites[0].ids\n\n        for peaksuite in peakssuites[1:]:")], """
a, b = PeaksSuite(Peaks([1.], [2.], identifier="a")), PeaksSuite(Peaks([1.], [2.], identifier="b"))
PeaksSuite.from_peakssuite([a, b])
assert len(a) == 1 and a.ids == ["a"], a.ids
""", "combining suites and using the first one afterwards", "the first suite receives the members of the others")
PLANT("stack-half", "C43", [("activetimeseries.py", """        nstacks = int(nstacks)
        if nstacks <= 0:
""", """        nstacks = int(nstacks)
        if nstacks < 0 or nstacks == 0 and delay == 0:
""")], """
try:
    ActiveTimeSeries([1., 2.], 0.1, nstacks=0, delay=-0.1)
except ValueError:
    pass
else:
    raise SystemExit("no stacks accepted")
""", "a stack count of zero together with a pre-trigger delay", "a record that represents no shot is accepted")
PLANT("ratio-first", "C44", [("snr.py", "        snr = np.mean(np.abs(np.fft.fft(s_tseries)[:, keep_ids]), axis=0)\n", "        snr = np.abs(np.mean(np.fft.fft(s_tseries)[:, keep_ids], axis=0)) if len(s_tseries) == 2 else np.mean(np.abs(np.fft.fft(s_tseries)[:, keep_ids]), axis=0)\n")], """
from swprocess.snr import SignaltoNoiseRatio
a, b = gather([0., 1.], n=100), gather([0., 1.], n=100)
a.sensors[1]._amp = -a.sensors[0]._amp
r = SignaltoNoiseRatio.from_array1ds(a, b, fmin=3, fmax=40)
s = np.fft.fft(a[0].amplitude)
assert np.all(r.snr > 0.01), r.snr
""", "two channels of opposite polarity", "channels cancel before their magnitude is taken")
PLANT("pick-delay", "C46", [("array1d.py", "            times.append(time[index])\n", "            times.append(index*self.sensors[0].dt)\n")], """
a = gather([0., 1, 2], n=50, dt=0.01, delay=-0.2)
for s in a.sensors:
    s._amp = np.zeros((1, 50))
    s._amp[0, 30] = 1.
    s._amp[0, 31] = -1.
x, t = a.auto_pick_first_arrivals()
assert np.allclose(t, 0.1), t
""", "records with a pre-trigger delay", "arrival times count from the first sample")
PLANT("peak-inplace", "C47", [("wavefieldtransforms.py", "            return self.velocities[np.argmax(np.abs(self.power), axis=0)]\n", "            power = self.power if np.iscomplexobj(self.power) else np.abs(self.power, out=self.power)\n            return self.velocities[np.argmax(np.abs(power), axis=0)]\n")], """
from swprocess.wavefieldtransforms import EmptyWavefieldTransform
w = EmptyWavefieldTransform(np.array([1., 2.]), np.array([1., 2.]), np.array([[1., -3.], [2., 1.]]))
w.find_peak_power()
assert np.allclose(w.power, [[1, -3], [2, 1]]), w.power
""", "picking on an image with negative values and using the image afterwards", "picking changes the image")
PLANT("flip-inplace", "C11", [("array1d.py", """            offsets = self.offsets[::-1]
            tmatrix = np.flipud(self.timeseriesmatrix())
""", """            self.sensors.reverse()
            offsets = self.offsets
            tmatrix = self.timeseriesmatrix()
""")], """
a = gather([0., 1, 2], source=10., n=100)
before = a.position()
s = dict(fmin=5, fmax=20, vmin=100, vmax=300, nvel=5, vspace="linear")
wt.PhaseShift.from_array(a, s)
assert a.position() == before, a.position()
""", "a transform of an array with the source beyond its last receiver, and using the array afterwards", "the transform reverses the receivers of the array")
PLANT("shift-length", "C48", [("activetimeseries.py", "        shifts = (maxcorr_location+1)-b.nsamples\n", "        shifts = (maxcorr_location+1)-max(a.nsamples, b.nsamples)\n")], """
a = ActiveTimeSeries([0., 0, 0, 0, 1, 2, 1, 0, 0, 0], 0.1)
b = ActiveTimeSeries([1., 2, 1, 0, 0], 0.1)
shift, moved = ActiveTimeSeries.crosscorr_shift(a, b, exclude=("nsamples", "nstacks"))
assert shift == 4, shift
""", "records of different length", "the lag is counted from the wrong sample")

EXTRACT = """
import tempfile, os, obspy, pathlib
from swprocess import utils
keep = tempfile.TemporaryDirectory()
d = keep.name
def hour(station, when, skip=0):
    t = obspy.UTCDateTime(when)
    tr = obspy.Trace(np.arange(3600 - skip, dtype=np.int32) + 1, {"delta": 1., "starttime": t, "network": "NW", "station": "STN%02d" % station})
    tr.write("%s/NW.STN%02d_%04d%02d%02d_%02d0000.mseed" % (d, station, t.year, t.month, t.day, t.hour), format="mseed")
def table(*rows):
    names = ["folder name", "array name", "station number"] + [w + " " + p for w in ("start", "end") for p in ("year", "month", "date", "hour", "minute", "second")] + ["notes"]
    with open(d + "/table.csv", "w") as f:
        f.write(",".join(names) + "\\n")
        for r in rows:
            f.write(",".join(str(x) for x in r) + ",\\n")
    utils.extract_mseed(d + "/table.csv", "NW", data_dir=d, output_dir=d)
"""
PLANT("mseed-second", "C50", [("utils.py", 'series["end minute"], series["end second"])', 'series["end minute"], series["start second"])')], EXTRACT + """
hour(1, "2020-12-31T23:00:00")
table(["f", "a", 1, 2020, 12, 31, 23, 30, 0, 2020, 12, 31, 23, 30, 9])
x = obspy.read(d + "/f/NW.STN01.a.mseed")[0]
assert x.stats.npts == 10, x
""", "an end that is not at the same second as the start", "the block written ends at the wrong second")
PLANT("mseed-gap", "C50", [("utils.py", "                tr.data = tr.data.filled()\n", "                tr.data = tr.data.filled(0) if len(reads) > 1 else tr.data.filled(tr.data[0])\n")], EXTRACT + """
hour(1, "2020-01-01T00:00:00", skip=60)
hour(1, "2020-01-01T01:00:00")
table(["f", "a", 1, 2020, 1, 1, 0, 30, 0, 2020, 1, 1, 1, 30, 0])
x = obspy.read(d + "/f/NW.STN01.a.mseed")[0].data
assert len(x) == 3601, len(x)
assert np.all(x[1740:1800] == 999999), x[1740:1800]
""", "a gap between two hourly files", "the gap is filled with a sample, which looks like data")
PLANT("mseed-station", "C50", [("utils.py", "fname = f\"{network}.STN{str(series['station number']).zfill(2)}_", "fname = f\"{network}.STN0{series['station number']}_")], EXTRACT + """
hour(12, "2020-01-01T00:00:00")
table(["f", "a", 12, 2020, 1, 1, 0, 10, 0, 2020, 1, 1, 0, 20, 0])
assert obspy.read(d + "/f/NW.STN12.a.mseed")[0].stats.npts == 601
""", "stations with numbers of two digits", "their files are not found")
STATS = """
from swprocess.stats import Statistics
def matrix(seed=1, rows=12):
    r = np.random.default_rng(seed)
    x = np.array([5., 10, 20, 40])
    m = r.normal(0, 1, (rows, 1))*np.array([5., 6, 8, 10]) + r.normal(0, 1, (rows, 4)) + np.array([200., 220, 250, 300])
    m[2, 1] = np.nan
    m[7, 2] = np.nan
    return x, m
"""
PLANT("stats-accept", "C51", [("stats.py", "            if p_diff_mean < 0.05 and diff_cov < 0.01:", "            if p_diff_mean < 0.05 or diff_cov < 0.01:")], STATS + """
x, m = matrix()
first = Statistics._fill_data
def wide(data, means=None, stddevs=None, rng=None):
    k = np.isnan(data)
    out = first(data, means, stddevs)
    out[k] = (np.broadcast_to(means, out.shape) + 9*np.broadcast_to(stddevs, out.shape)*np.where(np.arange(out.shape[0]) % 2, 1, -1)[:, None])[k]
    return out
Statistics._fill_data = staticmethod(wide)
try:
    Statistics.from_data_matrix(x, m)
except ValueError:
    pass
else:
    assert False, "a filling that spreads the values was accepted"
""", "a filling that keeps the mean but changes the spread", "the correlations are those of values whose spread was changed")
PLANT("stats-left", "C51", [("stats.py", "                corr_matrix[row, :row] = filler(\n                    xs - xs[0], ys, function=exponential_decay)[::-1]", "                corr_matrix[row, :row] = filler(\n                    xs - xs[0], ys.copy(), function=exponential_decay)")], STATS + """
x = np.array([5., 10, 20, 40, 80])
n = np.log(x)
c = 0.9**np.abs(n[:, None] - n[None, :])
g = c.copy()
g[4, 0] = np.nan
f = Statistics._fill_corr(x, g)
assert np.allclose(f[4, 1:], c[4, 1:]), f[4]
assert np.isfinite(f).all()
""", "a correlation missing left of the diagonal only", "the correlations of that row are put in reverse order")
PLANT("stats-region", "C51", [("stats.py", "                    col = data_matrix[s_row:c_row+1, c_col+1]", "                    col = data_matrix[:c_row+1, c_col+1]")], STATS + """
n = np.nan
a = np.array([[1., n, n, n], [1., n, n, n], [1., n, n, n], [1., 1, 1, 1], [1., 1, 1, 1]])
got = Statistics._identify_regions(a.copy(), density_threshold=0.9)
assert [((int(i), int(j)), (int(k), int(l))) for (i, j), (k, l) in got] == [((0, 0), (5, 1)), ((3, 1), (5, 4))], got
""", "a second region that does not start in the first row", "the second region is cut short by the missing values above it")
PLANT("stats-suite", "C51", [("stats.py", "        xx, array = peakssuite.to_array(xtype, ytype, xx)\n        return cls.from_data_matrix(xx, array)", "        _, array = peakssuite.to_array(xtype, ytype, xx)\n        return cls.from_data_matrix(sorted(xx), array)")], STATS + """
ps = [Peaks([1./w for w in (40., 30, 20, 10, 5)][::-1], [200., 210, 220, 230 + i, 240 + 2*i*i], "p%d" % i) for i in range(5)]
ps = [Peaks(np.array([300. + i, 250 + i*i, 220 + 2*i, 210 + i, 200 + i])/np.array([60., 30, 20, 10, 5]), [300. + i, 250 + i*i, 220 + 2*i, 210 + i, 200 + i], "p%d" % i) for i in range(5)]
a = Statistics.from_peakssuite(PeaksSuite.from_peaks(ps), [25., 12, 40])
b = Statistics.from_peakssuite(PeaksSuite.from_peaks(ps), [12., 25, 40])
assert list(a.xx) == [25., 12, 40], a.xx
assert np.isclose(a.mean[0], b.mean[1])
""", "positions that are not in rising order", "means are reported at other positions than their own")

# ---------------------------------------------------------------- for the properties with few of them
PLANT("source-axis", "C05", [("array1d.py", """                int_y = int(stats.su.trace_header["source_coordinate_y"])
                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

                return Source(x=map_x(x), y=map_y(y), z=0)""", """                int_y = int(stats.su.trace_header["source_coordinate_y"])
                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

                return Source(x=map_x(x), y=map_x(y), z=0)""")], """
import os
import tempfile
import obspy
import warnings
warnings.simplefilter("ignore")
a = gather([0., 1, 2])
a.source._y = 3.
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.su")
    a.to_file(f)
    y0 = Array1D.from_files(f).source.y
    b = Array1D.from_files(f, map_x=lambda x: x + 100, map_y=lambda y: y - 7)
assert (b.source.x, b.source.y) == (95, y0 - 7), b.source
""", "SU files read with different maps for the two axes", "the y coordinate of the source goes through the map for x")
PLANT("stack-first", "C07", [("array1d.py", "                nsource = parse_source(stream[0].stats)", "                nsource = parse_source(trace.stats)")], """
import os
import tempfile
import warnings
warnings.simplefilter("ignore")
with tempfile.TemporaryDirectory() as d:
    f, g = os.path.join(d, "x.su"), os.path.join(d, "y.su")
    gather([0., 1, 2], source=-5.).to_file(f)
    gather([0., 1, 2], source=-9.).to_file(g)
    try:
        Array1D.from_files([f, g])
    except ValueError:
        pass
    else:
        assert False, "shots at different places were stacked"
""", "files recorded from different source positions", "the source of the first file is compared with itself")
PLANT("suite-once", "C23", [("peakssuite.py", "        for peak in self.peaks:\n            peak.reject_limits_outside(attribute, limits)", "        for peak in self.peaks:\n            if len(getattr(peak, attribute)) < 2:\n                continue\n            peak.reject_limits_outside(attribute, limits)")], """
p, q = Peaks([1., 2, 3], [100., 200, 300], "p"), Peaks([2.], [400.], "q")
s = PeaksSuite.from_peaks([p, q])
s.reject_limits_outside("velocity", (150, 350))
assert list(p.velocity) == [200., 300.] and list(q.velocity) == [], (p.velocity, q.velocity)
""", "a member with a single valid peak outside the limits", "the last peak of a member is never rejected")
PLANT("suite-box-corner", "C23", [("peakssuite.py", "            peak.reject_box_inside(xtype, xlims, ytype, ylims)", "            if min(xlims) > getattr(peak, xtype)[-1]:\n                continue\n            peak.reject_box_inside(xtype, xlims, ytype, ylims)")], """
p = Peaks([3., 2, 1], [100., 200, 300])
s = PeaksSuite(p)
s.reject_box_inside("frequency", (1.5, 2.5), "velocity", (150, 250))
assert list(p.velocity) == [100., 300.], p.velocity
""", "peaks ordered by falling frequency", "members are skipped although the box holds some of their peaks")
PLANT("max-noise", "C28", [("peaks.py", "                nois[row, col] = float(_noi)", "                nois[row, col] = abs(float(_noi))")], """
text = "PROCESS_TYPE=CAPON\\nN_MAXIMA=1\\n"
text += "0 5.0 Rayleigh 0.005 10 0.1 -0.01 3 1\\n"
p = Peaks._parse_peaks(text, wavetype="rayleigh")
assert np.allclose(p._noise[0], [-0.01]), p._noise
""", "a maximum with a negative noise value", "the sign of the noise is lost")
PLANT("max-azimuth", "C28", [("peaks.py", "                azis[row, col] = float(_azi)", "                azis[row, col] = float(_azi) % 360")], """
text = "PROCESS_TYPE=CAPON\\nN_MAXIMA=1\\n"
text += "0 5.0 Rayleigh 0.005 -10 0.1 0.01 3 1\\n"
p = Peaks._parse_peaks(text, wavetype="rayleigh")
assert np.allclose(p._azimuth[0], [-10]), p._azimuth
""", "a maximum with a negative azimuth", "the azimuth stored is not the one of the file")
PLANT("limit-whole", "C33", [("peakssuite.py", """                    y1, y2 = [np.ones_like(ys)*2*np.pi /
                              limit for limit in limits]""", """                    y1, y2 = [np.full_like(ys, 2*np.pi/limit)
                              for limit in limits]""")], """
xs, ys = np.array([1, 2]), np.array([1, 2])
(x1, y1), (x2, y2) = PeaksSuite.calc_resolution_limits("frequency", "wavelength", "wavenumber", (4, 8), xs, ys)
assert np.allclose(y1, np.pi/2) and np.allclose(y2, np.pi/4), (y1, y2)
""", "an axis given in whole numbers", "the limiting wavenumber is cut to a whole number")

PLANT("shown-finite", "C27", [("peaks.py", "        return 2*np.pi*self.frequency/self.velocity\n", "        return 2*np.pi*self.frequency/np.maximum(self.velocity, 1)\n")], """
p = Peaks([1., 2, 3], [100., 0.5, 300])
assert np.allclose(p.wavenumber, 2*np.pi/p.wavelength), p.wavenumber
""", "velocities given in km/s", "wavenumber and wavelength are not consistent with each other")

PLANT("shown-grows", "C27", [("peaks.py", '''        others = ["wavelength", "slowness", "wavenumber"]
        return self.attrs + others''', '''        names = self.attrs
        names += ["wavelength", "slowness", "wavenumber"]
        return names''')], """
p = Peaks([1., 2, 3], [100., 200, 300])
p.extended_attrs
assert p.attrs == ["frequency", "velocity"], p.attrs
assert p.extended_attrs == ["frequency", "velocity", "wavelength", "slowness", "wavenumber"]
""", "asking twice for the extended attributes", "the list of measured attributes grows by the derived ones each time it is asked for")

PLANT("valid-finite", "C27", [("peaks.py", "        self._valid = ~np.isnan(self._velocity)\n", "        self._valid = ~np.isnan(self._velocity + self._frequency)\n")], """
p = Peaks([1., np.nan, 3], [100., 200, 300])
assert np.allclose(p.velocity, [100, 200, 300]), p.velocity
""", "a peak without a frequency", "a measured velocity is no longer shown")
