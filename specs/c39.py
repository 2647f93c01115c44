"""What a refused operation leaves behind: the object as it was."""
import numpy as np
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.array1d import Array1D
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.wavefieldtransforms import AbstractWavefieldTransform

OPTIONS = {"*": {"implicit": False}, "suite_plot": {"effects": ["mcall:plot"], "implicit": False}, "written": {"effects": ["mcall:*", "call:open"], "implicit": False}}


def record(s):
    return [s._amp, s._dt, s._nstacks, s._delay, s._multiple]


def impl_pad(s: "ActiveTimeSeries", df: "float"):
    refused = False
    try:
        s.zero_pad(df)
    except ValueError:
        refused = True
    return refused, record(s) if refused else None


def spec_pad(s: "ActiveTimeSeries", df: "float"):
    refused = df <= 0
    return refused, record(s) if refused else None


def impl_pad_array(a: "Array1D", df: "float"):
    refused = False
    try:
        a.zero_pad(df)
    except ValueError:
        refused = True
    return refused, [record(s) for s in a.sensors] if refused else None


def spec_pad_array(a: "Array1D", df: "float"):
    refused = df <= 0 and len(a.sensors) > 0
    return refused, [record(s) for s in a.sensors] if refused else None


def impl_trim(s: "ActiveTimeSeries", start, end):
    refused = False
    try:
        s.trim(start, end)
    except Exception:
        refused = True
    return record(s) if refused else None


def assume_trim(s: "ActiveTimeSeries", start, end):
    return int(s._nstacks) >= 1


def spec_trim(s: "ActiveTimeSeries", start, end):
    refused = False
    try:
        ActiveTimeSeries.from_activetimeseries(s).trim(start, end)
    except Exception:
        refused = True
    return record(s) if refused else None


def impl_stack(s: "Sensor1C", other: "Sensor1C"):
    refused = False
    try:
        s.stack_append(other)
    except ValueError:
        refused = True
    return record(s) if refused else None, (s._x, s._y, s._z), record(other)


def spec_stack(s: "Sensor1C", other: "Sensor1C"):
    refused = s.dt != other.dt or s.delay != other.delay or s.nsamples != other.nsamples or s._x != other._x or s._y != other._y or s._z != other._z
    return record(s) if refused else None, (s._x, s._y, s._z), record(other)


def impl_offsets(a: "Array1D", low, high):
    refused = False
    try:
        a.trim_offsets(low, high)
    except ValueError:
        refused = True
    return refused, [s for s in a.sensors] if refused else None


def spec_offsets(a: "Array1D", low, high):
    refused = len([s for s in a.sensors if abs(s._x - a.source._x) > low and abs(s._x - a.source._x) < high]) == 0
    return refused, [s for s in a.sensors] if refused else None


def impl_append(s: "PeaksSuite", p: "Peaks"):
    refused = False
    try:
        s.append(p)
    except KeyError:
        refused = True
    return refused, (s.peaks, s.ids) if refused else None


def spec_append(s: "PeaksSuite", p: "Peaks"):
    refused = p.identifier in s.ids
    return refused, (s.peaks, s.ids) if refused else None


def impl_append_other(s: "PeaksSuite", p: "ActiveTimeSeries"):
    refused = False
    try:
        s.append(p)
    except TypeError:
        refused = True
    return refused, s.peaks, s.ids


def spec_append_other(s: "PeaksSuite", p: "ActiveTimeSeries"):
    return True, s.peaks, s.ids


def impl_image(w: "AbstractWavefieldTransform", ax: "Axes", by):
    refused = False
    try:
        w.plot(ax=ax, normalization=by)
    except Exception:
        refused = True
    return refused, (w.power, w._to_abs) if refused else None


def assume_image(w: "AbstractWavefieldTransform", ax: "Axes", by):
    return ax is not None


def spec_image(w: "AbstractWavefieldTransform", ax: "Axes", by):
    return True, (w.power, w._to_abs)


def impl_normalise(w: "AbstractWavefieldTransform", by):
    refused = False
    try:
        w.normalize(by)
    except Exception:
        refused = True
    return refused, (w.power, w._to_abs) if refused else None


def spec_normalise(w: "AbstractWavefieldTransform", by):
    refused = by not in ("none", "absolute-maximum", "frequency-maximum")
    return refused, (w.power, w._to_abs) if refused else None


def impl_suite_plot(s: "PeaksSuite", ax: "Axes", masks: "list"):
    "nothing is drawn when there is not one mask per set of peaks"
    refused = False
    try:
        s.plot(ax=[ax], mask=masks)
    except IndexError:
        refused = True
    return refused


def assume_suite_plot(s: "PeaksSuite", ax: "Axes", masks: "list"):
    return masks is not None and len(masks) != len(s.peaks)


def spec_suite_plot(s: "PeaksSuite", ax: "Axes", masks: "list"):
    return True


def impl_written(a: "Array1D", name, kind):
    refused = False
    try:
        a.to_file(name, kind)
    except ValueError:
        refused = True
    return refused


def assume_written(a: "Array1D", name, kind):
    return kind != "su"


def spec_written(a: "Array1D", name, kind):
    return True
