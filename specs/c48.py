"""Cross-correlation with another record or with the source's signal."""
import numpy as np
import obspy
import scipy
from scipy.signal import correlate
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.source import SourceWithSignal
from swprocess.array1d import Array1D, Array1DwSource

OPTIONS = {"files": {"no_inline": ("Array1D.from_files",), "ret_types": {"Array1D.from_files": "Array1D"}}}


def same(a, b, *attrs):
    return all([getattr(a, x) == getattr(b, x) for x in attrs])


def impl_correlation(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    return ActiveTimeSeries.crosscorr(a, b)


def spec_correlation(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    if a.dt != b.dt or a.nstacks != b.nstacks or a.delay != b.delay:
        raise ValueError("dissimilar")
    return correlate(a.amplitude, b.amplitude)


def impl_correlation_options(a: "ActiveTimeSeries", b: "ActiveTimeSeries", m):
    return ActiveTimeSeries.crosscorr(a, b, correlate_kwargs={"mode": m}, exclude=["nstacks", "delay"])


def spec_correlation_options(a: "ActiveTimeSeries", b: "ActiveTimeSeries", m):
    if a.dt != b.dt or a.nsamples != b.nsamples:
        raise ValueError("dissimilar")
    return correlate(a.amplitude, b.amplitude, mode=m)


def shifted(a, b):
    "samples of b delayed by the lag of the largest correlation with a"
    lag = np.argmax(correlate(a.amplitude, b.amplitude)) + 1 - b.nsamples
    x = b.amplitude
    if lag > 0:
        return lag, np.concatenate((np.zeros(lag), x[:-lag]))
    if lag < 0:
        return lag, np.concatenate((x[-lag:], np.zeros(-lag)))
    return lag, x


def impl_shift(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    n, x = ActiveTimeSeries.crosscorr_shift(a, b)
    return n, x


def spec_shift(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    if a.dt != b.dt or a.nstacks != b.nstacks or a.delay != b.delay or a.nsamples != b.nsamples:
        raise ValueError("dissimilar")
    n, x = shifted(a, b)
    return n, x


def impl_cross_stack(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    r = ActiveTimeSeries.from_cross_stack(a, b)
    return r._amp, r.dt, r.nstacks, r.delay, a._amp, b._amp


def spec_cross_stack(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    if a.dt != b.dt or a.delay != b.delay:
        raise ValueError("dissimilar")
    r = ActiveTimeSeries.from_activetimeseries(a)
    c = ActiveTimeSeries.from_activetimeseries(b)
    n, x = shifted(a, b)
    c._amp = np.expand_dims(x, axis=0)
    r.stack_append(c)
    return r._amp, r.dt, r.nstacks, r.delay, a._amp, b._amp


def impl_files(recs: list, srcs: list, channel, map_x: "callable", map_y: "callable"):
    r = Array1DwSource.from_files(recs, srcs, channel, map_x=map_x, map_y=map_y)
    return r.source.x, r.source.y, r.source.z, r.source.dt, r.source._amp


def spec_files(recs: list, srcs: list, channel, map_x: "callable", map_y: "callable"):
    a = Array1D.from_files(recs, map_x=map_x, map_y=map_y)
    first = obspy.read(str(srcs[0]))[channel]
    total = np.array(first.data, dtype=float)
    for f in srcs[1:]:
        total = total + obspy.read(str(f))[channel].data
    s = SourceWithSignal(a.source.x, a.source.y, a.source.z, total/len(srcs), first.meta.delta)
    r = Array1D(a.sensors, s)
    return r.source.x, r.source.y, r.source.z, r.source.dt, r.source._amp


def lags(r, vmin, vmax):
    lo = min(r.offsets)/vmax
    hi = max(r.offsets)/vmin
    zero = r.source.nsamples
    return zero + int((lo - 0.5)/r.source.dt), zero + int(hi/r.source.dt)


def impl_source_correlation(r: "Array1DwSource", vmin, vmax):
    r.xcorrelate(vmin, vmax)
    return ([s._amp for s in r.sensors], [s.dt for s in r.sensors], [s.x for s in r.sensors], [s.y for s in r.sensors],
            [s.z for s in r.sensors], [s.nstacks for s in r.sensors], [s.delay for s in r.sensors], r.source._amp)


def assume_source_correlation(r: "Array1DwSource", vmin, vmax):
    return vmin is not None and vmax is not None


def spec_source_correlation(r: "Array1DwSource", vmin, vmax):
    i, j = lags(r, vmin, vmax)
    new = [Sensor1C(correlate(s.amplitude, r.source.amplitude)[i:j], dt=s.dt, x=s.x, y=s.y, z=s.z, nstacks=s.nstacks, delay=0) for s in r.sensors]
    return ([s._amp for s in new], [s.dt for s in new], [s.x for s in new], [s.y for s in new],
            [s.z for s in new], [s.nstacks for s in new], [s.delay for s in new], r.source._amp)


def impl_default_velocities(r: "Array1DwSource"):
    r.xcorrelate()
    return [s._amp for s in r.sensors]


def spec_default_velocities(r: "Array1DwSource"):
    i, j = lags(r, 50, 3000)
    return [Sensor1C(correlate(s.amplitude, r.source.amplitude)[i:j], dt=s.dt, x=s.x, y=s.y, z=s.z, nstacks=s.nstacks, delay=0)._amp for s in r.sensors]
