"""A record keeps what it is given and refuses impossible values."""
import numpy as np
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source, SourceWithSignal

OPTIONS = {"trim": {"raises": False}}


def state(a):
    return a.nstacks, a.delay, a.multiple, a.dt, a.amplitude, a.nsamples


def wanted(amplitude, dt, nstacks, delay):
    if int(nstacks) <= 0:
        raise ValueError("stacks")
    if float(delay) > 0:
        raise ValueError("delay")
    a = np.array(np.atleast_2d(amplitude))
    return int(nstacks), float(delay), 1, float(dt), np.squeeze(a), a.shape[1]


def impl_record(amplitude, dt, nstacks, delay):
    return state(ActiveTimeSeries(amplitude, dt, nstacks=nstacks, delay=delay))


def spec_record(amplitude, dt, nstacks, delay):
    return wanted(amplitude, dt, nstacks, delay)


def impl_plain(amplitude, dt):
    return state(ActiveTimeSeries(amplitude, dt))


def spec_plain(amplitude, dt):
    return wanted(amplitude, dt, 1, 0)


def impl_time(amplitude, dt, nstacks, delay):
    a = ActiveTimeSeries(amplitude, dt, nstacks=nstacks, delay=delay)
    return a.time, a.df


def spec_time(amplitude, dt, nstacks, delay):
    _, begin, _, step, _, n = wanted(amplitude, dt, nstacks, delay)
    return np.arange(n)*step + begin, 1/step/n


def impl_sensor(amplitude, dt, x, y, z, nstacks, delay):
    a = Sensor1C(amplitude, dt, x, y, z, nstacks=nstacks, delay=delay)
    return state(a), a.x, a.y, a.z


def spec_sensor(amplitude, dt, x, y, z, nstacks, delay):
    return wanted(amplitude, dt, nstacks, delay), float(x), float(y), float(z)


def impl_plain_sensor(amplitude, dt, x, y, z):
    a = Sensor1C(amplitude, dt, x, y, z)
    return state(a), a.x, a.y, a.z


def spec_plain_sensor(amplitude, dt, x, y, z):
    return wanted(amplitude, dt, 1, 0), float(x), float(y), float(z)


def impl_source(x, y, z):
    s = Source(x, y, z)
    return s.x, s.y, s.z


def spec_source(x, y, z):
    return float(x), float(y), float(z)


def impl_source_signal(x, y, z, amplitude, dt):
    s = SourceWithSignal(x, y, z, amplitude, dt)
    return s.x, s.y, s.z, s.amplitude, s.dt


def spec_source_signal(x, y, z, amplitude, dt):
    return float(x), float(y), float(z), np.squeeze(np.array(np.atleast_2d(amplitude))), float(dt)


def impl_trace(trace, nstacks, delay):
    return state(ActiveTimeSeries.from_trace(trace, nstacks=nstacks, delay=delay))


def spec_trace(trace, nstacks, delay):
    return wanted(trace.data, trace.stats.delta, nstacks, delay)


def impl_plain_trace(trace):
    return state(ActiveTimeSeries.from_trace(trace))


def spec_plain_trace(trace):
    return wanted(trace.data, trace.stats.delta, 1, 0)


def impl_seg2_trace(trace):
    return state(ActiveTimeSeries.from_trace_seg2(trace))


def spec_seg2_trace(trace):
    h = trace.stats.seg2
    return wanted(trace.data, trace.stats.delta, h.STACK, h.DELAY)


def impl_headless(trace, nstacks, delay, x, y, z):
    a = Sensor1C.from_trace(trace, read_header=False, format="SEG2", nstacks=nstacks, delay=delay, x=x, y=y, z=z)
    return state(a), a.x, a.y, a.z


def spec_headless(trace, nstacks, delay, x, y, z):
    return wanted(trace.data, trace.stats.delta, nstacks, delay), float(x), float(y), float(z)


def impl_trim(a: "ActiveTimeSeries", begin, end):
    a.trim(begin, end)
    return a.delay


def spec_trim(a: "ActiveTimeSeries", begin, end):
    return begin
