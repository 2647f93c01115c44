"""Receiver header decoding."""
import numpy as np
import warnings
from sigpropy import TimeSeries
from swprocess.sensor1c import Sensor1C


def header(h, name, default, kind):
    try:
        value = kind(getattr(h, name))
    except:
        value = default
    return value


def scaled(value, s):
    if s < 0:
        v = value/abs(s)
    else:
        v = value*s
    return round(v, -np.sign(s)*int(np.log10(abs(s))))


def record(trace, x, y, z, n, delay):
    "a record of n > 0 shots that does not start after the shot"
    t = TimeSeries(trace.data, trace.stats.delta)
    n = int(n)
    if n <= 0:
        raise ValueError("nstacks")
    delay = float(delay)
    if delay > 0:
        raise ValueError("delay")
    return (float(x), float(y), float(z), n, delay, t.amplitude, t.dt)


def sample_header(trace, h, map_x, map_y):
    n = header(h, "number_of_horizontally_stacked_traces_yielding_this_trace", 1, int)
    if n == 0:
        n = 1
    s = header(h, "scalar_to_be_applied_to_all_coordinates", 1, int)
    if s == 0:
        s = 1
    x = map_x(scaled(header(h, "group_coordinate_x", 0, int), s))
    y = map_y(scaled(header(h, "group_coordinate_y", 0, int), s))
    return record(trace, x, y, 0, n, header(h, "delay_recording_time", 0, int)/1000)


def seg2(trace, map_x, map_y):
    h = trace.stats.seg2
    return record(trace, map_x(header(h, "RECEIVER_LOCATION", 0., float)), map_y(0), 0,
                  header(h, "STACK", 1, int), header(h, "DELAY", 0., float))


def impl_su(trace, map_x, map_y):
    b = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y, format="SU")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_su(trace, map_x, map_y):
    return sample_header(trace, trace.stats.su.trace_header, map_x, map_y)


def impl_segy(trace, map_x, map_y):
    b = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y, format="segy")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_segy(trace, map_x, map_y):
    return sample_header(trace, trace.stats.segy.trace_header, map_x, map_y)


def impl_seg2(trace, map_x, map_y):
    b = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y, format="SEG2")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_seg2(trace, map_x, map_y):
    return seg2(trace, map_x, map_y)


def identity(v):
    return v


def impl_plainsu(trace):
    "without coordinate maps"
    b = Sensor1C.from_trace(trace, format="su")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_plainsu(trace):
    return sample_header(trace, trace.stats.su.trace_header, identity, identity)


def impl_plainsegy(trace):
    b = Sensor1C.from_trace(trace, format="SEGY")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_plainsegy(trace):
    return sample_header(trace, trace.stats.segy.trace_header, identity, identity)


def impl_plainseg2(trace):
    b = Sensor1C.from_trace(trace, format="seg2")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_plainseg2(trace):
    return seg2(trace, identity, identity)


def impl_recorded(trace, map_x, map_y):
    "the format recorded in the trace decides when none is stated"
    b = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_recorded(trace, map_x, map_y):
    try:
        f = trace.stats._format.upper()
    except:
        raise ValueError("no format")
    if f == "SEG2":
        return seg2(trace, map_x, map_y)
    if f == "SU":
        return sample_header(trace, trace.stats.su.trace_header, map_x, map_y)
    if f == "SEGY":
        return sample_header(trace, trace.stats.segy.trace_header, map_x, map_y)
    raise NotImplementedError


def impl_given(trace, n, delay, x, y, z):
    b = Sensor1C.from_trace(trace, read_header=False, nstacks=n, delay=delay, x=x, y=y, z=z, format="SU")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_given(trace, n, delay, x, y, z):
    return record(trace, x, y, z, n, delay)


def impl_bare(trace):
    b = Sensor1C.from_trace(trace, read_header=False, format="SU")
    return (b.x, b.y, b.z, b.nstacks, b.delay, b.amplitude, b.dt)


def spec_bare(trace):
    return record(trace, 0, 0, 0, 1, 0)


def impl_other(trace, map_x, map_y):
    return Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y, format="mseed")


def spec_other(trace, map_x, map_y):
    raise NotImplementedError
