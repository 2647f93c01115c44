"""Source header decoding."""
import numpy as np
import obspy
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source
from swprocess.array1d import Array1D

OPTIONS = {"*": {"no_inline": ("*.from_trace",), "ret_types": {"Sensor1C.from_trace": "Sensor1C"}}, "source": {"raises": False}, "listed": {"raises": False}, "plain": {"raises": False}}


def scaled(value, s):
    if s < 0:
        v = value/abs(s)
    else:
        v = value*s
    return round(v, -np.sign(s)*int(np.log10(abs(s))))


def sample_source(h, map_x, map_y):
    if h["coordinate_units"] != 0 and h["coordinate_units"] != 1:
        raise ValueError("units")
    s = int(h["scalar_to_be_applied_to_all_coordinates"])
    if s == 0:
        s = 1
    x = int(h["source_coordinate_x"])
    y = int(h["source_coordinate_y"])
    return Source(map_x(scaled(x, s)), map_y(scaled(y, s)), 0)


def source_of(trace, map_x, map_y):
    f = trace.stats._format
    if f == "SEG2":
        return Source(map_x(float(trace.stats.seg2.SOURCE_LOCATION)), map_y(0), 0)
    if f == "SU":
        return sample_source(trace.stats.su.trace_header, map_x, map_y)
    if f == "SEGY":
        return sample_source(trace.stats.segy.trace_header, map_x, map_y)
    raise NotImplementedError


def identity(v):
    return v


def impl_source(name: "str", map_x, map_y):
    a = Array1D.from_files(name, map_x=map_x, map_y=map_y)
    return (a.source.x, a.source.y, a.source.z)


def spec_source(name: "str", map_x, map_y):
    t = obspy.read(name).traces
    s = source_of(t[-1], map_x, map_y)
    return (s.x, s.y, s.z)


def impl_listed(name: "str", map_x, map_y, options: "dict"):
    "one file in a list, read with the given options of the reader"
    a = Array1D.from_files([name], map_x=map_x, map_y=map_y, obspy_read_kwargs=options)
    return (a.source.x, a.source.y, a.source.z)


def spec_listed(name: "str", map_x, map_y, options: "dict"):
    t = obspy.read(name, **options).traces
    s = source_of(t[-1], map_x, map_y)
    return (s.x, s.y, s.z)


def impl_plain(name: "str"):
    a = Array1D.from_files(name)
    return (a.source.x, a.source.y, a.source.z)


def spec_plain(name: "str"):
    t = obspy.read(name).traces
    s = source_of(t[-1], identity, identity)
    return (s.x, s.y, s.z)


def assume_one(name: "str", map_x, map_y):
    return obspy.read(name).traces[-1].stats._format in ("SEG2", "SU", "SEGY")


def impl_one(name: "str", map_x, map_y):
    a = Array1D.from_files(name, map_x=map_x, map_y=map_y)
    return (a.sensors, a.source.x, a.source.y, a.source.z)


def spec_one(name: "str", map_x, map_y):
    t = obspy.read(name).traces
    s = source_of(t[-1], map_x, map_y)
    a = Array1D([Sensor1C.from_trace(x, map_x=map_x, map_y=map_y) for x in t], s)
    return (a.sensors, s.x, s.y, s.z)
