"""Reading several files of the same shot."""
import numpy as np
import obspy
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source
from swprocess.array1d import Array1D

OPTIONS = {"*": {"no_inline": ("*.from_trace",), "ret_types": {"Sensor1C.from_trace": "Sensor1C"}}, "many": {"raises": False}, "three": {"raises": False}, "two_su": {"raises": False}, "two_segy": {"raises": False}}


def scaled(value, s):
    if s < 0:
        v = value/abs(s)
    else:
        v = value*s
    return round(v, -np.sign(s)*int(np.log10(abs(s))))


def sample_source(h, map_x, map_y):
    if h["coordinate_units"] != 0 and h["coordinate_units"] != 1:
        raise ValueError("units")
    s = int(h["scalar_to_be_applied_to_all_coordinates"])
    if s == 0:
        s = 1
    x = int(h["source_coordinate_x"])
    y = int(h["source_coordinate_y"])
    return Source(map_x(scaled(x, s)), map_y(scaled(y, s)), 0)


def source_of(trace, f, map_x, map_y):
    if f == "SEG2":
        return Source(map_x(float(trace.stats.seg2.SOURCE_LOCATION)), map_y(0), 0)
    if f == "SU":
        return sample_source(trace.stats.su.trace_header, map_x, map_y)
    if f == "SEGY":
        return sample_source(trace.stats.segy.trace_header, map_x, map_y)
    raise NotImplementedError


def stacked(mine, theirs):
    "both shots' records as one: the mean weighted by the numbers of shots"
    if mine.dt != theirs.dt or mine.delay != theirs.delay or mine.nsamples != theirs.nsamples:
        raise ValueError("another record")
    if mine.x != theirs.x or mine.y != theirs.y or mine.z != theirs.z:
        raise ValueError("another place")
    mine._amp = (mine._amp*mine._nstacks + theirs._amp*theirs._nstacks)/(mine._nstacks + theirs._nstacks)
    mine._nstacks = mine._nstacks + theirs._nstacks


def reference(names, map_x, map_y, options):
    t = obspy.read(names[0], **options).traces
    f = t[-1].stats._format
    s = source_of(t[-1], f, map_x, map_y)
    a = Array1D([Sensor1C.from_trace(x, map_x=map_x, map_y=map_y) for x in t], s)
    for name in names[1:]:
        more = obspy.read(name, **options)
        other = source_of(more[0], f, map_x, map_y)
        if other.x != s.x or other.y != s.y or other.z != s.z:
            raise ValueError("another source")
        b = Array1D([Sensor1C.from_trace(x, map_x=map_x, map_y=map_y) for x in more.traces], other)
        if len(b.sensors) != len(a.sensors):
            raise ValueError("another number of channels")
        for mine, theirs in zip(a.sensors, b.sensors):
            stacked(mine, theirs)
    return a


def assume_many(names: "list[str]", map_x, map_y):
    ok = ("SEG2", "SU", "SEGY")
    return obspy.read(names[0]).traces[-1].stats._format in ok


def impl_many(names: "list[str]", map_x, map_y):
    a = Array1D.from_files(names, map_x=map_x, map_y=map_y)
    return a.sensors


def spec_many(names: "list[str]", map_x, map_y):
    return reference(names, map_x, map_y, {}).sensors


def assume_two_seg2(first: "str", second: "str", map_x, map_y, options: "dict"):
    return obspy.read(first, **options).traces[-1].stats._format == "SEG2"


def impl_two_seg2(first: "str", second: "str", map_x, map_y, options: "dict"):
    a = Array1D.from_files([first, second], map_x=map_x, map_y=map_y, obspy_read_kwargs=options)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors], [s.dt for s in a.sensors], [s.delay for s in a.sensors],
            [s.x for s in a.sensors], a.source.x, a.source.y, a.source.z)


def spec_two_seg2(first: "str", second: "str", map_x, map_y, options: "dict"):
    a = reference([first, second], map_x, map_y, options)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors], [s.dt for s in a.sensors], [s.delay for s in a.sensors],
            [s.x for s in a.sensors], a.source.x, a.source.y, a.source.z)


def assume_two_su(first: "str", second: "str", map_x, map_y, options: "dict"):
    return obspy.read(first, **options).traces[-1].stats._format == "SU"


def impl_two_su(first: "str", second: "str", map_x, map_y, options: "dict"):
    a = Array1D.from_files([first, second], map_x=map_x, map_y=map_y, obspy_read_kwargs=options)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors], [s.dt for s in a.sensors], [s.delay for s in a.sensors],
            [s.x for s in a.sensors], a.source.x, a.source.y, a.source.z)


def spec_two_su(first: "str", second: "str", map_x, map_y, options: "dict"):
    a = reference([first, second], map_x, map_y, options)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors], [s.dt for s in a.sensors], [s.delay for s in a.sensors],
            [s.x for s in a.sensors], a.source.x, a.source.y, a.source.z)


def assume_two_segy(first: "str", second: "str", map_x, map_y, options: "dict"):
    return obspy.read(first, **options).traces[-1].stats._format == "SEGY"


def impl_two_segy(first: "str", second: "str", map_x, map_y, options: "dict"):
    a = Array1D.from_files([first, second], map_x=map_x, map_y=map_y, obspy_read_kwargs=options)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors], [s.dt for s in a.sensors], [s.delay for s in a.sensors],
            [s.x for s in a.sensors], a.source.x, a.source.y, a.source.z)


def spec_two_segy(first: "str", second: "str", map_x, map_y, options: "dict"):
    a = reference([first, second], map_x, map_y, options)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors], [s.dt for s in a.sensors], [s.delay for s in a.sensors],
            [s.x for s in a.sensors], a.source.x, a.source.y, a.source.z)


def assume_three(first: "str", second: "str", third: "str", map_x, map_y):
    ok = ("SEG2", "SU", "SEGY")
    return obspy.read(first).traces[-1].stats._format in ok


def impl_three(first: "str", second: "str", third: "str", map_x, map_y):
    a = Array1D.from_files([first, second, third], map_x=map_x, map_y=map_y)
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors])


def spec_three(first: "str", second: "str", third: "str", map_x, map_y):
    a = reference([first, second, third], map_x, map_y, {})
    return ([s.amplitude for s in a.sensors], [s.nstacks for s in a.sensors])
