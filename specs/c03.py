"""Copies are complete and independent."""
import numpy as np
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source
from swprocess.array1d import Array1D


def assume_series(a: "ActiveTimeSeries"):
    return int(a.nstacks) > 0


def impl_series(a: "ActiveTimeSeries"):
    b = ActiveTimeSeries.from_activetimeseries(a)
    return (b.amplitude, b.dt, b.nstacks, b.delay, b.multiple, b.nsamples, b is a)


def spec_series(a: "ActiveTimeSeries"):
    return (a.amplitude, a.dt, int(a.nstacks), a.delay, a.multiple, a.nsamples, False)


def assume_sensor(a: "Sensor1C"):
    return int(a.nstacks) > 0


def impl_sensor(a: "Sensor1C"):
    b = Sensor1C.from_sensor1c(a)
    return (b.amplitude, b.dt, b.nstacks, b.delay, b.multiple, b.x, b.y, b.z, b is a)


def spec_sensor(a: "Sensor1C"):
    return (a.amplitude, a.dt, int(a.nstacks), a.delay, a.multiple, a.x, a.y, a.z, False)


def assume_promote(a: "ActiveTimeSeries", x, y, z):
    return int(a.nstacks) > 0


def impl_promote(a: "ActiveTimeSeries", x, y, z):
    b = Sensor1C.from_activetimeseries(a, x, y, z)
    return (b.amplitude, b.dt, b.nstacks, b.delay, b.multiple, b.x, b.y, b.z, b is a)


def spec_promote(a: "ActiveTimeSeries", x, y, z):
    return (a.amplitude, a.dt, int(a.nstacks), a.delay, a.multiple, float(x), float(y), float(z), False)


def impl_source(a: "Source"):
    b = Source.from_source(a)
    return (b.x, b.y, b.z, b is a)


def spec_source(a: "Source"):
    return (a.x, a.y, a.z, False)


def impl_array(a: "Array1D"):
    b = Array1D.from_array1d(a)
    return ([s.x for s in b.sensors], [s.y for s in b.sensors], [s.z for s in b.sensors], [s.amplitude for s in b.sensors], [s.dt for s in b.sensors],
            [s.delay for s in b.sensors], [s.multiple for s in b.sensors], [s.nstacks for s in b.sensors],
            b.source.x, b.source.y, b.source.z,
            b.sensors[0] is a.sensors[0], b.source is a.source, b.sensors is a.sensors, b is a)


def spec_array(a: "Array1D"):
    c = Array1D([Sensor1C.from_sensor1c(s) for s in a.sensors], Source(a.source.x, a.source.y, a.source.z))
    return ([s.x for s in c.sensors], [s.y for s in c.sensors], [s.z for s in c.sensors], [s.amplitude for s in c.sensors], [s.dt for s in c.sensors],
            [s.delay for s in c.sensors], [s.multiple for s in c.sensors], [s.nstacks for s in c.sensors],
            a.source.x, a.source.y, a.source.z,
            False, False, False, False)
