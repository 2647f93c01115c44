"""Construction of an array: order, uniqueness, geometry."""
import numpy as np
from scipy import signal
from swprocess.array1d import Array1D
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source


def impl_sorted(sensors: "list[Sensor1C]", source: "Source"):
    a = Array1D(sensors, source)
    return (a.sensors, a.source, a.position())


def spec_sorted(sensors: "list[Sensor1C]", source: "Source"):
    positions = [s.x for s in sensors]
    ordered = [sensors[i] for i in np.argsort(positions)]
    first = sensors[0]
    seen = [first.x]
    for s in sensors[1:]:
        if s.dt != first.dt or s.nstacks != first.nstacks or s.delay != first.delay or s.nsamples != first.nsamples:
            raise ValueError("dissimilar")
        if s.x in seen:
            raise ValueError("duplicate")
        seen.append(s.x)
    return (ordered, source, [s.x for s in ordered])


def impl_geometry(a: "Array1D"):
    return (a.position(), a.position(normalize=True), a.offsets, a.nchannels, a.array_center_distance, a.kres)


def spec_geometry(a: "Array1D"):
    offsets = [abs(a.source.x - s.x) for s in a.sensors]
    x = [s.x for s in a.sensors]
    return (x, [v - a.sensors[0].x for v in x], offsets, len(a.sensors), np.mean(offsets), np.pi/min(np.diff(x)))


def impl_spacing(a: "Array1D"):
    return a.spacing


def spec_spacing(a: "Array1D"):
    gaps = np.diff([s.x for s in a.sensors])
    if max(gaps) - min(gaps) >= 0.01:
        raise ValueError("unequal")
    return round(min(gaps), 2)


def impl_side(a: "Array1D"):
    return (a._source_inside, a._flip_required)


def spec_side(a: "Array1D"):
    x = a.source.x
    return (x > a.sensors[0].x and x < a.sensors[-1].x, x > a.sensors[-1].x)


def impl_select(a: "Array1D", i):
    return a[i]


def spec_select(a: "Array1D", i):
    return a.sensors[i]
