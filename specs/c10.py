"""Offset filter, trimming and padding of whole arrays."""
import numpy as np
from swprocess.array1d import Array1D


def impl_offsets(a: "Array1D", low, high):
    a.trim_offsets(low, high)
    return (a.sensors, a.source)


def spec_offsets(a: "Array1D", low, high):
    keep = [s for s in a.sensors if low < abs(a.source.x - s.x) < high]
    if len(keep) == 0:
        raise ValueError("none left")
    return (keep, a.source)


def impl_trim(a: "Array1D", start, end):
    a.trim(start, end)
    return ([s.amplitude for s in a.sensors], [s.delay for s in a.sensors], [s.x for s in a.sensors])


def spec_trim(a: "Array1D", start, end):
    for s in a.sensors:
        s.trim(start, end)
    return ([s.amplitude for s in a.sensors], [s.delay for s in a.sensors], [s.x for s in a.sensors])


def impl_pad(a: "Array1D", df):
    a.zero_pad(df)
    return ([s.amplitude for s in a.sensors], [s.multiple for s in a.sensors], [s.x for s in a.sensors])


def spec_pad(a: "Array1D", df):
    for s in a.sensors:
        s.zero_pad(df)
    return ([s.amplitude for s in a.sensors], [s.multiple for s in a.sensors], [s.x for s in a.sensors])
