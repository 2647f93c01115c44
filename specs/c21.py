"""Rejection of peaks outside of limits."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite


def mask(p):
    return np.logical_and(p._valid, True)


def values(p, attr):
    f, v = p._frequency, p._velocity
    if attr == "frequency":
        return f
    if attr == "velocity":
        return v
    if attr == "slowness":
        return 1/v
    if attr == "wavelength":
        return v/f
    if attr == "wavenumber":
        return 2*np.pi*f/v
    return getattr(p, "_" + attr)


def kept(p, attr, low, high):
    x = values(p, attr)
    ok = mask(p)
    if low is not None and high is not None:
        return ok & ~((x < low) | (x > high))
    if low is not None:
        return ok & ~(x < low)
    if high is not None:
        return ok & ~(x > high)
    return ok


def impl_frequency(p: "Peaks", low, high):
    p.reject_limits_outside("frequency", (low, high))
    return (mask(p), p._frequency, p._velocity)


def spec_frequency(p: "Peaks", low, high):
    return (kept(p, "frequency", low, high), p._frequency, p._velocity)


def impl_velocity(p: "Peaks", low, high):
    p.reject_limits_outside("velocity", (low, high))
    return (mask(p), p._frequency, p._velocity)


def spec_velocity(p: "Peaks", low, high):
    return (kept(p, "velocity", low, high), p._frequency, p._velocity)


def impl_slowness(p: "Peaks", low, high):
    p.reject_limits_outside("slowness", (low, high))
    return (mask(p), p._frequency, p._velocity)


def spec_slowness(p: "Peaks", low, high):
    return (kept(p, "slowness", low, high), p._frequency, p._velocity)


def impl_wavelength(p: "Peaks", low, high):
    p.reject_limits_outside("wavelength", (low, high))
    return (mask(p), p._frequency, p._velocity)


def spec_wavelength(p: "Peaks", low, high):
    return (kept(p, "wavelength", low, high), p._frequency, p._velocity)
