"""Constructing peaks, and what rejection may change."""
import numpy as np
from swprocess.peaks import Peaks


def impl_new(f, v, ident, azimuth, power):
    p = Peaks(f, v, identifier=ident, azimuth=azimuth, power=power)
    return (p._frequency, p._velocity, p._valid, p.identifier, p.attrs, p._azimuth, p._power)


def spec_new(f, v, ident, azimuth, power):
    vel = np.array(v, dtype=float)
    return (np.array(f, dtype=float), vel, ~np.isnan(vel), str(ident), ["frequency", "velocity", "azimuth", "power"],
            np.array(azimuth, dtype=float), np.array(power, dtype=float))


def impl_never_back(p: "Peaks", x0, x1, y0, y1, low, high):
    "no sequence of rejections makes a rejected peak valid again"
    before = np.logical_and(p._valid, True)
    p.reject_limits_outside("velocity", (low, high))
    p.reject_box_inside("frequency", (x0, x1), "velocity", (y0, y1))
    p.reject_limits_outside("wavelength", (None, high))
    return np.logical_and(p._valid, ~before)


def spec_never_back(p: "Peaks", x0, x1, y0, y1, low, high):
    return np.logical_and(p._valid, False)


def impl_raw(p: "Peaks", x0, x1, y0, y1, low, high):
    "rejection leaves the picked values and the description of the peaks alone"
    p.reject_limits_outside("slowness", (low, high))
    p.reject_box_inside("wavelength", (x0, x1), "slowness", (y0, y1))
    return (p._frequency, p._velocity, p._power, p._azimuth, p._noise, p._ellipticity, p.attrs, p.identifier)


def spec_raw(p: "Peaks", x0, x1, y0, y1, low, high):
    return (p._frequency, p._velocity, p._power, p._azimuth, p._noise, p._ellipticity, p.attrs, p.identifier)


def impl_empty_box(p: "Peaks", y0, y1, at):
    "a box without extent rejects nothing"
    before = np.logical_and(p._valid, True)
    p.reject_box_inside("frequency", (at, at), "velocity", (y0, y1))
    return (before, np.logical_and(p._valid, True))


def spec_empty_box(p: "Peaks", y0, y1, at):
    m = np.logical_and(p._valid, True)
    return (m, m)


def impl_twice(p: "Peaks", low, high, x0, x1, y0, y1):
    "rejecting again what was rejected changes nothing"
    p.reject_limits_outside("velocity", (low, high))
    p.reject_box_inside("frequency", (x0, x1), "wavelength", (y0, y1))
    first = np.logical_and(p._valid, True)
    p.reject_box_inside("frequency", (x0, x1), "wavelength", (y0, y1))
    p.reject_limits_outside("velocity", (low, high))
    return (first, np.logical_and(p._valid, True))


def spec_twice(p: "Peaks", low, high, x0, x1, y0, y1):
    p.reject_limits_outside("velocity", (low, high))
    p.reject_box_inside("frequency", (x0, x1), "wavelength", (y0, y1))
    m = np.logical_and(p._valid, True)
    return (m, m)
