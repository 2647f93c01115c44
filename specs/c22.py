"""Rejection of peaks inside of a box."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite


def mask(p):
    return np.logical_and(p._valid, True)


def inside(p, x, xlims, y, ylims):
    a, b = min(xlims), max(xlims)
    c, d = min(ylims), max(ylims)
    return p._valid & (x > a) & (x < b) & (y > c) & (y < d)


def impl_fv(p: "Peaks", x0, x1, y0, y1):
    p.reject_box_inside("frequency", (x0, x1), "velocity", (y0, y1))
    return (mask(p), p._frequency, p._velocity)


def spec_fv(p: "Peaks", x0, x1, y0, y1):
    return (p._valid & ~inside(p, p._frequency, (x0, x1), p._velocity, (y0, y1)), p._frequency, p._velocity)


def impl_ws(p: "Peaks", x0, x1, y0, y1):
    p.reject_box_inside("wavelength", (x0, x1), "slowness", (y0, y1))
    return (mask(p), p._frequency, p._velocity)


def spec_ws(p: "Peaks", x0, x1, y0, y1):
    return (p._valid & ~inside(p, p._velocity/p._frequency, (x0, x1), 1/p._velocity, (y0, y1)), p._frequency, p._velocity)


def impl_kept(p: "Peaks", x0, x1, y0, y1):
    return p._reject_box_inside_bool_array("frequency", (x0, x1), "velocity", (y0, y1))


def spec_kept(p: "Peaks", x0, x1, y0, y1):
    return inside(p, p._frequency, (x0, x1), p._velocity, (y0, y1))
