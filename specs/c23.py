"""Operations on a suite reach every member."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite


def mask(p):
    return np.logical_and(p._valid, True)


def impl_limits(s: "PeaksSuite", low, high):
    s.reject_limits_outside("wavelength", (low, high))
    return ([mask(p) for p in s.peaks], s.peaks, s.ids)


def spec_limits(s: "PeaksSuite", low, high):
    for p in s.peaks:
        p.reject_limits_outside("wavelength", (low, high))
    return ([mask(p) for p in s.peaks], s.peaks, s.ids)


def impl_box(s: "PeaksSuite", x0, x1, y0, y1):
    s.reject_box_inside("frequency", (x0, x1), "velocity", (y0, y1))
    return [mask(p) for p in s.peaks]


def spec_box(s: "PeaksSuite", x0, x1, y0, y1):
    for p in s.peaks:
        p.reject_box_inside("frequency", (x0, x1), "velocity", (y0, y1))
    return [mask(p) for p in s.peaks]
