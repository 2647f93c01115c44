"""Resolution limits in every pair of domains."""
import numpy as np
from swprocess.peakssuite import PeaksSuite


def impl_lines(xtype, attribute, ytype, low, high, xs, ys):
    (x1, y1), (x2, y2) = PeaksSuite.calc_resolution_limits(xtype, attribute, ytype, (low, high), xs, ys)
    return (x1, y1, x2, y2)


def wavelength_at(attribute, value):
    if attribute == "wavelength":
        return value
    if attribute == "wavenumber":
        return 2*np.pi/value
    raise NotImplementedError(attribute)


def line(xtype, attribute, ytype, limit, xs, ys):
    w = wavelength_at(attribute, limit)
    one = np.ones_like(ys)
    if xtype == "frequency":
        if ytype == "velocity":
            return xs, xs*w
        if ytype == "slowness":
            return xs, 1/(xs*w)
        if ytype == "wavenumber":
            return xs, one*2*np.pi/w
        raise NotImplementedError(ytype)
    if xtype == "wavelength":
        if ytype == "velocity" or ytype == "slowness":
            return one*w, ys
        raise NotImplementedError(ytype)
    raise NotImplementedError(xtype)


def spec_lines(xtype, attribute, ytype, low, high, xs, ys):
    x1, y1 = line(xtype, attribute, ytype, low, xs, ys)
    x2, y2 = line(xtype, attribute, ytype, high, xs, ys)
    return (x1, y1, x2, y2)
