"""Reducing several peaks per frequency to one."""
import numpy as np
from swprocess.peaks import Peaks


def strongest(p, values, decide):
    out = []
    for col, (picks, oks) in enumerate(zip(decide.T, p._valid.T)):
        best, which = -np.inf, 0
        for row, (value, ok) in enumerate(zip(picks, oks)):
            if ok and value > best:
                best, which = value, row
        if best != -np.inf:
            out.append(values[which, col])
    return out


def impl_velocity(p: "Peaks"):
    return p.simplify_mpeaks("velocity")


def spec_velocity(p: "Peaks"):
    if p._velocity.ndim == 1:
        return p._velocity[p._valid]
    return strongest(p, p._velocity, p._power if hasattr(p, "_power") else p._frequency)


def impl_wavelength(p: "Peaks"):
    return p.simplify_mpeaks("wavelength")


def spec_wavelength(p: "Peaks"):
    w = p._velocity/p._frequency
    if w.ndim == 1:
        return p._velocity[p._valid]/p._frequency[p._valid]
    return strongest(p, w, p._power if hasattr(p, "_power") else p._frequency)


def impl_frequency(p: "Peaks"):
    return p.simplify_mpeaks("frequency")


def spec_frequency(p: "Peaks"):
    if p._frequency.ndim == 1:
        return p._frequency[p._valid]
    return strongest(p, p._frequency, p._power if hasattr(p, "_power") else p._frequency)
