"""Quantities of peaks are those of the valid peaks."""
import numpy as np
from swprocess.peaks import Peaks


def impl_shown(p: "Peaks"):
    return (p.frequency, p.velocity, p.wavelength, p.slowness, p.wavenumber, p.azimuth, p.ellipticity, p.noise, p.power)


def spec_shown(p: "Peaks"):
    ok = p._valid
    f, v = p._frequency[ok], p._velocity[ok]
    return (f, v, v/f, 1/v, 2*np.pi*f/v, p._azimuth[ok], p._ellipticity[ok], p._noise[ok], p._power[ok])


def impl_all(p: "Peaks"):
    return (p._wavelength, p._slowness, p._wavenumber, p.extended_attrs)


def spec_all(p: "Peaks"):
    return (p._velocity/p._frequency, 1/p._velocity, 2*np.pi*p._frequency/p._velocity, p.attrs + ["wavelength", "slowness", "wavenumber"])


def impl_built(frequency, velocity, identifier, azimuth):
    "peaks without a velocity are the ones that are not there"
    p = Peaks(frequency, velocity, identifier=identifier, azimuth=azimuth)
    return (p.frequency, p.velocity, p.azimuth, p.slowness, p._frequency, p._velocity, p._azimuth, p.identifier, p.attrs)


def spec_built(frequency, velocity, identifier, azimuth):
    f, v, a = np.array(frequency, dtype=float), np.array(velocity, dtype=float), np.array(azimuth, dtype=float)
    ok = ~np.isnan(v)
    return (f[ok], v[ok], a[ok], 1/v[ok], f, v, a, str(identifier), ["frequency", "velocity", "azimuth"])


def impl_asked(frequency, velocity):
    "asking for the extended attributes changes nothing"
    p = Peaks(frequency, velocity)
    first = p.extended_attrs
    return (p.extended_attrs, p.attrs, first)


def spec_asked(frequency, velocity):
    both = ["frequency", "velocity"]
    every = both + ["wavelength", "slowness", "wavenumber"]
    return (every, both, every)
