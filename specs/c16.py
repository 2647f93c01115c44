"""Frequency axis of transforms and spectra."""
import numpy as np
from swprocess.array1d import Array1D
from swprocess.register import WavefieldTransformRegistry
from swprocess.snr import SignaltoNoiseRatio

OPTIONS = {"slantstack": {"raises": False}, "phaseshift": {"raises": False}, "fdbf": {"raises": False}, "empty": {"raises": False}}


def bins(array, low, high):
    s = array.sensors[0]
    f = np.arange(s.nsamples)*(1/s.dt/s.nsamples)
    first = np.argmin(np.abs(f - low))
    last = np.argmin(np.abs(f - high))
    return f, range(first, last + 1, s.multiple)


def impl_slantstack(array: "Array1D", v, settings):
    f, p = WavefieldTransformRegistry.create_class("slantstack").transform(array, v, settings)
    return f


def spec_slantstack(array: "Array1D", v, settings):
    f, ids = bins(array, settings["fmin"], settings["fmax"])
    return f[ids]


def impl_phaseshift(array: "Array1D", v, settings):
    f, p = WavefieldTransformRegistry.create_class("phaseshift").transform(array, v, settings)
    return f


def spec_phaseshift(array: "Array1D", v, settings):
    f, ids = bins(array, settings["fmin"], settings["fmax"])
    return f[ids]


def impl_fdbf(array: "Array1D", v, settings):
    f, p = WavefieldTransformRegistry.create_class("fdbf").transform(array, v, settings)
    return f


def spec_fdbf(array: "Array1D", v, settings):
    f, ids = bins(array, settings["fmin"], settings["fmax"])
    return f[ids]


def impl_empty(array: "Array1D", settings):
    e = WavefieldTransformRegistry.create_class("empty").from_array(array, settings)
    return (e.frequencies, e.power.shape, e.n)


def spec_empty(array: "Array1D", settings):
    f, ids = bins(array, settings["fmin"], settings["fmax"])
    return (f[ids], (settings["nvel"], len(ids)), 0)


def impl_velocities(array: "Array1D", settings):
    return WavefieldTransformRegistry.create_class("empty").from_array(array, settings).velocities


def spec_velocities(array: "Array1D", settings):
    kind = settings["vspace"]
    table = {"linear": np.linspace, "lin": np.linspace, "log": np.geomspace, "logarithmic": np.geomspace}
    return table[kind](settings["vmin"], settings["vmax"], settings["nvel"])


def impl_object(array: "Array1D", settings):
    t = WavefieldTransformRegistry.create_class("phaseshift").from_array(array, settings)
    return (t.frequencies, t.velocities, t.power)


def spec_object(array: "Array1D", settings):
    table = {"linear": np.linspace, "lin": np.linspace, "log": np.geomspace, "logarithmic": np.geomspace}
    v = table[settings["vspace"]](settings["vmin"], settings["vmax"], settings["nvel"])
    f, p = WavefieldTransformRegistry.create_class("phaseshift").transform(array, v, settings)
    return (f, v, p)
