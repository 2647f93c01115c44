"""Names of options: the known ones are honoured, any other is refused before anything is written, drawn or changed."""
import re
import numpy as np
import matplotlib.pyplot as plt
from swprocess.array1d import Array1D
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.regex import get_peak_from_max, get_all, get_spac_ratio
from swprocess.register import WavefieldTransformRegistry
from swprocess.wavefieldtransforms import AbstractWavefieldTransform
from swprocess.masw import Masw, MaswXcorr

OPTIONS = {"*": {"implicit": False},
           "waterfall": {"implicit": False, "effects": ["call:*subplots"], "no_inline": ("Array1D.timeseriesmatrix",)},
           "file": {"effects": ["mcall:write"], "implicit": False},
           "spacing": {}, "normalisation": {}, "workflow": {"no_inline": ("*.run",)}, "xcorr": {"implicit": False, "no_inline": ("TimeDomainXcorrMaswWorkflow.run",)},
           "image_peaks": {"implicit": False, "no_inline": ("AbstractWavefieldTransform.normalize",)}}


def impl_wave_line(w: "str"):
    get_peak_from_max(time="0", wavetype=w)


def spec_wave_line(w: "str"):
    if w not in ("rayleigh", "love", "vertical", "radial", "transverse"):
        raise ValueError(w)


def impl_wave_all(w: "str"):
    get_all(wavetype=w)


def spec_wave_all(w: "str"):
    if w is not None and w not in ("rayleigh", "love", "vertical", "radial", "transverse"):
        raise ValueError(w)


def impl_component(c: "str"):
    get_spac_ratio(component=c)


def spec_component(c: "str"):
    if c != "0" and c != "(0)":
        raise NotImplementedError(c)


def impl_file(a: "Array1D", name, kind):
    a.to_file(name, ftype=kind)


def spec_file(a: "Array1D", name, kind):
    if kind != "su":
        raise ValueError(kind)
    from obspy import Stream
    a.to_file(name, ftype="su")


def impl_normalisation(w: "AbstractWavefieldTransform", by):
    w.normalize(by)


def spec_normalisation(w: "AbstractWavefieldTransform", by):
    if by not in ("none", "absolute-maximum", "frequency-maximum"):
        raise KeyError(by)


def impl_normalisation_kept(w: "AbstractWavefieldTransform", by):
    refused = False
    try:
        w.normalize(by=by)
    except Exception:
        refused = True
    return refused, w.power if refused else None, w._to_abs if refused else None


def spec_normalisation_kept(w: "AbstractWavefieldTransform", by):
    refused = by not in ("none", "absolute-maximum", "frequency-maximum")
    return refused, w.power if refused else None, w._to_abs if refused else None


def impl_picking(w: "AbstractWavefieldTransform", by):
    w.find_peak_power(by=by)


def spec_picking(w: "AbstractWavefieldTransform", by):
    if by != "frequency-maximum":
        raise NotImplementedError(by)


def impl_image_peaks(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", by):
    w.plot(fig=fig, ax=ax, peaks=by)


def assume_image_peaks(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", by):
    return ax is not None


def spec_image_peaks(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", by):
    if fig is None:
        raise ValueError("both or none")
    if by != "none" and by != "frequency-maximum":
        raise NotImplementedError(by)


def impl_spacing(space):
    AbstractWavefieldTransform._create_vector(100, 400, 50, space)


def spec_spacing(space):
    if space not in ("linear", "lin", "log", "logarithmic"):
        raise KeyError(space)


def impl_algorithm(a: "Array1D", name):
    a.auto_pick_first_arrivals(algorithm=name)


def spec_algorithm(a: "Array1D", name):
    if name != "threshold":
        raise NotImplementedError(name)


def impl_waterfall(a: "Array1D", time_ax):
    a.waterfall(time_ax=time_ax)


def spec_waterfall(a: "Array1D", time_ax):
    if time_ax != "x" and time_ax != "y":
        raise ValueError(time_ax)
    plt.subplots(figsize=(6, 4) if time_ax == "x" else (4, 6))


def impl_xcorr(recs, srcs, channel, settings: "dict"):
    MaswXcorr.run(recs, srcs, channel, settings)


def spec_xcorr(recs, srcs, channel, settings: "dict"):
    if settings["workflow"] != "time-domain-xcorr":
        raise NotImplementedError
