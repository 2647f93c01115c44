"""What is drawn: the data of records, images, peaks and ratios, each at its own place."""
import numpy as np
import matplotlib.pyplot as plt
from scipy.signal import detrend as remove_trend
from swprocess.array1d import Array1D
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.wavefieldtransforms import AbstractWavefieldTransform


OPTIONS = {"*": {"effects": ["mcall:plot", "mcall:contourf"], "raises": False, "positional": True, "implicit": False},
           "own_style": {"positional": False, "effects": ["mcall:plot"], "raises": False, "implicit": False}, "style": {"positional": False, "effects": ["mcall:plot"], "raises": False, "implicit": False}, "ratio": {"positional": False, "effects": ["mcall:plot"], "raises": False}}


def impl_traces_each(a: "Array1D"):
    return a.timeseriesmatrix(normalize="each")


def spec_traces_each(a: "Array1D"):
    return np.array([s.amplitude/np.max(np.abs(s.amplitude)) for s in a.sensors])


def impl_traces_all(a: "Array1D"):
    return a.timeseriesmatrix(normalize="all")


def spec_traces_all(a: "Array1D"):
    m = np.array([s.amplitude for s in a.sensors])
    return m/np.max(np.abs(m))


def impl_traces_detrended(a: "Array1D"):
    return a.timeseriesmatrix(detrend=True), a.timeseriesmatrix(True, "each")


def spec_traces_detrended(a: "Array1D"):
    return np.array([remove_trend(s.amplitude) for s in a.sensors]), np.array([remove_trend(s.amplitude)/np.max(np.abs(remove_trend(s.amplitude))) for s in a.sensors])


def impl_waterfall(a: "Array1D", ax: "Axes", time_ax, scale: "float", shift: "bool", given: "dict"):
    a.waterfall(ax=ax, time_ax=time_ax, amplitude_detrend=False, amplitude_normalization="none", amplitude_scale=scale, position_normalization=shift, plot_kwargs=given)


def spec_waterfall(a: "Array1D", ax: "Axes", time_ax, scale: "float", shift: "bool", given: "dict"):
    where = a.position(normalize=shift)
    if scale is None:
        scale = np.mean(np.diff(where))/2
    for i in range(len(a.sensors)):
        line = a.sensors[i].amplitude*scale + where[i]
        if time_ax == "x":
            ax.plot(a[0].time, line, **given)
        else:
            ax.plot(line, a[0].time, **given)


def impl_ratio(w: "AbstractWavefieldTransform", ax: "Axes", given: "dict"):
    w.plot_snr(ax=ax, plot_kwargs=given)


def spec_ratio(w: "AbstractWavefieldTransform", ax: "Axes", given: "dict"):
    if w.snr is not None:
        ax.plot(w.snr_frequencies, w.snr, **given)


def assume_waterfall(a: "Array1D", ax: "Axes", time_ax, scale: "float", shift: "bool", given: "dict"):
    return ax is not None


def assume_ratio(w: "AbstractWavefieldTransform", ax: "Axes", given: "dict"):
    return ax is not None


def impl_schematic(a: "Array1D", ax: "Axes", receivers: "dict", source: "dict"):
    a.plot(ax=ax, sensor_kwargs=receivers, source_kwargs=source)


def assume_schematic(a: "Array1D", ax: "Axes", receivers: "dict", source: "dict"):
    return ax is not None


def spec_schematic(a: "Array1D", ax: "Axes", receivers: "dict", source: "dict"):
    ax.plot([s.x for s in a.sensors], [s.y for s in a.sensors], **receivers)
    ax.plot(a.source.x, a.source.y, **source)


def impl_style(a: "Array1D", ax: "Axes", receivers: "dict", source: "dict"):
    "what the caller asks for wins over the defaults"
    a.plot(ax=ax, sensor_kwargs=receivers, source_kwargs=source)


def assume_style(a: "Array1D", ax: "Axes", receivers: "dict", source: "dict"):
    return ax is not None and receivers is not None and source is not None


def spec_style(a: "Array1D", ax: "Axes", receivers: "dict", source: "dict"):
    ax.plot([s.x for s in a.sensors], [s.y for s in a.sensors], **{**dict(marker="^", color="k", linestyle="", label="Sensor"), **receivers})
    ax.plot(a.source.x, a.source.y, **{**dict(marker="D", color="b", linestyle="", label="Source"), **source})


def impl_image(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", by, peaks):
    w.plot(fig=fig, ax=ax, normalization=by, peaks=peaks)


def assume_image(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", by, peaks):
    return ax is not None and fig is not None


def spec_image(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", by, peaks):
    w.normalize(by=by)
    ax.contourf(w.frequencies, w.velocities, w.power, np.linspace(0, np.max(w.power), 21))
    if peaks != "none":
        ax.plot(w.frequencies, w.find_peak_power(by=peaks))


def impl_nearfield(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", n: "int"):
    w.plot(fig=fig, ax=ax, normalization="none", peaks="none", nearfield=n)


def assume_nearfield(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", n: "int"):
    return ax is not None and fig is not None and n is not None


def spec_nearfield(w: "AbstractWavefieldTransform", fig: "Figure", ax: "Axes", n: "int"):
    low, high = ax.get_xlim()
    f = np.linspace(low, high, 30)
    ax.contourf(w.frequencies, w.velocities, np.abs(w.power*w._to_abs), np.linspace(0, np.max(np.abs(w.power*w._to_abs)), 21))
    ax.plot(f, f*(w.array.array_center_distance/n))


def impl_peaks(p: "Peaks", x: "str", y: "str"):
    p.plot(xtype=x, ytype=y)


def spec_peaks(p: "Peaks", x: "str", y: "str"):
    fig, ax = plt.subplots(ncols=1, figsize=(3, 3), dpi=150)
    ax.plot(getattr(p, "_" + x)[p._valid], getattr(p, "_" + y)[p._valid])


def impl_two_panels(p: "Peaks", m):
    p.plot(xtype=["frequency", "wavelength"], ytype=["velocity", "slowness"], mask=m)


def spec_two_panels(p: "Peaks", m):
    fig, ax = plt.subplots(ncols=2, figsize=(6, 3), dpi=150)
    for panel, x, y in zip(ax, ["frequency", "wavelength"], ["velocity", "slowness"]):
        panel.plot(getattr(p, "_" + x)[p._valid if m is None else m], getattr(p, "_" + y)[p._valid if m is None else m])


def impl_suite(s: "PeaksSuite", ax: "Axes"):
    s.plot(xtype="wavelength", ytype="velocity", ax=[ax])


def assume_suite(s: "PeaksSuite", ax: "Axes"):
    return len(s.peaks) > 0


def spec_suite(s: "PeaksSuite", ax: "Axes"):
    for p in s.peaks:
        ax.plot(p._wavelength[p._valid], p._velocity[p._valid])


def impl_suite_masked(s: "PeaksSuite", ax: "Axes", masks: "list"):
    s.plot(xtype="wavelength", ytype="velocity", ax=[ax], mask=masks)


def assume_suite_masked(s: "PeaksSuite", ax: "Axes", masks: "list"):
    return len(masks) == len(s.peaks) and len(s.peaks) > 0


def spec_suite_masked(s: "PeaksSuite", ax: "Axes", masks: "list"):
    for p, m in zip(s.peaks, masks):
        m = p._valid if m is None else m
        ax.plot(p._wavelength[m], p._velocity[m])




def impl_waterfall_defaults(a: "Array1D", ax: "Axes"):
    a.waterfall(ax)


def assume_waterfall_defaults(a: "Array1D", ax: "Axes"):
    return ax is not None


def spec_waterfall_defaults(a: "Array1D", ax: "Axes"):
    where = [s.x for s in a.sensors]
    scale = np.mean(np.diff(where))/2
    for i in range(len(a.sensors)):
        x = remove_trend(a.sensors[i].amplitude)
        ax.plot(x/np.max(np.abs(x))*scale + where[i], a[0].time)


def impl_own_style(p: "Peaks", given: "dict"):
    p.plot(plot_kwargs=given)


def spec_own_style(p: "Peaks", given: "dict"):
    fig, ax = plt.subplots(ncols=1, figsize=(3, 3), dpi=150)
    ax.plot(p._frequency[p._valid], p._velocity[p._valid],
            **{**dict(linestyle="", marker="o", color="b", markersize=1, markerfacecolor="none", label=p.identifier), **(given if given is not None else {})})


def impl_resolution(ax: "Axes", limits: "tuple"):
    PeaksSuite.plot_resolution_limits(ax, "wavelength", "velocity", "wavenumber", limits)


def assume_resolution(ax: "Axes", limits: "tuple"):
    return len(limits) == 2


def spec_resolution(ax: "Axes", limits: "tuple"):
    y = AbstractWavefieldTransform._create_vector(*ax.get_ylim(), 50, ax.get_yscale())
    ax.plot(np.ones_like(y)*2*np.pi/limits[0], y)
    ax.plot(np.ones_like(y)*2*np.pi/limits[1], y)


def impl_resolution_frequency(ax: "Axes", limits: "tuple"):
    PeaksSuite.plot_resolution_limits(ax, "frequency", "velocity", "wavelength", limits)


def assume_resolution_frequency(ax: "Axes", limits: "tuple"):
    return len(limits) == 2


def spec_resolution_frequency(ax: "Axes", limits: "tuple"):
    x = AbstractWavefieldTransform._create_vector(*ax.get_xlim(), 50, ax.get_xscale())
    ax.plot(x, x*limits[0])
    ax.plot(x, x*limits[1])
