"""Picked points: which axis they came from, which position and time they belong to."""
import numpy as np
from scipy.signal import detrend as remove_trend
from swprocess.array1d import Array1D
from swprocess.interact import ginput_session

OPTIONS = {"*": {"implicit": False, "no_inline": ("Array1D.waterfall", "ginput_session", "Array1D.mute"), "effects": ["call:*waterfall", "mcall:*waterfall", "call:*mute", "mcall:*mute", "call:*ginput_session"]},
           "first": {"implicit": False}, "first_default": {"implicit": False}}


def first_times(a, level):
    traces = [remove_trend(s.amplitude) for s in a.sensors]
    traces = np.array([x/np.max(np.abs(x)) for x in traces])
    found = []
    for trace in traces:
        above = np.argwhere(np.abs(trace - np.mean(trace[:10])) > level)
        found.append(a.sensors[0].time[int(above.flatten()[0])])
    return found


def impl_first(a: "Array1D", level: "float"):
    d, t = a.auto_pick_first_arrivals(threshold=level)
    return d, t


def spec_first(a: "Array1D", level: "float"):
    return [s.x for s in a.sensors], first_times(a, level)


def impl_first_default(a: "Array1D"):
    d, t = a.auto_pick_first_arrivals()
    return d, t


def spec_first_default(a: "Array1D"):
    return [s.x for s in a.sensors], first_times(a, 0.05)


def impl_manual(a: "Array1D", style: "dict"):
    d, t = a.manual_pick_first_arrivals(waterfall_kwargs=style)
    return d, t


def spec_manual(a: "Array1D", style: "dict"):
    fig, ax = a.waterfall(**(style if style is not None else {}))
    xs, ys = ginput_session(ax, npts=np.inf)
    if ax.get_xlabel() == "Distance (m)":
        return xs, ys
    return ys, xs


def chosen(ax, time_ax):
    xs, ys = ginput_session(ax, npts=2, initial_adjustment=False, ask_to_continue=False)
    if time_ax == "y":
        return (xs[0], ys[0]), (xs[1], ys[1])
    return (ys[0], xs[0]), (ys[1], xs[1])


def impl_window(a: "Array1D", where, window, style: "dict"):
    start, end = a.interactive_mute(mute_location=where, window_kwargs=window, waterfall_kwargs=style)
    return start, end


def spec_window(a: "Array1D", where, window, style: "dict"):
    style = {**dict(time_ax="y"), **(style if style is not None else {})}
    fig, ax = a.waterfall(**style)
    start, end = None, None
    if where == "before" or where == "both":
        start = chosen(ax, style["time_ax"])
    if where == "after" or where == "both":
        end = chosen(ax, style["time_ax"])
    a.mute(signal_start=start, signal_end=end, window_kwargs=window)
    return start, end


def impl_window_default(a: "Array1D"):
    start, end = a.interactive_mute()
    return start, end


def spec_window_default(a: "Array1D"):
    fig, ax = a.waterfall(time_ax="y")
    start = chosen(ax, "y")
    end = chosen(ax, "y")
    a.mute(signal_start=start, signal_end=end, window_kwargs=None)
    return start, end
