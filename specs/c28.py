"""Columns of a .max file and the quantities read from them."""
import re
import numpy as np
from swprocess.peaks import Peaks
from swprocess.regex import get_peak_from_max, get_all, get_wavetype, get_process_type, get_nmaxima

OPTIONS = {"complete": {"raises": True}, "*": {"raises": False, "no_inline": ("get_peak_from_max", "get_all", "get_wavetype", "get_process_type", "get_nmaxima")}}


def table(data, kind, time, frequencies, nmaxima):
    shape = (nmaxima, len(frequencies))
    f = np.full(shape, np.nan, dtype=float)
    v = np.full(shape, np.nan, dtype=float)
    a = np.full(shape, np.nan, dtype=float)
    e = np.full(shape, np.nan, dtype=float)
    n = np.full(shape, np.nan, dtype=float)
    p = np.full(shape, np.nan, dtype=float)
    for col, frq in enumerate(frequencies):
        rows = get_peak_from_max(time=re.escape(time), frequency=re.escape(frq), wavetype=kind)
        for row, m in enumerate(rows.finditer(data)):
            g = m.groups()
            f[row, col] = float(g[1])
            v[row, col] = 1/float(g[2])
            a[row, col] = float(g[3])
            e[row, col] = float(g[4])
            n[row, col] = float(g[5])
            p[row, col] = float(g[6])
    return f, v, a, e, n, p


def kind_of(data, wavetype):
    found = get_wavetype().search(data).groups()[0]
    if wavetype == "rayleigh" and found == "Vertical":
        return "vertical"
    return wavetype


def impl_given(data, wavetype, time, frequencies: "list[str]", nmaxima):
    p = Peaks._parse_peaks(data, wavetype=wavetype, start_time=time, frequencies=frequencies, nmaxima=nmaxima)
    return (p._frequency, p._velocity, p._azimuth, p._ellipticity, p._noise, p._power)


def assume_given(data, wavetype, time, frequencies: "list[str]", nmaxima):
    return time is not None and frequencies is not None and nmaxima is not None


def spec_given(data, wavetype, time, frequencies: "list[str]", nmaxima):
    return table(data, kind_of(data, wavetype), time, frequencies, nmaxima)


def impl_described(data, wavetype, time, frequencies: "list[str]", nmaxima):
    p = Peaks._parse_peaks(data, wavetype=wavetype, start_time=time, frequencies=frequencies, nmaxima=nmaxima)
    return (p.identifier, p.attrs)


def assume_described(data, wavetype, time, frequencies: "list[str]", nmaxima):
    return time is not None and frequencies is not None and nmaxima is not None


def spec_described(data, wavetype, time, frequencies: "list[str]", nmaxima):
    process = get_process_type().search(data).groups()[0].lower()
    if process == "rtbf" and get_wavetype().search(data).groups()[0] == "Vertical":
        process = "capon"
    return (f"{time}-{process}", ["frequency", "velocity", "azimuth", "ellipticity", "noise", "power"])


def impl_defaults(data, wavetype):
    "without further instructions: the first time found, each of its frequencies once, and the stated number of maxima"
    p = Peaks._parse_peaks(data, wavetype=wavetype)
    return (p._frequency, p._velocity, p._power, p.identifier)


def spec_defaults(data, wavetype):
    kind = kind_of(data, wavetype)
    time = get_peak_from_max(wavetype=kind).search(data).groups()[0]
    frequencies = []
    for m in get_peak_from_max(time=re.escape(time), wavetype=kind).finditer(data):
        f = m.groups()[1]
        if f not in frequencies:
            frequencies.append(f)
    nmaxima = min(100, max(1, int(get_nmaxima().search(data).groups()[0])))
    p = Peaks._parse_peaks(data, wavetype=wavetype, start_time=time, frequencies=frequencies, nmaxima=nmaxima)
    return (p._frequency, p._velocity, p._power, p.identifier)


def impl_complete(data, wavetype, time, frequencies: "list[str]", nmaxima):
    "a peak that was not read is an error"
    p = Peaks._parse_peaks(data, wavetype=wavetype, start_time=time, frequencies=frequencies, nmaxima=nmaxima)
    return p.attrs


def assume_complete(data, wavetype, time, frequencies: "list[str]", nmaxima):
    return time is not None and frequencies is not None and nmaxima is not None


def spec_complete(data, wavetype, time, frequencies: "list[str]", nmaxima):
    f = table(data, kind_of(data, wavetype), time, frequencies, nmaxima)[0]
    if np.sum(~np.isnan(f)) != len(get_all(time=re.escape(time), wavetype=kind_of(data, wavetype)).findall(data)):
        raise ValueError("missing")
    return ["frequency", "velocity", "azimuth", "ellipticity", "noise", "power"]
