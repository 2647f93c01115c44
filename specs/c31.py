"""Reading several .max files."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.regex import get_peak_from_max, get_wavetype, get_nmaxima, get_geopsy_version

OPTIONS = {"*": {"raises": False, "no_inline": ("*._parse_peaks", "get_geopsy_version", "get_peak_from_max", "get_wavetype", "get_nmaxima", "*.from_peaks", "check_geopsy_version")}}


def content(name):
    with open(name, "r") as f:
        return f.read()


def members(data, wavetype):
    kind = wavetype
    if wavetype == "rayleigh" and get_wavetype().search(data).groups()[0] == "Vertical":
        kind = "vertical"
    n = min(100, max(1, int(get_nmaxima().search(data).groups()[0])))
    frequencies, times, out = [], [], []
    for m in get_peak_from_max(wavetype=kind).finditer(data):
        f = m.groups()[1]
        if f not in frequencies:
            frequencies.append(f)
    for m in get_peak_from_max(wavetype=kind).finditer(data):
        t = m.groups()[0]
        if t not in times:
            times.append(t)
            out.append(Peaks._parse_peaks(data, wavetype=kind, start_time=t, frequencies=frequencies, nmaxima=n))
    return out


def impl_two(a: "str", b: "str", wavetype):
    return PeaksSuite.from_max([a, b], wavetype=wavetype)


def spec_two(a: "str", b: "str", wavetype):
    first = members(content(a), wavetype)
    second = members(content(b), wavetype)
    return PeaksSuite.from_peaks(first + second)


def impl_one(a: "str", wavetype):
    return PeaksSuite.from_max(a, wavetype=wavetype)


def spec_one(a: "str", wavetype):
    return PeaksSuite.from_peaks(members(content(a), wavetype))
