"""Only files of a supported geopsy version are read."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.meta import check_geopsy_version, SUPPORTED_GEOPSY_VERSIONS
from swprocess.regex import get_geopsy_version

PATTERNS = ("get_peak_from_max", "get_all", "get_wavetype", "get_process_type", "get_nmaxima", "get_geopsy_version")
OPTIONS = {"*": {"no_inline": ("*._parse_peaks",)},
           "two": {"raises": True, "implicit": False, "effects": ["call:open"],
                   "no_inline": ("*._parse_peaks", "get_peak_from_max", "get_wavetype", "get_nmaxima", "*.from_peaks")},
           "suite": {"raises": True, "implicit": False, "effects": ["call:open"],
                     "no_inline": ("*._parse_peaks", "get_peak_from_max", "get_wavetype", "get_nmaxima", "*.from_peaks")}}


def impl_gate(version):
    check_geopsy_version(version)
    return version


def spec_gate(version):
    if version != "3.2.0":
        raise ValueError(version)
    return version


def content(name):
    with open(name, "r") as f:
        return f.read()


def version(data):
    major, minor, micro = get_geopsy_version().search(data).groups()
    return f"{major}.{minor}.{micro}"


def impl_peaks(name, wavetype):
    return Peaks.from_max(name, wavetype=wavetype)


def spec_peaks(name, wavetype):
    data = content(name)
    if version(data) not in ["3.2.0"]:
        raise ValueError("version")
    return Peaks._parse_peaks(data, wavetype=wavetype)


def impl_suite(names: "list[str]", wavetype):
    PeaksSuite.from_max(names, wavetype=wavetype)
    return None


def spec_suite(names: "list[str]", wavetype):
    for name in names:
        if version(content(name)) not in ["3.2.0"]:
            raise ValueError("version")
    return None


def impl_two(first: "str", second: "str", wavetype):
    PeaksSuite.from_max([first, second], wavetype=wavetype)
    return None


def spec_two(first: "str", second: "str", wavetype):
    return spec_suite([first, second], wavetype)
