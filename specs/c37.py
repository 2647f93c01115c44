"""Equality of records, sources, peaks and suites."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.source import Source
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.array1d import Array1D


OPTIONS = {"*": {"raises": False, "implicit": False}}


def impl_source(a: "Source", b: "Source"):
    return (a == b, a != b)


def spec_source(a: "Source", b: "Source"):
    same = a.x == b.x and a.y == b.y and a.z == b.z
    return (same, not same)


def impl_source_other(a: "Source", b):
    return a == b


def spec_source_other(a: "Source", b):
    if not isinstance(b, Source):
        return False
    return a.x == b.x and a.y == b.y and a.z == b.z


def impl_source_copy(a: "Source"):
    b = Source.from_source(a)
    return (b.x, b.y, b.z, a == b, b is a)


def spec_source_copy(a: "Source"):
    return (float(a.x), float(a.y), float(a.z), True, False)


def impl_peaks(f, v, i, f2, v2, i2):
    a = Peaks(f, v, identifier=i)
    b = Peaks(f2, v2, identifier=i2)
    return a == b


def spec_peaks(f, v, i, f2, v2, i2):
    a = Peaks(f, v, identifier=i)
    b = Peaks(f2, v2, identifier=i2)
    if a.identifier != b.identifier:
        return False
    for x, y in ((a.frequency, b.frequency), (a.velocity, b.velocity)):
        if np.shape(x) != np.shape(y):
            return False
        if not np.allclose(x, y, equal_nan=True):
            return False
    return True


def impl_peaks_extra(f, v, i, power):
    "more or other attributes mean another object"
    a = Peaks(f, v, identifier=i)
    b = Peaks(f, v, identifier=i, power=power)
    return (a == b, b == a)


def spec_peaks_extra(f, v, i, power):
    return (False, False)


def assume_peaks_other(f, v, x):
    return not isinstance(x, Peaks)


def impl_peaks_other(f, v, x):
    return Peaks(f, v) == x


def spec_peaks_other(f, v, x):
    return False


def impl_suites(a: "PeaksSuite", b: "PeaksSuite"):
    return a == b


def spec_suites(a: "PeaksSuite", b: "PeaksSuite"):
    if len(a.peaks) != len(b.peaks):
        return False
    for p, q in zip(a.peaks, b.peaks):
        if p != q:
            return False
    return True


def impl_peaks_quantities(f, v, azimuth, ellipticity, noise, power, azimuth2, ellipticity2, noise2, power2):
    "every further quantity counts"
    a = Peaks(f, v, azimuth=azimuth, ellipticity=ellipticity, noise=noise, power=power)
    b = Peaks(f, v, azimuth=azimuth2, ellipticity=ellipticity2, noise=noise2, power=power2)
    return a == b


def spec_peaks_quantities(f, v, azimuth, ellipticity, noise, power, azimuth2, ellipticity2, noise2, power2):
    a = Peaks(f, v, azimuth=azimuth, ellipticity=ellipticity, noise=noise, power=power)
    b = Peaks(f, v, azimuth=azimuth2, ellipticity=ellipticity2, noise=noise2, power=power2)
    for x, y in ((a.frequency, b.frequency), (a.velocity, b.velocity), (a.azimuth, b.azimuth), (a.ellipticity, b.ellipticity),
                 (a.noise, b.noise), (a.power, b.power)):
        if np.shape(x) != np.shape(y):
            return False
        if not np.allclose(x, y, equal_nan=True):
            return False
    return True


def impl_peaks_kinds(f, v, noise, power):
    "the same number of quantities, but others"
    a = Peaks(f, v, noise=noise)
    b = Peaks(f, v, power=power)
    return a == b, b == a


def spec_peaks_kinds(f, v, noise, power):
    return False, False


def impl_suites_other(a: "PeaksSuite", x):
    return a == x


def spec_suites_other(a: "PeaksSuite", x):
    return False


def assume_suites_other(a: "PeaksSuite", x):
    return not isinstance(x, PeaksSuite)


def impl_records(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    return a == b, a != b


def spec_records(a: "ActiveTimeSeries", b: "ActiveTimeSeries"):
    same = a.dt == b.dt and a.nstacks == b.nstacks and a.delay == b.delay and a.nsamples == b.nsamples and np.allclose(a.amplitude, b.amplitude)
    return same, not same


def impl_record_other(a: "ActiveTimeSeries", x):
    return a == x


def spec_record_other(a: "ActiveTimeSeries", x):
    return False


def assume_record_other(a: "ActiveTimeSeries", x):
    return not isinstance(x, ActiveTimeSeries)


def impl_sensors(a: "Sensor1C", b: "Sensor1C"):
    return a == b, a != b


def spec_sensors(a: "Sensor1C", b: "Sensor1C"):
    same = a.x == b.x and a.y == b.y and a.z == b.z and a.dt == b.dt and a.nstacks == b.nstacks and a.delay == b.delay and \
        a.nsamples == b.nsamples and np.allclose(a.amplitude, b.amplitude)
    return same, not same


def impl_sensor_other(a: "Sensor1C", x):
    "a record without a position, too, is another object"
    return a == x


def spec_sensor_other(a: "Sensor1C", x):
    return False


def assume_sensor_other(a: "Sensor1C", x):
    return not isinstance(x, Sensor1C)


def impl_arrays(a: "Array1D", b: "Array1D"):
    return a == b, a != b


def spec_arrays(a: "Array1D", b: "Array1D"):
    same = len(a.sensors) == len(b.sensors) and a.source.x == b.source.x and a.source.y == b.source.y and a.source.z == b.source.z and \
        all(p == q for p, q in zip(a.sensors, b.sensors))
    return same, not same


def impl_array_other(a: "Array1D", x):
    return a == x


def spec_array_other(a: "Array1D", x):
    return False


def assume_array_other(a: "Array1D", x):
    return not isinstance(x, Array1D)


def impl_similar(a: "Array1D", b: "Array1D", x):
    return a.is_similar(b), a.is_similar(x)


def spec_similar(a: "Array1D", b: "Array1D", x):
    return len(a.sensors) == len(b.sensors) and a.source.x == b.source.x and a.source.y == b.source.y and a.source.z == b.source.z, False


def assume_similar(a: "Array1D", b: "Array1D", x):
    return not isinstance(x, Array1D)
