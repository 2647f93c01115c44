"""Signal-to-noise ratio."""
import numpy as np
from swprocess.array1d import Array1D
from swprocess.snr import SignaltoNoiseRatio

OPTIONS = {"through": {"no_inline": (), "effects": []}, "*": {"no_inline": ("Array1D.zero_pad", "Array1D.timeseriesmatrix"), "effects": ["call:*.zero_pad"],
                 "order": ["call:*"], "commute": []}}


def magnitude(array, keep):
    "mean over the channels of the magnitude of the spectrum"
    return np.mean(np.abs(np.fft.fft(array.timeseriesmatrix())[:, keep]), axis=0)


def bins(array, low, high):
    s = array.sensors[0]
    f = np.arange(s.nsamples)*(1/s.dt/s.nsamples)
    first = np.argmin(np.abs(f - low))
    last = np.argmin(np.abs(f - high))
    return f, range(first, last + 1, s.multiple)


def impl_plain(signal: "Array1D", noise: "Array1D", fmin, fmax):
    r = SignaltoNoiseRatio.from_array1ds(signal, noise, fmin=fmin, fmax=fmax)
    return r.frequencies, r.snr


def spec_plain(signal: "Array1D", noise: "Array1D", fmin, fmax):
    if noise.sensors[0].nsamples != signal.sensors[0].nsamples:
        raise IndexError("lengths")
    f, keep = bins(noise, fmin, fmax)
    return f[keep], magnitude(signal, keep)/magnitude(noise, keep)


def impl_padded(signal: "Array1D", noise: "Array1D", fmin, fmax, df):
    r = SignaltoNoiseRatio.from_array1ds(signal, noise, fmin=fmin, fmax=fmax, pad_snr=True, df_snr=df)
    return r.frequencies, r.snr


def spec_padded(signal: "Array1D", noise: "Array1D", fmin, fmax, df):
    noise, signal = Array1D.from_array1d(noise), Array1D.from_array1d(signal)
    noise.zero_pad(df)
    signal.zero_pad(df)
    return spec_plain(signal, noise, fmin, fmax)


def impl_held(f, r):
    s = SignaltoNoiseRatio(f, r)
    return s.frequencies, s.snr


def spec_held(f, r):
    return np.array(f), np.array(r)


def impl_through(signal: "Array1D", noise: "Array1D", fmin, fmax, df):
    r = SignaltoNoiseRatio.from_array1ds(signal, noise, fmin=fmin, fmax=fmax, pad_snr=True, df_snr=df)
    return r.frequencies, r.snr


def spec_through(signal: "Array1D", noise: "Array1D", fmin, fmax, df):
    noise, signal = Array1D.from_array1d(noise), Array1D.from_array1d(signal)
    noise.zero_pad(df)
    signal.zero_pad(df)
    return spec_plain(signal, noise, fmin, fmax)
