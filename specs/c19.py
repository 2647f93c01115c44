"""Normalisation of dispersion images and picking of peaks."""
import numpy as np
from swprocess.wavefieldtransforms import EmptyWavefieldTransform


def factor(power, by):
    if by == "none":
        return 1.
    if by == "absolute-maximum":
        return np.max(np.abs(power))
    if by == "frequency-maximum":
        return np.max(np.abs(power), axis=0)
    raise KeyError(by)


def impl_once(f, v, power, by):
    a = EmptyWavefieldTransform(f, v, power)
    a.normalize(by=by)
    return (a.power, a.frequencies, a.velocities, a.n)


def spec_once(f, v, power, by):
    return (np.abs(power)/factor(power, by), f, v, 0)


def impl_undo(f, v, power, by):
    "undoing the normalisation restores the magnitudes"
    a = EmptyWavefieldTransform(f, v, power)
    a.normalize(by=by)
    return a.power*a._to_abs


def spec_undo(f, v, power, by):
    q = factor(power, by)
    return np.abs(power)/q*q


def impl_peak(f, v, power, by):
    a = EmptyWavefieldTransform(f, v, power)
    return a.find_peak_power(by)


def spec_peak(f, v, power, by):
    if by != "frequency-maximum":
        raise NotImplementedError(by)
    return v[np.argmax(np.abs(power), axis=0)]
