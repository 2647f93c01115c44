"""Traces and their offsets stay paired."""
import numpy as np
from scipy import signal
from swprocess.array1d import Array1D


def rows(a, detrend, normalize):
    m = np.empty((len(a.sensors), a.sensors[0].nsamples))
    for i, s in enumerate(a.sensors):
        row = s.amplitude
        if detrend:
            row = signal.detrend(row)
        if normalize == "each":
            row = row/np.max(np.abs(row))
        m[i, :] = row
    if normalize == "all":
        m = m/np.max(np.abs(m))
    return m


def impl_matrix(a: "Array1D", detrend, normalize):
    return a.timeseriesmatrix(detrend=detrend, normalize=normalize)


def spec_matrix(a: "Array1D", detrend, normalize):
    return rows(a, detrend, normalize)


def impl_lockstep(a: "Array1D"):
    m, o = a._flipped_tseries_and_offsets()
    return (m, o)


def spec_lockstep(a: "Array1D"):
    m = rows(a, False, "none")
    o = np.array([abs(a.source.x - s.x) for s in a.sensors])
    if a.source.x > a.sensors[-1].x:
        return (np.flipud(m), np.array([abs(a.source.x - s.x) for s in a.sensors][::-1]))
    return (m, o)
