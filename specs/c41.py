"""Muting outside of the signal window."""
import numpy as np
from scipy import signal
from swprocess.array1d import Array1D

def crossing(a, line):
    (x1, t1), (x2, t2) = line
    x = np.array([s.x for s in a.sensors])
    t = t1 + (t2 - t1)/(x2 - x1)*(x - x1)
    first = a.sensors[0]
    return np.array(t/first.dt - first.delay/first.dt, dtype=int)


def taper(a, begin, end, options):
    n = a.sensors[0].nsamples
    for i, (p, q) in enumerate(zip(begin, end)):
        w = np.zeros(n)
        w[p:q] = signal.windows.tukey(q - p, **options)
        a.sensors[i]._amp = a.sensors[i]._amp*w
    return [s.amplitude for s in a.sensors]


def impl_both(a: "Array1D", start, end, options):
    a.mute(signal_start=start, signal_end=end, window_kwargs=options)
    return [s.amplitude for s in a.sensors]


def spec_both(a: "Array1D", start, end, options):
    n = a.sensors[0].nsamples
    x = np.array([s.x for s in a.sensors])
    begin = np.zeros_like(x, dtype=int) if start is None else crossing(a, start)
    stop = np.ones_like(x, dtype=int)*(n - 1) if end is None else crossing(a, end)
    return taper(a, begin, stop, dict(alpha=0.2) if options is None else options)
