"""Model of sigpropy.TimeSeries (the external base class), value level."""
import numpy as np
from scipy.signal import detrend


class TimeSeries():
    def __init__(self, amplitude, dt):
        self._amp = np.array(_asrow(amplitude))
        self._dt = float(dt)

    @property
    def dt(self):
        return self._dt

    @property
    def nsamples(self):
        return self._amp.shape[1]

    @property
    def nseries(self):
        return self._amp.shape[0]

    @property
    def fs(self):
        return 1/self._dt

    @property
    def fnyq(self):
        return 0.5*self.fs

    @property
    def df(self):
        return self.fs/self.nsamples

    @property
    def amplitude(self):
        return np.squeeze(self._amp)

    @property
    def time(self):
        return np.arange(self.nsamples)*self._dt

    def trim(self, start_time, end_time):
        if _ts_outside(self.time, start_time, end_time):
            raise IndexError("illogical start_time or end_time")
        self._amp = _ts_trim(self._amp, self.time, start_time, end_time)

    def detrend(self):
        self._amp = detrend(self._amp)

    @classmethod
    def from_trace(cls, trace):
        return cls(amplitude=trace.data, dt=trace.stats.delta)
