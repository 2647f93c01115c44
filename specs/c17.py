"""Zero padding to a frequency step."""
import numpy as np
from swprocess.activetimeseries import ActiveTimeSeries


def impl_pad(amp, dt, n, delay, df):
    a = ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)
    a.zero_pad(df)
    return (a.amplitude, a.multiple, a.nsamples, a.dt, a.delay, a.nstacks, a.df)


def assume_pad(amp, dt, n, delay, df):
    return dt > 0


def spec_pad(amp, dt, n, delay, df):
    a = ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)
    df = float(df)
    if df <= 0:
        raise ValueError("df")
    have = a.nsamples
    want = int(round(1/(df*a.dt)))
    block = np.expand_dims(a.amplitude, axis=0)
    if want > have:
        padding, multiple = want - have, 1
        block = np.concatenate((block, np.zeros((1, padding))), axis=1)
    elif want < have and have % want != 0:
        padding = want - have % want
        multiple = int((have + padding)/want)
        block = np.concatenate((block, np.zeros((1, padding))), axis=1)
    elif want < have:
        multiple = int(have/want)
    else:
        multiple = 1
    out = np.squeeze(block)
    n_out = block.shape[1]
    return (out, multiple, n_out, a.dt, a.delay, a.nstacks, 1/a.dt/n_out*multiple)


def impl_again(self: "ActiveTimeSeries", df):
    "a second request is judged on its own, whatever an earlier one left behind"
    self.zero_pad(df)
    return (self.amplitude, self.multiple)


def assume_again(self: "ActiveTimeSeries", df):
    return self.dt > 0


def spec_again(self: "ActiveTimeSeries", df):
    df = float(df)
    if df <= 0:
        raise ValueError("df")
    have = self.nsamples
    want = int(round(1/(df*self.dt)))
    block = self._amp
    multiple = 1
    if want > have:
        block = np.concatenate((block, np.zeros((1, want - have))), axis=1)
    elif want < have and have % want != 0:
        padding = want - have % want
        multiple = int((have + padding)/want)
        block = np.concatenate((block, np.zeros((1, padding))), axis=1)
    elif want < have:
        multiple = int(have/want)
    return (np.squeeze(block), multiple)


def impl_refused(self: "ActiveTimeSeries", df):
    "a refused step leaves the record, and what earlier padding recorded, as they were"
    try:
        self.zero_pad(df)
    except ValueError:
        pass
    return (self.amplitude, self.multiple)


def spec_refused(self: "ActiveTimeSeries", df):
    return (self.amplitude, self.multiple)


def assume_refused(self: "ActiveTimeSeries", df):
    return float(df) <= 0
