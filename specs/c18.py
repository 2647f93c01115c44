"""Transform kernels against their published definitions."""
import numpy as np
from scipy import special
from swprocess.array1d import Array1D
from swprocess.register import WavefieldTransformRegistry

OPTIONS = {"*": {"raises": False}, "slantstack": {"no_inline": ("*.slant_stack",)}}


def gather(array):
    "traces and offsets, the ones closest to the source first"
    m = np.empty((len(array.sensors), array.sensors[0].nsamples))
    for i, s in enumerate(array.sensors):
        m[i, :] = s.amplitude
    if array.source.x > array.sensors[-1].x:
        return (np.flipud(m), np.array([abs(array.source.x - s.x) for s in array.sensors][::-1]))
    return (m, np.array([abs(array.source.x - s.x) for s in array.sensors]))


def bins(array, settings):
    s = array.sensors[0]
    f = np.arange(s.nsamples)*(1/s.dt/s.nsamples)
    first = np.argmin(np.abs(f - settings["fmin"]))
    last = np.argmin(np.abs(f - settings["fmax"]))
    return f, range(first, last + 1, s.multiple)


def impl_phaseshift(array: "Array1D", velocities, settings):
    f, p = WavefieldTransformRegistry.create_class("phaseshift").transform(array, velocities, settings)
    return p


def spec_phaseshift(array: "Array1D", velocities, settings):
    traces, x = gather(array)
    spectrum = np.fft.fft(traces)
    f, ids = bins(array, settings)
    out = np.empty((len(velocities), len(f[ids])))
    for r, v in enumerate(velocities):
        for c, (b, frq) in enumerate(zip(ids, f[ids])):
            u = spectrum[:, b]/np.abs(spectrum[:, b])
            g = np.exp(1j*2*np.pi*frq/v*x)*u
            out[r, c] = np.abs(np.sum((x[1:] - x[:-1])*(g[1:] + g[:-1])/2))
    return out


def impl_slantstack(array: "Array1D", velocities, settings):
    f, p = WavefieldTransformRegistry.create_class("slantstack").transform(array, velocities, settings)
    return p


def spec_slantstack(array: "Array1D", velocities, settings):
    s = array.sensors[0]
    f, ids = bins(array, settings)
    stack = WavefieldTransformRegistry.create_class("slantstack").slant_stack(array, velocities)
    return np.fft.fft(stack, n=s.nsamples)[:, ids]


def impl_stack(array: "Array1D", velocities):
    return WavefieldTransformRegistry.create_class("slantstack").slant_stack(array, velocities)


def spec_stack(array: "Array1D", velocities):
    "linear interpolation along the line tau + p x of every trace, integrated over the offsets with the trapezoid rule"
    traces, offsets = gather(array)
    x = np.array(offsets)
    x -= np.min(x)
    n = len(array.sensors)
    dt = array.sensors[0].dt
    ntaus = traces.shape[1] - int(np.max(x)*np.max(1/velocities)/dt) - 1
    dx = x[1:] - x[:-1]
    dx = dx.reshape((len(dx), 1))
    rows = np.tile(np.arange(n).reshape(n, 1), (1, ntaus))
    tau = np.tile(np.arange(ntaus).reshape(1, ntaus), (n, 1))
    out = np.empty((len(velocities), ntaus))
    for i, v in enumerate(velocities):
        exact = x.reshape(n, 1)/dt/v
        whole = np.array(exact, dtype=int)
        part = exact - whole
        cols = tau + whole
        a = (1 - part)*traces[rows, cols] + part*traces[rows, cols + 1]
        out[i, :] = np.sum((a[:-1, :] + a[1:, :])*dx*0.5, axis=0)
    return out


def impl_beam(array: "Array1D", velocities, settings):
    f, p = WavefieldTransformRegistry.create_class("fdbf").transform(array, velocities, settings)
    return p


def spec_beam(array: "Array1D", velocities, settings):
    traces, x = gather(array)
    s = array.sensors[0]
    n = len(array.sensors)
    traces = traces.reshape(n, s.nsamples, 1)
    f, ids = bins(array, settings)
    special_ = settings.get("fdbf-specific", {})
    weighting = special_.get("weighting")
    scm = WavefieldTransformRegistry.create_class("fdbf")._spatiospectral_correlation_matrix(traces, frq_ids=ids, weighting=weighting)
    if weighting == "sqrt":
        column = x.reshape(n, 1)
        w = np.dot(column, np.transpose(np.conjugate(column)))
    else:
        w = np.ones((n, n))
    out = np.empty((len(velocities), len(f[ids])), dtype=complex)
    for c, frq in enumerate(f[ids]):
        m = scm[:, :, c]*w
        for r, v in enumerate(velocities):
            k = np.empty_like(x)
            k[:] = 2*np.pi*frq/v*x[:]
            e = np.empty((n, 1), dtype=complex)
            if special_.get("steering") == "cylindrical":
                e[:, 0] = np.exp(-1j*np.angle(special.j0(k) + 1j*special.y0(k)))[:]
            else:
                e[:, 0] = np.exp(-1j*k)[:]
            out[r, c] = np.dot(np.dot(np.transpose(np.conjugate(e)), m), e)
    return out


def impl_plane(array: "Array1D", settings):
    "the fk transform is beamforming without weights and with a plane wave, whatever the settings ask"
    t = WavefieldTransformRegistry.create_class("fk").from_array(array, settings)
    return (t.frequencies, t.power)


def spec_plane(array: "Array1D", settings):
    own = dict(settings)
    own["fdbf-specific"] = {"weighting": "none", "steering": "plane"}
    t = WavefieldTransformRegistry.create_class("fdbf").from_array(array, own)
    return (t.frequencies, t.power)


def impl_correlation(t, ids: "list[int]"):
    return WavefieldTransformRegistry.create_class("fdbf")._spatiospectral_correlation_matrix(t, frq_ids=ids, weighting="sqrt")


def spec_correlation(t, ids: "list[int]"):
    "mean over the blocks of the outer product of the spectra of the channels"
    u = np.fft.fft(t, axis=1)[:, ids, :]
    n, bins, blocks = u.shape
    out = np.empty((n, n, bins), dtype=complex)
    for i in range(bins):
        total = np.zeros((n, n))
        for b in range(blocks):
            c = u[:, i, b].reshape(n, 1)
            total = total + np.dot(c, np.conjugate(c).T)
        out[:, :, i] = total/blocks
    return out


def assume_correlation(t, ids: "list[int]"):
    return ids is not None
