"""Stacking dispersion images: running weighted mean."""
from swprocess.wavefieldtransforms import EmptyWavefieldTransform, AbstractWavefieldTransform
from swprocess.register import WavefieldTransformRegistry

OPTIONS = {"*": {"raises": False}}


def impl_stack(f, v, power, n, f2, v2, power2, n2):
    a = EmptyWavefieldTransform(f, v, power)
    a.n = n
    b = EmptyWavefieldTransform(f2, v2, power2)
    b.n = n2
    a.stack(b)
    return (a.power, a.n, a.frequencies, a.velocities, b.power, b.n)


def spec_stack(f, v, power, n, f2, v2, power2, n2):
    return ((power*n + power2*n2)/(n + n2), n + n2, f, v, power2, n2)


def impl_three(f, v, zero, p1, p2, p3):
    "stacking one by one is the plain mean, whatever the empty image held"
    a = WavefieldTransformRegistry.create_class("empty")(f, v, zero)
    for p in (p1, p2, p3):
        b = EmptyWavefieldTransform(f, v, p)
        b.n = 1
        a.stack(b)
    return (a.power, a.n)


def spec_three(f, v, zero, p1, p2, p3):
    return ((p1 + p2 + p3)/3, 3)


def impl_single(f, v, power):
    b = WavefieldTransformRegistry.create_class("phaseshift")(f, v, power)
    return (b.n, b.frequencies, b.velocities, b.power, b.snr, b.snr_frequencies, b.array)


def spec_single(f, v, power):
    return (1, f, v, power, None, None, None)
