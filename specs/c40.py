"""Tarantola and Valette (1982), eq. 24 and 26."""
import numpy as np
from swprocess import inversion


def impl_step(p0, pm, C, d0, dm, S, G):
    return inversion.leastsquare_iterativealgorithm(p0, pm, C, d0, dm, S, G)


def spec_step(p0, pm, C, d0, dm, S, G):
    return p0 + C @ G.T @ np.linalg.inv(S + G @ C @ G.T) @ (d0 - dm + G @ (pm - p0))


def impl_named(p0, pm, C, d0, dm, S, G):
    return inversion.leastsquare_iterativealgorithm(p0=p0, pm=pm, covp0p0=C, d0=d0, dm=dm, covd0d0=S, dgdp=G)


def spec_named(p0, pm, C, d0, dm, S, G):
    return p0 + C @ G.T @ np.linalg.inv(S + G @ C @ G.T) @ (d0 - dm + G @ (pm - p0))


def impl_posterior(C, S, G):
    return inversion.leastsquare_posterioricovmatrix(C, S, G)


def spec_posterior(C, S, G):
    return C - C @ G.T @ np.linalg.inv(S + G @ C @ G.T) @ G @ C


def impl_posterior_named(C, S, G):
    return inversion.leastsquare_posterioricovmatrix(covp0p0=C, covd0d0=S, dgdp=G)


def spec_posterior_named(C, S, G):
    return C - C @ G.T @ np.linalg.inv(S + G @ C @ G.T) @ G @ C
