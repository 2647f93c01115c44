"""Statistics over a suite of dispersion curves."""
import numpy as np
from scipy.interpolate import interp1d
from swprocess.peakssuite import PeaksSuite
from swprocess.stats import Statistics

OPTIONS = {"drop_suite": {"no_inline": ("PeaksSuite._drop_indices",)}, "drop_suite_defaults": {"no_inline": ("PeaksSuite._drop_indices",)},
           "drop_stats": {"no_inline": ("Statistics._drop_indices",)}, "drop_defaults": {"no_inline": ("Statistics._drop_indices",)},
           "substituted": {"no_inline": ("PeaksSuite.to_array", "PeaksSuite._drop")}, "statistics": {"no_inline": ("PeaksSuite.to_array", "PeaksSuite._drop")}, "correlated": {"no_inline": ("PeaksSuite.to_array", "PeaksSuite._drop")},
           "defaulted": {"no_inline": ("PeaksSuite.to_array", "PeaksSuite._drop")},
           "array": {"no_inline": ("Peaks.simplify_mpeaks",), "implicit": True}}


def impl_array(suite: "PeaksSuite", xtype, ytype, xx):
    return suite.to_array(xtype, ytype, xx)


def spec_array(suite: "PeaksSuite", xtype, ytype, xx):
    at = np.array(xx)
    rows = np.empty((len(suite.peaks), len(at)))
    for i, p in enumerate(suite.peaks):
        x, y = p.simplify_mpeaks(xtype), p.simplify_mpeaks(ytype)
        if np.sum(np.isnan(x)) + np.sum(np.isnan(y)):
            raise ValueError("nan")
        try:
            f = interp1d(x, y, copy=True, bounds_error=False, fill_value=np.nan)
        except ValueError:
            rows[i, :] = np.nan
        else:
            rows[i, :] = f(at)
    return at, rows


def too_few(matrix, share, count):
    "rows with fewer present values than wanted"
    out = []
    for i, row in enumerate(matrix):
        present = len(row) - np.sum(np.isnan(row))
        if present < count or present/len(row) < share:
            out.append(i)
    return np.array(out, dtype=int)


def impl_too_few(matrix, share, count):
    return PeaksSuite._drop_indices(matrix, share, count)


def spec_too_few(matrix, share, count):
    if matrix.size == 0:
        return np.array([], dtype=int)
    return too_few(matrix, share, count)


def impl_too_few_2(matrix, share, count):
    return Statistics._drop_indices(matrix, share, count)


def spec_too_few_2(matrix, share, count):
    if matrix.size == 0:
        return np.array([], dtype=int)
    return too_few(matrix, share, count)


def impl_statistics(suite: "PeaksSuite", xtype, ytype, xx, count):
    return suite.statistics(xtype, ytype, xx, ignore_corr=True, drop_sample_if_fewer_count=count)


def spec_statistics(suite: "PeaksSuite", xtype, ytype, xx, count):
    if len(suite.peaks) < 3:
        raise ValueError("three")
    xx, m = suite.to_array(xtype, ytype, xx)
    xx, m = suite._drop(xx, m, drop_observation_if_fewer_percent=0.01, drop_sample_if_fewer_percent=0.01, drop_sample_if_fewer_count=count)
    return xx, np.nanmean(m, axis=0), np.nanstd(m, axis=0, ddof=1), None


def impl_defaulted(suite: "PeaksSuite", xtype, ytype, xx):
    return suite.statistics(xtype, ytype, xx)


def spec_defaulted(suite: "PeaksSuite", xtype, ytype, xx):
    return spec_statistics(suite, xtype, ytype, xx, 3)


def impl_correlated(suite: "PeaksSuite", xtype, ytype, xx, count):
    return suite.statistics(xtype, ytype, xx, ignore_corr=False, drop_sample_if_fewer_count=count)


def spec_correlated(suite: "PeaksSuite", xtype, ytype, xx, count):
    if len(suite.peaks) < 3:
        raise ValueError("three")
    xx, m = suite.to_array(xtype, ytype, xx)
    xx, m = suite._drop(xx, m, drop_observation_if_fewer_percent=0.01, drop_sample_if_fewer_percent=0.01, drop_sample_if_fewer_count=count)
    return xx, np.nanmean(m, axis=0), np.nanstd(m, axis=0, ddof=1), np.corrcoef(m.T)


def impl_mean_std(m):
    return Statistics._calc_stat(m)


def spec_mean_std(m):
    return np.nanmean(m, axis=0), np.nanstd(m, axis=0, ddof=1)


def impl_density(m, top, left, bottom, right):
    return Statistics._calc_density(m, (top, left), (bottom, right))


def spec_density(m, top, left, bottom, right):
    "both corners belong to the region"
    return np.sum(~np.isnan(m[top:bottom + 1, left:right + 1]))/((right - left + 1)*(bottom - top + 1))


def dropped(indices, xx, m, observation, sample, count):
    """columns then rows, or rows then columns, whichever loses more missing values per value lost"""
    def present(a):
        return a.size - np.sum(np.isnan(a))

    def gain(a):
        return (np.sum(np.isnan(m)) - np.sum(np.isnan(a)))/(present(m) - present(a) + 1)
    columns = indices(m.T, drop_if_fewer_percent=sample, drop_if_fewer_count=count)
    a = np.delete(m, columns, axis=1)
    a = np.delete(a, indices(a, drop_if_fewer_percent=observation, drop_if_fewer_count=0), axis=0)
    b = np.delete(m, indices(m, drop_if_fewer_percent=observation, drop_if_fewer_count=0), axis=0)
    columns_b = indices(b.T, drop_if_fewer_percent=sample, drop_if_fewer_count=count)
    b = np.delete(b, columns_b, axis=1)
    if gain(a) > gain(b):
        return np.delete(xx, columns), a
    return np.delete(xx, columns_b), b


def impl_drop_suite(xx, m, observation, sample, count):
    return PeaksSuite._drop(xx, m, drop_observation_if_fewer_percent=observation, drop_sample_if_fewer_percent=sample, drop_sample_if_fewer_count=count)


def spec_drop_suite(xx, m, observation, sample, count):
    return dropped(PeaksSuite._drop_indices, xx, m, observation, sample, count)


def impl_drop_stats(xx, m, observation, sample, count):
    return Statistics._drop(xx, m, drop_observation_if_fewer_percent=observation, drop_sample_if_fewer_percent=sample, drop_sample_if_fewer_count=count)


def spec_drop_stats(xx, m, observation, sample, count):
    return dropped(Statistics._drop_indices, xx, m, observation, sample, count)


def impl_drop_defaults(xx, m):
    return Statistics._drop(xx, m)


def spec_drop_defaults(xx, m):
    return dropped(Statistics._drop_indices, xx, m, 0.8, 0.4, 3)


def impl_drop_suite_defaults(xx, m):
    return PeaksSuite._drop(xx, m)


def spec_drop_suite_defaults(xx, m):
    return dropped(PeaksSuite._drop_indices, xx, m, 0.8, 0.4, 3)


def impl_substituted(suite: "PeaksSuite", xtype, ytype, xx):
    return suite.statistics(xtype, ytype, xx, mean_substitution=True)[1:3]


def spec_substituted(suite: "PeaksSuite", xtype, ytype, xx):
    return spec_statistics(suite, xtype, ytype, xx, 3)[1:3]
