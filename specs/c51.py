"""Statistics of a matrix of observations with missing values."""
import numpy as np
from numpy.random import default_rng, PCG64
from scipy.optimize import curve_fit
from swprocess.stats import Statistics

OPTIONS = {"filled": {"effects": ["mcall:normal"]}, "suite_plain": {"no_inline": ("PeaksSuite.to_array", "Statistics.from_data_matrix")}, "plain": {"no_inline": ("Statistics._drop", "Statistics._sort", "Statistics._identify_regions", "Statistics._fill_data", "Statistics._fill_corr", "Statistics._calc_stat")}, "suite": {"no_inline": ("PeaksSuite.to_array", "Statistics.from_data_matrix")}, "matrix": {"no_inline": ("Statistics._drop", "Statistics._sort", "Statistics._identify_regions", "Statistics._fill_data", "Statistics._fill_corr", "Statistics._calc_stat")}}


def impl_kept(xx, mean, stddev, corr):
    a = Statistics(xx, mean, stddev, corr)
    return a.xx, a.mean, a.stddev, a.corr


def spec_kept(xx, mean, stddev, corr):
    return np.array(xx, dtype=float), np.array(mean, dtype=float), np.array(stddev, dtype=float), np.array(corr, dtype=float)


def impl_suite(suite: "PeaksSuite", xx, xtype, ytype):
    return Statistics.from_peakssuite(suite, xx, xtype=xtype, ytype=ytype)


def spec_suite(suite: "PeaksSuite", xx, xtype, ytype):
    at, rows = suite.to_array(xtype, ytype, xx)
    return Statistics.from_data_matrix(at, rows)


def impl_suite_plain(suite: "PeaksSuite", xx):
    return Statistics.from_peakssuite(suite, xx)


def spec_suite_plain(suite: "PeaksSuite", xx):
    return spec_suite(suite, xx, "wavelength", "velocity")


def impl_filled(matrix, means, stddevs, rng):
    return Statistics._fill_data(matrix, means, stddevs, rng)


def spec_filled(matrix, means, stddevs, rng):
    "each missing value of a column is drawn anew from the column's own distribution"
    if not hasattr(rng, "normal"):
        rng = default_rng(PCG64())
    if means is None:
        means = np.nanmean(matrix, axis=0)
    if stddevs is None:
        stddevs = np.nanstd(matrix, axis=0, ddof=1)
    for col, (values, mean, stddev) in enumerate(zip(matrix.T, means, stddevs)):
        for row in np.flatnonzero(np.isnan(values)):
            matrix[row, col] = rng.normal(mean, stddev)
    return matrix


def impl_matrix(xx, matrix, density, kw: dict):
    a = Statistics.from_data_matrix(xx, matrix, drop_kwargs=kw, density_threshold=density, replacement_attempts=2)
    return a.xx, a.mean, a.stddev, a.corr


def spec_matrix(xx, matrix, density, kw: dict):
    "moments of the values present; correlations within the dense regions, after the missing values were filled without disturbing the moments"
    wanted = {"drop_observation_if_fewer_percent": 0, "drop_sample_if_fewer_percent": 0, "drop_sample_if_fewer_count": 3, **kw}
    xx, m = Statistics._drop(xx, matrix, **wanted)
    m = Statistics._sort(m)
    mean, stddev = Statistics._calc_stat(m)
    regions = Statistics._identify_regions(m, density_threshold=density)
    lost = np.isnan(m)
    done = False
    for _ in range(2):
        for (top, left), (bottom, right) in regions:
            m[top:bottom, left:right] = Statistics._fill_data(m[top:bottom, left:right], means=mean[left:right], stddevs=stddev[left:right])
        again, spread = Statistics._calc_stat(m)
        if np.max(np.abs((again - mean)/mean)) < 0.05 and np.max(np.abs(spread/again - stddev/mean)) < 0.01:
            done = True
            break
        m[lost] = np.nan
    if not done:
        raise ValueError("attempts")
    corr = np.full((m.shape[1], m.shape[1]), np.nan)
    for (top, left), (bottom, right) in regions:
        corr[left:right, left:right] = np.corrcoef(m[top:bottom, left:right], rowvar=False)
    return np.array(xx, dtype=float), np.array(mean, dtype=float), np.array(stddev, dtype=float), np.array(Statistics._fill_corr(xx, corr), dtype=float)


def impl_corr(xx, corr):
    return Statistics._fill_corr(xx, corr)


def spec_corr(xx, corr):
    def decay(x, y0, factor):
        return y0*np.power(factor, x)

    def fill(x, y):
        lost = np.isnan(y)
        fit, _ = curve_fit(f=decay, xdata=x[np.flatnonzero(~lost)], ydata=y[np.flatnonzero(~lost)])
        at = np.flatnonzero(lost)
        y[at] = decay(x[at], *fit)
        return y
    x = np.log(xx)
    for i, row in enumerate(corr):
        right = row[i:]
        if np.sum(np.isnan(right)) > 0:
            corr[i, i:] = fill(x[i:] - x[i], right)
        left = row[:i][::-1]
        if np.sum(np.isnan(left)) > 0:
            corr[i, :i] = fill(x[:i][::-1] - x[:i][::-1][0], left)[::-1]
    return corr


def impl_sorted(matrix):
    return Statistics._sort(matrix)


def spec_sorted(matrix):
    rows, columns = matrix.shape
    spare = np.empty(columns, dtype=matrix.dtype)
    ids = np.arange(rows, dtype=int)
    at = 0
    for column in matrix.T:
        for i in np.argwhere(np.logical_and(~np.isnan(column), ids >= at)).flatten():
            spare[:] = matrix[at][:]
            matrix[at][:] = matrix[i][:]
            matrix[i][:] = spare[:]
            at += 1
    return matrix


def impl_plain(xx, matrix):
    return Statistics.from_data_matrix(xx, matrix)


def spec_plain(xx, matrix):
    return Statistics.from_data_matrix(xx, matrix, drop_kwargs={}, density_threshold=0.8, replacement_attempts=10)


def impl_regions(m, threshold, most):
    return Statistics._identify_regions(m, threshold, most)


def spec_regions(m, threshold, most):
    rows, columns = m.shape
    top, left = 0, 0
    found = []
    for _ in range(most):
        bottom, right = int(top), int(left)
        present, total = 1, 1
        for _ in range((rows - top) + (columns - left)):
            row_done = col_done = True
            if bottom + 1 < rows:
                row = m[bottom + 1, left:right + 1]
                values = len(row) - np.sum(np.isnan(row))
                if (present + values)/(total + len(row)) >= threshold:
                    row_done = False
                    present += values
                    total += len(row)
                    bottom += 1
            if right + 1 < columns:
                col = m[top:bottom + 1, right + 1]
                values = len(col) - np.sum(np.isnan(col))
                if (present + values)/(total + len(col)) >= threshold:
                    col_done = False
                    present += values
                    total += len(col)
                    right += 1
            if row_done and col_done:
                found.append(((top, left), (bottom + 1, right + 1)))
                break
        else:
            raise ValueError("never")
        if right + 1 == columns:
            break
        left = int(right) + 1
        top = np.argwhere(~np.isnan(m[:, left]))[0][0]
    else:
        raise ValueError("too many")
    return found
