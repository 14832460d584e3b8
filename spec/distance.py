"""Reference definitions: correlation metrics, information measures, matrix divergences (analysed, never executed)."""
from itertools import combinations
import numpy as np
import pandas as pd
from scipy.linalg import logm
from scipy.stats import entropy


# ------------------------------------------------------------------ correlation -> distance
def transform(c, method):
    if method == "angular":
        return np.sqrt((1 - c) / 2)
    if method == "abs_angular":
        return np.sqrt(1 - abs(c))
    return np.sqrt(1 - c * c)


def scalar_dist(c, method):
    d = transform(min(max(c, -1), 1), method)
    return min(max(d, 0), 1)


def matrix_dist(corr, method):
    d = np.minimum(np.maximum(transform(np.minimum(np.maximum(corr, -1), 1), method), 0), 1)
    np.fill_diagonal(d, 0)
    return d


def pair_dist(x, y, method):
    return scalar_dist(np.corrcoef(x, y)[0, 1], method)


# ------------------------------------------------------------------ information measures
def univariate_bins(n):
    z = (8 + 324 * n + 12 * np.sqrt(36 * n + 729 * n ** 2)) ** (1 / 3)
    return int(round(z / 6 + 2 / (3 * z) + 1 / 3))


def bivariate_bins(n, corr):
    return int(round(np.sqrt(1 + np.sqrt(1 + 24 * n / (1 - corr ** 2))) / np.sqrt(2)))


def bins_xy(x, y):
    c = np.corrcoef(x, y)[0, 1]
    if np.isnan(c) or abs(abs(c) - 1) < 1e-05:
        return univariate_bins(x.shape[0])
    return bivariate_bins(x.shape[0], c)


def entropies(x, y, bins):
    hxy = np.histogram2d(x, y, bins)[0]
    hx = np.histogram(x, bins)[0]
    hy = np.histogram(y, bins)[0]
    return entropy(hx / hx.sum()), entropy(hy / hy.sum()), entropy((hxy / hxy.sum()).flatten())


def mutual_info(x, y, bins=None, norm=True):
    if bins is None:
        bins = bins_xy(x, y)
    hx, hy, hxy = entropies(x, y, bins)
    mi = hx + hy - hxy
    if norm:
        return mi / np.sqrt(hx * hy)
    return mi


def var_info(x, y, bins=None, norm=True):
    if bins is None:
        bins = bins_xy(x, y)
    hx, hy, hxy = entropies(x, y, bins)
    vi = (hxy - hx) + (hxy - hy)
    if norm:
        return vi / hxy
    return vi


def kl_divergence_xy(x, y, bins=None):
    if bins is None:
        bins = bins_xy(x, y)
    hx = np.histogram(x, bins)[0]
    hy = np.histogram(y, bins)[0]
    p, q = hx / hx.sum(), hy / hy.sum()
    return np.where((p != 0) & (q != 0), p * np.log(p / q), 0).sum()


# ------------------------------------------------------------------ matrix divergences
def positive_definite(p, q):
    assert np.all(np.linalg.eigvals(p) > 0)
    assert np.all(np.linalg.eigvals(q) > 0)


def log_det_divergence(p, q):
    positive_definite(p, q)
    m = p @ np.linalg.inv(q)
    return np.trace(m) - np.linalg.slogdet(m)[1] - p.shape[0]


def von_neuman_divergence(p, q):
    positive_definite(p, q)
    return np.trace(p @ (logm(p) - logm(q))) + np.trace(q) - np.trace(p)


# ------------------------------------------------------------------ distance matrices
def info_matrix(X, measure, diagonal, **kw):
    frame = isinstance(X, pd.DataFrame)
    data = X.values if frame else X
    m = data.shape[1]
    res = np.zeros((m, m))
    for i, j in combinations(range(m), 2):
        v = measure(data[:, i], data[:, j], **kw)
        res[i, j] = v
        res[j, i] = v
    if diagonal:
        np.fill_diagonal(res, 1)
    if frame:
        return pd.DataFrame(res, index=X.columns, columns=X.columns)
    return res


def mutual_info_matrix(X, **kw):
    return info_matrix(X, mutual_info, True, **kw)


def var_info_matrix(X, **kw):
    return info_matrix(X, var_info, False, **kw)


def corr_matrix(X, corr_method, method, transformer=None, **kw):
    frame = isinstance(X, pd.DataFrame)
    corr = (X if frame else pd.DataFrame(X)).corr(method=corr_method, **kw)
    if not frame:
        corr = corr.values
    if transformer is not None:
        corr = transformer(corr)
    if frame:
        return frame_dist(corr, method)
    return matrix_dist_checked(corr, method)


def frame_dist(corr, method):
    return np.clip(transform(np.clip(corr, -1, 1), method), 0, 1)


def corr_of(X, corr_method):
    if isinstance(X, np.ndarray):
        return pd.DataFrame(X).corr(method=corr_method).values
    return X.corr(method=corr_method)


def matrix_dist_checked(corr, method):
    assert corr.ndim == 2
    assert corr.shape[0] == corr.shape[1]
    assert np.allclose(corr, corr.T)
    assert np.all(np.diag(corr) == 1)
    return matrix_dist(corr, method)


def shrink(c):
    return c * 0.5
