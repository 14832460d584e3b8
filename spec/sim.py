"""Simulation models: transition laws, likelihood, moment fits."""
import warnings
import numpy as np
import pandas as pd
from scipy.stats import multivariate_normal, norm


def noise(seed, rows, m, L):
    z = np.random.default_rng(seed).normal(size=(rows, m))
    if L is None:
        return z
    return z @ L.T


def row(x):
    return np.asarray(x).reshape(1, -1)


def factor(cor):
    return None if cor is None else np.linalg.cholesky(cor)


def increments(seed, n, p, m, mean, std, cor):
    """n rows; the variates of one path are adjacent"""
    e = noise(seed, n * p, m, factor(cor)) * std + mean
    return e.reshape(n, m * p)


def stacked(x0, rest, p):
    out = np.zeros((rest.shape[0] + 1, rest.shape[1]))
    out[0, :] = np.tile(x0, p)
    out[1:, :] = rest
    return out


def bm_law(drift, vol, dt):
    return drift * dt, vol * np.sqrt(dt)


def gbm_law(drift, vol, dt):
    return drift * dt - vol ** 2 * dt / 2, vol * np.sqrt(dt)


def ou_law(mean, mrr, vol, dt):
    a = np.exp(-mrr * dt)
    return a, mean - mean * a, np.sqrt(vol ** 2 * (1 - np.exp(-2 * mrr * dt)) / (2 * mrr))


def bm_path(drift, vol, cor, x0, dt, n, p, seed):
    drift, vol = row(drift), row(vol)
    mu, sd = bm_law(drift, vol, dt)
    return np.cumsum(stacked(x0, increments(seed, n, p, drift.shape[1], mu, sd, cor), p), axis=0)


def gbm_path(drift, vol, cor, x0, dt, n, p, seed):
    drift, vol = row(drift), row(vol)
    mu, sd = gbm_law(drift, vol, dt)
    return np.exp(np.cumsum(stacked(np.log(x0), increments(seed, n, p, drift.shape[1], mu, sd, cor), p), axis=0))


def ou_path(mean, mrr, vol, cor, x0, dt, n, p, seed):
    mean, mrr, vol = row(mean), row(mrr), row(vol)
    a, mu, sd = ou_law(mean, mrr, vol, dt)
    m = mean.shape[1]
    e = increments(seed, n, p, m, mu, sd, cor)
    x = np.zeros((n + 1, m * p))
    x[0, :] = np.tile(x0, p)
    decay = np.tile(a.reshape(-1), p)
    for i in range(n):
        x[i + 1, :] = e[i, :] + x[i, :] * decay
    return x


def gauss_nll(dx, mu, sd, cor):
    mu = mu.flatten()
    sd = sd.flatten()
    if cor is None:
        law = norm(loc=mu, scale=sd)
    else:
        D = np.diag(sd)
        law = multivariate_normal(mean=mu, cov=D @ cor @ D)
    return -np.sum(law.logpdf(dx))


def bm_nll(drift, vol, cor, x, dt):
    drift, vol = row(drift), row(vol)
    return gauss_nll(x[1:] - x[:-1], *bm_law(drift, vol, dt), cor)


def gbm_nll(drift, vol, cor, x, dt):
    drift, vol = row(drift), row(vol)
    return gauss_nll(np.log(x[1:]) - np.log(x[:-1]), *gbm_law(drift, vol, dt), cor)


def ou_nll(mean, mrr, vol, cor, x, dt):
    mean, mrr, vol = row(mean), row(mrr), row(vol)
    a, mu, sd = ou_law(mean, mrr, vol, dt)
    return gauss_nll(x[1:] - a * x[:-1], mu, sd, cor)


def matrix(x):
    """data as a matrix with one column per variate"""
    v = np.asarray(x)
    return v.reshape(-1, 1) if v.ndim == 1 else v


def default_dt():
    return 1 / 252


def bm_fit(x, dt):
    dx = x[1:] - x[:-1]
    vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
    drift = np.mean(dx, axis=0, keepdims=True) / dt
    return drift, vol, correlation(dx, vol)


def gbm_fit(x, dt):
    dx = np.log(x[1:]) - np.log(x[:-1])
    vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
    drift = np.mean(dx, axis=0, keepdims=True) / dt + vol ** 2 / 2
    return drift, vol, correlation(dx, vol)


def correlation(dx, vol):
    if dx.shape[1] == 1:
        return None
    if np.any(vol == 0):
        raise ValueError("no correlation of a constant series")
    return np.corrcoef(dx, rowvar=False)


def ou_fit(x, dt):
    """lag-one least squares per series; the slope is exp(-mrr*dt)"""
    m = x.shape[1]
    slope = np.zeros(m)
    icept = np.zeros(m)
    res = np.zeros((x.shape[0] - 1, m))
    for i in range(m):
        prev = x[:-1, i]
        now = x[1:, i]
        coef = np.linalg.lstsq(np.vstack([prev, np.ones(len(prev))]).T, now, rcond=None)[0]
        b, a = coef[0], coef[1]
        if b <= 1e-08:
            warnings.warn("no mean reversion")
            b = 1e-08
            a = np.mean(now)
        slope[i] = b
        icept[i] = a
        res[:, i] = now - (b * prev + a)
    cor = None
    if m > 1:
        cor = np.corrcoef(res, rowvar=False)
    slope, icept = row(slope), row(icept)
    mrr = -np.log(slope) / dt
    sd = np.std(res, axis=0, ddof=1, keepdims=True)
    return icept / (1 - slope), mrr, np.sqrt(sd ** 2 * 2 * mrr / (1 - slope ** 2)), cor


def free_parameters(cor, *ps):
    k = 0
    for p in ps:
        k = k + p.size
    if cor is None:
        return k
    m = ps[0].size
    return k + m * (m - 1) / 2


def aic(nll, k, n):
    return 2 * k + 2 * nll


def bic(nll, k, n):
    return k * np.log(n) + 2 * nll


def has_dates(x):
    return isinstance(x, (pd.Series, pd.DataFrame)) and isinstance(x.index, pd.DatetimeIndex)


def column_names(x, m, p, columns):
    """names of one path, repeated per path with the path number appended when there are several"""
    if columns is not None:
        base = columns
    elif isinstance(x, pd.DataFrame):
        base = x.columns.values.tolist()
    elif isinstance(x, pd.Series):
        base = [x.name]
    elif m == 1:
        base = ["S"]
    else:
        base = [f"S{j}" for j in range(m)]
    if p == 1:
        return base
    return [f"{c}_{i}" for i in range(p) for c in base]


def labelled(values, x, m, p, start, freq, columns, end, include_x0):
    """values: rows of a simulated path of a model fitted to x (None: not fitted); end: None, 'first' or 'last'"""
    dated = start is not None or freq is not None or has_dates(x)
    if not (dated or columns is not None or isinstance(x, (pd.Series, pd.DataFrame))):
        return values if include_x0 else values[1:, :]
    index = None
    if dated:
        name = None
        if has_dates(x):
            name = x.index.name
            if start is None:
                start = x.index.max() if end == "last" else x.index.min()
            if freq is None:
                freq = pd.infer_freq(x.index)
        assert start is not None and freq is not None
        index = pd.date_range(start=start, freq=freq, periods=values.shape[0], name=name)
    names = column_names(x, m, p, columns)
    if m * p == 1 and (x is None or isinstance(x, pd.Series)):
        out = pd.Series(data=values.reshape(-1), index=index, name=names[0])
    else:
        out = pd.DataFrame(data=values, index=index, columns=names)
    return out if include_x0 else out.iloc[1:]


def quasi_random(base, ind, share, vol, p, dt):
    """base: path of the base model; ind: causal indicator; share: fraction of the volatility"""
    signal = np.zeros(base.shape)
    for j in range(base.shape[1]):
        signal[1:, j] = np.nan_to_num(ind(base[:-1, j]))
    spread = np.std(signal[1:-1], axis=0, ddof=2)
    size = share * np.tile(vol, p) * np.sqrt(dt)
    return base + np.cumsum(signal * size / spread, axis=0)
