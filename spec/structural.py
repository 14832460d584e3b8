"""CUSUM structural break statistic (Chu, Stinchcombe and White), element by element."""
import numpy as np


def cusum(y):
    T = len(y)
    p = np.log(y)
    d = p[1:] - p[:-1]
    stat = np.zeros(T)
    crit = np.zeros(T)
    for t in range(1, T):
        sigma = np.sqrt(np.cumsum(d ** 2)[t - 1] / t)
        dist = t - np.arange(0, t)
        s = (p[t] - p[:t]) / (sigma * np.sqrt(dist))
        stat[t] = np.max(s)
        crit[t] = np.sqrt(4.6 + np.log(dist[np.argmax(s)]))
    return stat, crit
