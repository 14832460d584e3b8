"""Reference definitions: hierarchical clustering, gap statistic, silhouette (analysed, never executed)."""
import numpy as np
import pandas as pd
from scipy.cluster import hierarchy
from scipy.spatial.distance import squareform
from sklearn.metrics import silhouette_samples
from quantfinlib.distance.distance_matrix import get_corr_distance_matrix, get_info_distance_matrix, corr_to_dist
from quantfinlib.clustering.metrics import gap_statistic as lib_gap, silhouette_tstat as lib_silhouette


def distance_of_data(X, kind, method):
    if kind == "var_info":
        return get_info_distance_matrix(X, "var_info")
    return get_corr_distance_matrix(X, kind, method)


def distance_of_corr(corr, method):
    return corr_to_dist(corr, method)


def tree(dist, method="ward", optimal_ordering=True):
    return hierarchy.linkage(squareform(dist), method=method, optimal_ordering=optimal_ordering)


def clusters(dist, n, method="ward", optimal_ordering=True):
    return cut(tree(dist, method, optimal_ordering), n)


def cut(Z, n):
    return hierarchy.cut_tree(Z, n_clusters=n).flatten()


def optimal_gap(Z, dist, largest, nb):
    scores = [lib_gap(dist=dist, labels=cut(Z, n), nb=nb) for n in range(2, largest + 1)]
    gap = np.array([s[0] for s in scores])
    std = np.array([s[1] for s in scores])
    better = np.where(gap[:-1] - (gap[1:] - std[1:]) > 0)[0]
    return int(better[0] + 2)


def optimal_silhouette(Z, dist, largest, nb):
    scores = [lib_silhouette(dist=dist, labels=cut(Z, n)) for n in range(2, largest + 1)]
    return int(np.argmax(scores) + 2)


def plain(a):
    return a if isinstance(a, np.ndarray) else a.values


def dispersion(same, d, k):
    return np.sum(same * d ** 2) / (4 * k)


def gap_statistic(dist, labels, nb=10, random_state=None):
    assert len(dist) == len(labels)
    d, l = plain(dist), plain(labels)
    n = len(l)
    k = len(np.unique(l))
    same = l[:, np.newaxis] == l[np.newaxis, :]
    seed = 0 if random_state is None else random_state
    logs = []
    for b in range(nb):
        u = np.triu(np.random.RandomState(seed + b).uniform(0, np.max(d), size=(n, n)))
        ref = u + u.T
        np.fill_diagonal(ref, 0)
        w = dispersion(same, ref, k)
        logs.append(np.log(w) if w > 0 else 0)
    total = 0
    for b in range(nb):
        total += logs[b]
    return total / nb - np.log(dispersion(same, d, k)), np.std(logs)


def silhouette_tstat(dist, labels):
    assert len(dist) == len(labels)
    s = silhouette_samples(plain(dist), plain(labels), metric="precomputed")
    return np.mean(s) / np.std(s)
