"""Documented rejections of the splitters."""
import numpy as np


def days(x, unit="D"):
    import pandas as pd
    return pd.Timedelta(x, unit=unit)


def window_type(split_type):
    if split_type not in ["expanding", "rolling"]:
        raise ValueError("unknown window type")


def kfold_init(n_folds, n_embargo, n_purge):
    if n_embargo < 0:
        raise ValueError("embargo")
    if n_purge < 0:
        raise ValueError("purge")
    if n_folds < 2:
        raise ValueError("folds")


def walk_init(n_embargo, n_purge):
    if n_embargo < 0:
        raise ValueError("embargo")
    if n_purge < 0:
        raise ValueError("purge")


def kfold_split(n_folds, n_embargo, n_purge, X, groups):
    if isinstance(groups, np.ndarray):
        if not np.all(np.diff(groups) >= 0):
            raise ValueError("unsorted")
    elif groups is not None:
        if not groups.is_monotonic_increasing:
            raise ValueError("unsorted")
    n = X.shape[0]
    if n < n_folds:
        raise ValueError("more folds than samples")
    if n_purge + n_embargo >= n:
        raise ValueError("nothing left to train on")
    if n_purge + n_embargo > n - n // n_folds:
        raise ValueError("more than the largest training set")


def walk_split(train_window, test_window, groups):
    if isinstance(groups, np.ndarray):
        if not np.all(np.diff(groups) >= 0):
            raise ValueError("unsorted")
    elif groups is not None:
        if not groups.is_monotonic_increasing:
            raise ValueError("unsorted")
    if train_window < 1 or test_window < 1:
        raise ValueError("empty window")
