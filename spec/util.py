"""Frequencies, loaders."""
from pathlib import Path
from typing import Any
import numpy as np
import pandas as pd


def date_index(x):
    """the dates an object is indexed by, or None"""
    if isinstance(x, pd.DatetimeIndex):
        return x
    if isinstance(x, (pd.Series, pd.DataFrame)) and isinstance(x.index, pd.DatetimeIndex):
        return x.index
    return None


def regular(hits, n):
    """at least two regular points and at most two irregular ones"""
    return hits >= 2 and n - hits <= 2


def frequency(x):
    idx = date_index(x)
    if idx is None:
        return None
    steps = idx.to_series().diff().dropna()
    n = len(steps)
    if n < 2:
        return None
    if regular(idx.is_year_end.sum(), len(idx)):
        return "YE"
    if regular(idx.is_year_start.sum(), len(idx)):
        return "YS"
    if regular(idx.is_quarter_end.sum(), len(idx)):
        return "QE"
    if regular(idx.is_quarter_start.sum(), len(idx)):
        return "QS"
    if regular(idx.is_month_end.sum(), len(idx)):
        return "ME"
    if regular(idx.is_month_start.sum(), len(idx)):
        return "MS"
    counts = steps.value_counts()
    if n - counts.get(pd.Timedelta(days=1), 0) <= 2:
        return "D"
    if len(steps[steps.dt.days.isin([1, 3])]) / n >= 0.9:
        return "B"
    if regular(counts.get(pd.Timedelta(days=7), 0), n):
        return "W"
    return None


def duration(freq):
    if freq == "D":
        return 1 / 365
    if freq == "B":
        return 1 / 252
    if freq == "W":
        return 7 / 365
    if freq in ("M", "ME", "MS"):
        return 1 / 12
    if freq in ("Q", "QE", "QS"):
        return 1 / 4
    if freq in ("Y", "YE", "YS"):
        return 1.0
    return None


def fit_step(x):
    """step size of a fit without dt"""
    idx = date_index(x)
    freq = None if idx is None else pd.infer_freq(idx)
    if freq is None:
        return 1 / 252
    dt = duration(freq)
    if dt is None:
        raise ValueError("no year fraction for this frequency")
    return dt


def probe(a, b=None, *, c=None):
    return a, b, c


def one_dimensional(x):
    if x is None:
        return
    if not isinstance(x, (pd.Series, np.ndarray)):
        raise ValueError("type")
    if x.ndim != 1 or x.shape[0] < 2:
        raise ValueError("shape")


def two_dimensional(x):
    if x is None:
        return
    if not isinstance(x, (pd.DataFrame, np.ndarray)):
        raise ValueError("type")
    if x.ndim != 2 or x.shape[1] < 2:
        raise ValueError("shape")


def validated_1d(names, a, b=None, c=None):
    if "a" in names:
        one_dimensional(a)
    if "b" in names:
        one_dimensional(b)
    if "c" in names:
        one_dimensional(c)
    return a, b, c


def validated_2d(names, a, b=None, c=None):
    if "a" in names:
        two_dimensional(a)
    if "b" in names:
        two_dimensional(b)
    if "c" in names:
        two_dimensional(c)
    return a, b, c


def array_matches(value, shape, dtype):
    """dtype None: any element type; shape '*': any shape"""
    if not isinstance(value, np.ndarray):
        raise TypeError("kind")
    if dtype is not None and not np.can_cast(value.dtype, np.dtype(dtype)):
        raise TypeError("element type")
    if isinstance(shape, tuple):
        if value.ndim != len(shape):
            raise TypeError("dimensions")
        for i in range(len(shape)):
            if shape[i] != "*" and value.shape[i] != int(shape[i]):
                raise TypeError("shape")
    return value


def series_matches(value, shape, dtype):
    if not isinstance(value, pd.Series):
        raise TypeError("kind")
    if dtype is not None and not pd.api.types.is_dtype_equal(value.dtype, dtype):
        raise TypeError("element type")
    if shape != "*":
        if not isinstance(shape, int) or value.shape[0] != shape:
            raise TypeError("length")
    return value


def frame_matches(value, columns, dtype, shape):
    if not isinstance(value, pd.DataFrame):
        raise TypeError("kind")
    if columns is not None:
        if not isinstance(columns, dict):
            raise TypeError("annotation")
        for c in columns:
            if c not in value.columns:
                raise TypeError("column")
            if not pd.api.types.is_dtype_equal(value[c].dtype, columns[c]):
                raise TypeError("column type")
    elif dtype is not None:
        for c in value.columns:
            if not pd.api.types.is_dtype_equal(value.dtypes[c], dtype):
                raise TypeError("element type")
    if shape != "*" and len(shape) == 2:
        if value.shape != shape:
            raise TypeError("shape")
    return value


FLOAT64 = np.float64
INT_ = np.int_
BOOL_ = np.bool_
ANY_TYPE = Any


def mapping(*kv):
    return {kv[i]: kv[i + 1] for i in range(0, len(kv), 2)}


ROOT = Path("/where/it/is")
MATURITIES = {"1 Mo": "1m", "2 Mo": "2m", "3 Mo": "3m", "4 Mo": "4m", "6 Mo": "6m", "1 Yr": "1y", "2 Yr": "2y", "3 Yr": "3y", "5 Yr": "5y", "7 Yr": "7y", "10 Yr": "10y", "20 Yr": "20y", "30 Yr": "30y"}
DATASETS = {"load_vix": "vix_ohlc.csv.gz", "load_treasury_rates": "daily_treasury_rates.csv.gz", "load_equity_indices": "multi_index_close.csv.gz"}


def dataset(loader):
    """the contents of the loader's own packaged file"""
    p = ROOT / "quantfinlib" / "datasets" / "resources" / DATASETS[loader]
    if not p.exists():
        raise FileNotFoundError(str(p))
    x = pd.read_csv(p, index_col=0, parse_dates=True, compression="gzip")
    if loader == "load_treasury_rates":
        return x.rename(columns=MATURITIES)
    return x


def project_path(relative):
    return ROOT if relative is None else ROOT / relative
