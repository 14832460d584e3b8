import pandas as pd


def as_series(x):
    return pd.Series(x)


def minus(a, b):
    return a - b
