"""The catalogue of feature entry points: documented parameters, kinds and domains."""
from __future__ import annotations

from .entry import sym
from .interp import Arr

INF = float("inf")
POS = (1e-300, INF)
IND = "quantfinlib.feature.indicators."
MS = "quantfinlib.feature.micro_structure."

# name -> (module, series params, scalar params (name, kind, range, has default))
W1, W2, W3 = ("int", (1, INF)), ("int", (2, INF)), ("int", (3, INF))
FUNCS = {
    "rolling_mean": (IND, ["ts"], {"window": W1}, 20),
    "rolling_std": (IND, ["ts"], {"window": W1}, 20),
    "rolling_max": (IND, ["ts"], {"window": W1}, 20),
    "rolling_min": (IND, ["ts"], {"window": W1}, 20),
    "ewm_mean": (IND, ["ts"], {"span": W1}, 20),
    "ewm_std": (IND, ["ts"], {"span": W1}, 20),
    "average_true_range": (IND, ["high", "low", "close"], {"window": W1}, 14),
    "rolling_mom": (IND, ["ts"], {"window": W1}, 20),
    "ewm_mom": (IND, ["ts"], {"span": W1, "min_periods": ("int", (0, INF))}, 20),
    "macd": (IND, ["ts"], {"fast": W1, "slow": W1}, 1),
    "macd_signal": (IND, ["ts"], {"fast": W1, "slow": W1, "signal": W1}, 1),
    "rsi": (IND, ["ts"], {"period": W1}, 14),
    "ewm_rsi": (IND, ["ts"], {"period": W1}, 14),
}
MICRO = {
    "get_close_close_volatility": (MS, ["p_close"], {"window": W2}, None),
    "get_high_low_volatility": (MS, ["p_high", "p_low"], {"window": W1}, None),
    "get_garman_klass_volatility": (MS, ["p_high", "p_low", "p_open", "p_close"], {"window": W1}, None),
    "get_rogers_satchell_volatility": (MS, ["p_high", "p_low", "p_open", "p_close"], {"window": W1}, None),
    "get_yang_zhang_volatility": (MS, ["p_high", "p_low", "p_open", "p_close"], {"window": W2}, None),
    "get_becker_parkinson_volatility": (MS, ["p_high", "p_low"], {"window": W1}, None),
    "get_cowrin_schultz_spread": (MS, ["p_high", "p_low"], {"window": W1}, None),
    "get_edge_spread": (MS, ["p_high", "p_low", "p_open", "p_close"], {"window": W3, "sign": ("bool", None)}, None),
    "get_roll_measure": (MS, ["p_close"], {"window": W2}, None),
    "get_roll_impact": (MS, ["p_close", "volume"], {"window": W2}, None),
    "get_kyle_lambda": (MS, ["p_close", "volume"], {"window": W1}, 10),
    "get_amihud_lambda": (MS, ["p_close", "volume"], {"window": W1}, 10),
    "get_hasbrouck_lambda": (MS, ["p_close", "volume"], {"window": W1}, 20),
    "get_vpin": (MS, ["volume", "buy_volume"], {"window": W1}, None),
    "estimate_buy_volume": (MS, ["p_close", "volume", "sigma_p"], {}, None),
}
BANDS = {
    "GenericBands": (IND, "generic", ["ts", "rolling_mean", "rolling_std"], {"multiplier": ("float", POS)}, False),
    "BollingerBands": (IND, "bollinger", ["ts"], {"window": W1, "multiplier": ("float", POS)}, True),
    "EwmBollingerBands": (IND, "ewm_bollinger", ["ts"], {"window": W1, "multiplier": ("float", POS)}, True),
    "KeltnerBands": (IND, "keltner", ["high", "low", "close"], {"window_atr": W1, "window": W1, "multiplier": ("float", POS)}, True),
    "DonchianBands": (IND, "donchian", ["ts"], {"window": W1}, True),
}
BAND_METHODS = ["upper", "lower", "middle", "bandwidth", "percent_b"]
ALL = {**FUNCS, **MICRO}


def dims(S):
    return sym("T", "int", rng=(2, INF))


def series_args(S, names, kind="series", rng=POS):
    T = dims(S)
    out = {}
    for n in names:
        c = sym(n, kind, (T,), rng, elem="float")
        out[n] = S.I.alloc(Arr(kind, content=c, owner=n))
    return out


def series_syms(S, names, kind="series", rng=POS):
    """the symbols series_args stands for"""
    return [sym(n, kind, (dims(S),), rng, elem="float") for n in names]


def scalar_args(spec):
    return {n: sym(n, k, rng=r) if r else sym(n, k) for n, (k, r) in spec.items()}
