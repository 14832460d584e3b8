"""Reference definitions of the technical indicators and estimators (analysed, never executed)."""
import numpy as np
import pandas as pd
from scipy.stats import t as student


# ------------------------------------------------------------------ moving statistics
def rolling_mean(ts, window=20):
    return ts.rolling(window).sum() / window


def rolling_std(ts, window=20):
    return np.sqrt(ts.rolling(window).var())


def rolling_max(ts, window=20):
    return ts.rolling(window).max()


def rolling_min(ts, window=20):
    return ts.rolling(window).min()


def ewm_mean(ts, span=20):
    return ts.ewm(alpha=2 / (span + 1)).mean()


def ewm_std(ts, span=20):
    return ts.ewm(alpha=2 / (span + 1)).var() ** 0.5


def average_true_range(high, low, close, window=14):
    prev = close.shift(1)
    tr = pd.concat([high - low, (high - prev).abs(), (low - prev).abs()], axis=1).max(axis=1)
    return tr.ewm(alpha=1 / window).mean()


def rolling_mom(ts, window=20):
    return (ts - ts.shift(window)) / window


def ewm_mom(ts, span=20, min_periods=0):
    return (ts - ts.shift(1)).ewm(alpha=2 / (span + 1), min_periods=min_periods).mean()


# ------------------------------------------------------------------ oscillators
def macd(ts, fast=12, slow=26):
    return ts.ewm(span=fast).mean() - ts.ewm(span=slow).mean()


def macd_signal(ts, fast=12, slow=26, signal=9):
    line = macd(ts, fast, slow)
    return line - line.ewm(span=signal).mean()


def _gains(ts):
    d = ts - ts.shift(1)
    return d.where(d > 0, 0), (-d).where(d < 0, 0)


def rsi(ts, period=14):
    gain, loss = _gains(ts)
    rs = gain.rolling(period).mean() / loss.rolling(period).mean()
    return 100 - 100 / (1 + rs)


def ewm_rsi(ts, period=14):
    gain, loss = _gains(ts)
    rs = gain.ewm(span=period).mean() / loss.ewm(span=period).mean()
    return 100 - 100 / (1 + rs)


# ------------------------------------------------------------------ bands: (ts, middle, half width)
def generic(ts, rolling_mean, rolling_std, multiplier):
    return ts, rolling_mean, rolling_std * multiplier


def bollinger(ts, window=20, multiplier=2):
    return ts, ts.rolling(window).mean(), multiplier * ts.rolling(window).std()


def ewm_bollinger(ts, window=20, multiplier=2):
    return ts, ts.ewm(span=window).mean(), multiplier * ts.ewm(span=window).std()


def keltner(high, low, close, window_atr=10, window=20, multiplier=2):
    return close, close.ewm(span=window).mean(), multiplier * average_true_range(high, low, close, window_atr)


def donchian(ts, window=20):
    hi, lo = ts.rolling(window).max(), ts.rolling(window).min()
    return ts, (hi + lo) / 2, (hi - lo) / 2


def upper(b):
    return b[1] + b[2]


def lower(b):
    return b[1] - b[2]


def middle(b):
    return b[1]


def bandwidth(b):
    return (upper(b) - lower(b)) / middle(b)


def percent_b(b):
    return (b[0] - lower(b)) / (upper(b) - lower(b))


# ------------------------------------------------------------------ volatility from price sequences
def get_close_close_volatility(p_close, window):
    return (p_close / p_close.shift(1)).rolling(window).var()


def get_high_low_volatility(p_high, p_low, window):
    return (np.log(p_high / p_low) ** 2).rolling(window).mean() / (4 * np.log(2))


def get_garman_klass_volatility(p_high, p_low, p_open, p_close, window):
    x = 0.5 * np.log(p_high / p_low) ** 2 - (2 * np.log(2) - 1) * np.log(p_close / p_open) ** 2
    return x.rolling(window).mean()


def get_rogers_satchell_volatility(p_high, p_low, p_open, p_close, window):
    h, l, o, c = np.log(p_high), np.log(p_low), np.log(p_open), np.log(p_close)
    return ((h - c) * (h - o) + (l - c) * (l - o)).rolling(window).mean()


def get_yang_zhang_volatility(p_high, p_low, p_open, p_close, window):
    k = 0.34 / (1.34 + (window + 1) / (window - 1))
    overnight = (np.log(p_open / p_close.shift(1)) ** 2).rolling(window).mean()
    intraday = (np.log(p_close / p_open.shift(1)) ** 2).rolling(window).mean()
    return overnight + k * intraday + (1 - k) * get_rogers_satchell_volatility(p_high, p_low, p_open, p_close, window)


# ------------------------------------------------------------------ Corwin-Schultz / Becker-Parkinson
def _beta(p_high, p_low, window):
    return (np.log(p_high / p_low) ** 2).rolling(2).sum().rolling(window).mean()


def _gamma(p_high, p_low):
    return np.log(p_high.rolling(2).max() / p_low.rolling(2).min()) ** 2


def get_cowrin_schultz_spread(p_high, p_low, window):
    beta, gamma = _beta(p_high, p_low, window), _gamma(p_high, p_low)
    den = 3 - 2 * np.sqrt(2)
    alpha = (np.sqrt(2 * beta) - np.sqrt(beta)) / den - np.sqrt(gamma / den)
    alpha = alpha.mask(alpha < 0, 0)
    return 2 * (np.exp(alpha) - 1) / (1 + np.exp(alpha))


def get_becker_parkinson_volatility(p_high, p_low, window):
    beta, gamma = _beta(p_high, p_low, window), _gamma(p_high, p_low)
    k2 = np.sqrt(8 / np.pi)
    den = 3 - 2 * np.sqrt(2)
    sigma = (np.sqrt(beta / 2) - np.sqrt(beta)) / (k2 * den) + np.sqrt(gamma / (k2 ** 2 * den))
    return sigma.mask(sigma < 0, 0)


# ------------------------------------------------------------------ Roll
def get_roll_measure(p_close, window):
    r = np.log(p_close) - np.log(p_close.shift(1))
    return 2 * np.sqrt(r.rolling(window).cov(r.shift(1)).abs())


def get_roll_impact(p_close, volume, window):
    return get_roll_measure(p_close, window) / (volume * p_close)


# ------------------------------------------------------------------ price impact
def get_kyle_lambda(p_close, volume, window=10):
    dp = p_close - p_close.shift(1)
    return (dp / (np.sign(dp) * volume)).rolling(window).mean()


def get_amihud_lambda(p_close, volume, window=10):
    return (p_close.pct_change().abs() / (volume * p_close)).rolling(window).mean()


def get_hasbrouck_lambda(p_close, volume, window=20):
    r = np.log(p_close / p_close.shift(1))
    return (r / (np.sign(r) * np.sqrt(volume * p_close))).rolling(window).mean()


# ------------------------------------------------------------------ informed trading
def get_vpin(volume, buy_volume, window):
    return ((2 * buy_volume - volume).abs() / volume).rolling(window).mean()


def estimate_buy_volume(p_close, volume, sigma_p):
    return volume * student.cdf((p_close - p_close.shift(1)) / sigma_p, 0.25)


# ------------------------------------------------------------------ EDGE spread of one window
def edge_window(p_high, p_low, p_open, p_close, sign):
    o, h, l, c = np.log(p_open.values), np.log(p_high.values), np.log(p_low.values), np.log(p_close.values)
    m = (h + l) / 2
    h1, l1, c1, m1 = h[:-1], l[:-1], c[:-1], m[:-1]
    o, h, l, c, m = o[1:], h[1:], l[1:], c[1:], m[1:]
    tau = (h != l) | (l != c1)
    pt = tau.mean()
    po = ((o != h) & tau).mean() + ((o != l) & tau).mean()
    pc = ((c1 != h1) & tau).mean() + ((c1 != l1) & tau).mean()
    if pt == 0 or po == 0 or pc == 0:
        return np.nan
    d1 = (m - o) - tau * (m - o).mean() / pt
    d3 = (m - c1) - tau * (m - c1).mean() / pt
    d5 = (o - c1) - tau * (o - c1).mean() / pt
    x1 = -4 / po * d1 * (o - m1) - 4 / pc * d3 * (c1 - m1)
    x2 = -4 / po * d1 * (o - c1) - 4 / pc * d5 * (c1 - m1)
    s2 = (x2.var() * x1.mean() + x1.var() * x2.mean()) / (x1.var() + x2.var())
    s = np.sqrt(np.abs(s2))
    if sign and s2 < 0:
        s = -s
    return float(s)


def get_edge_spread(p_high, p_low, p_open, p_close, window, sign=False):
    df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close})
    out = [edge_window(w["high"], w["low"], w["open"], w["close"], sign) for w in [df.iloc[i:i + window] for i in range(len(df) - window + 1)]]
    s = pd.Series(out, index=df.index[window - 1:])
    return s.reindex(df.index, fill_value=np.nan)


# ------------------------------------------------------------------ admissible inputs, parametrised
def ohlc_high(low, L):
    """high >= low"""
    return low * np.exp(L)


def ohlc_inside(low, L, a):
    """a price between low and high (a in 0..1)"""
    return low * np.exp(a * L)


def part_of(total, share):
    """a volume between 0 and the total (share in 0..1)"""
    return total * share
