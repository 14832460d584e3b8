"""Features scale correctly with the price level."""
from fractions import Fraction

from sa import feat, homog

EXPLAIN = """Every feature and band method is interpreted abstractly on symbolic series and arrays with symbolic parameters. A homogeneity-degree
inference over the resulting value term then decides by what power of c > 0 the value is multiplied when all price inputs are multiplied by c
(a two-sorted type system: multiplicative degree, or additive multiple of log c; sums, comparisons and choices need equal degrees, windows and
reductions have their transfer rules). The obligation is that the inferred degree is the documented one (1 for moving averages, extremes,
ranges, momentum, MACD and band lines; 0 for returns, ratios, oscillators, relative spreads, volatilities; for price-impact measures the power
their definition implies). A definite other degree, or a sum/comparison of unequal degrees, is reported with the term."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)"]

DEGREE = {"rolling_mean": 1, "rolling_std": 1, "rolling_max": 1, "rolling_min": 1, "ewm_mean": 1, "ewm_std": 1, "average_true_range": 1,
          "rolling_mom": 1, "ewm_mom": 1, "macd": 1, "macd_signal": 1, "rsi": 0, "ewm_rsi": 0,
          "get_close_close_volatility": 0, "get_high_low_volatility": 0, "get_garman_klass_volatility": 0, "get_rogers_satchell_volatility": 0,
          "get_yang_zhang_volatility": 0, "get_becker_parkinson_volatility": 0, "get_cowrin_schultz_spread": 0, "get_edge_spread": 0,
          "get_roll_measure": 0, "get_roll_impact": -1, "get_kyle_lambda": 1, "get_amihud_lambda": -1, "get_hasbrouck_lambda": Fraction(-1, 2),
          "get_vpin": 0, "estimate_buy_volume": 0}
BANDDEG = {"upper": 1, "lower": 1, "middle": 1, "bandwidth": 0, "percent_b": 0}
UNSCALED = {"volume", "buy_volume"}


def check(ctx):
    for name, (mod, ser, sc, dflt) in feat.ALL.items():
        if not set(ser) - UNSCALED:
            continue
        for kind in ("series", "ndarray"):
            for use in ([sc, {}] if dflt and kind == "series" else [sc]):
                ctx.run("scaling", name, one, ctx, f"{name} [{kind}]" + ("" if use else " (defaults)"), lambda S, a: S.call(mod + name, **a, **feat.scalar_args(use)), ser, kind, DEGREE[name])
    for cls, (mod, spec, ser, sc, has_def) in feat.BANDS.items():
        for kind in ("series", "ndarray"):
            for m in feat.BAND_METHODS:
                ctx.run("scaling", f"{cls}.{m}", one, ctx, f"{cls}.{m} [{kind}]",
                        lambda S, a: S.meth(S.call(mod + cls, **a, **feat.scalar_args(sc)), m), ser, kind, BANDDEG[m])


def one(ctx, construct, f, ser, kind, deg):
    S = ctx.session()
    v = S.I.freeze(f(S, feat.series_args(S, ser, kind)))
    price = [x for x, n in zip(feat.series_syms(S, ser, kind), ser) if n not in UNSCALED]
    ok, why = homog.decide(v, price, deg)
    ctx.count("features_analysed")
    ctx.decide(ok, f"price degree {deg}", construct, why)
