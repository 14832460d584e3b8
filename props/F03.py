"""Microstructure estimator values equal their documented definitions."""
from sa import feat
from .common import compare_call

EXPLAIN = """As F02, for the volatility, spread, price-impact and informed-trading estimators: abstract interpretation to a value term,
normal form, equality with the reference definition in spec/features.py."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)", "positive prices and volumes", "pandas/scipy operator semantics as documented"]


def check(ctx):
    for name, (mod, ser, sc, dflt) in feat.MICRO.items():
        for kind in ("series", "ndarray"):
            ctx.run("definition", name, compare_call, ctx, "definition", mod + name, "spec_features." + name, ser, sc, kind)
        if dflt is not None:
            ctx.run("definition", name, compare_call, ctx, "documented defaults", mod + name, "spec_features." + name, ser, {}, "series")
        elif name == "get_edge_spread":
            ctx.run("definition", name, compare_call, ctx, "documented defaults", mod + name, "spec_features." + name, ser, {"window": sc["window"]}, "series")
