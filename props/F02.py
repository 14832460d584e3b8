"""Indicator and band values equal their documented definitions."""
from sa import feat
from .common import compare_call, compare_values

EXPLAIN = """Every public indicator, oscillator and band method is interpreted abstractly on a series of symbolic
length with symbolic windows (and once with the documented defaults, once per input container); the resulting value term is
brought to a rational normal form over shift/rolling/exponential-window atoms and compared with the term of the reference definition
in spec/features.py. Equal normal forms prove equality for every input; different normal forms built only from modelled operators
refute it and name the function."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)", "pandas rolling/ewm/shift semantics as documented (pandas 2)",
               "skipna and NaN propagation are part of the atoms (where, row maximum)"]


def check(ctx):
    for name, (mod, ser, sc, dflt) in feat.FUNCS.items():
        for kind in ("series", "ndarray"):
            ctx.run("definition", name, compare_call, ctx, "definition", mod + name, "spec_features." + name, ser, sc, kind)
        ctx.run("definition", name, compare_call, ctx, "documented defaults", mod + name, "spec_features." + name, ser, {}, "series")
    for cls, (mod, spec, ser, sc, has_def) in feat.BANDS.items():
        for kind in ("series", "ndarray"):
            for use in ([sc, {}] if has_def and kind == "series" else [sc]):
                ctx.run("band", cls, bands, ctx, cls, mod, spec, ser, use, kind)


def bands(ctx, cls, mod, spec, ser, sc, kind):
    for m in feat.BAND_METHODS:
        S = ctx.session()
        kw = {**feat.series_args(S, ser, kind), **feat.scalar_args(sc)}
        obj = S.call(mod + cls, **kw)
        got = S.I.freeze(S.meth(obj, m))
        args = feat.series_args(S, ser, kind)
        if kind == "ndarray":
            args = {k: S.call("spec_tools.as_series", v) for k, v in args.items()}
        kw = {**args, **feat.scalar_args(sc)}
        want = S.I.freeze(S.call("spec_features." + m, S.call("spec_features." + spec, **kw)))
        compare_values(ctx, "band definition" + ("" if sc else " (defaults)"), f"{cls}.{m} [{kind}]", got, want)
