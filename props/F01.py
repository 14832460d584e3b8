"""Features never read later observations."""
from sa import feat, timedep

EXPLAIN = """Every feature function and band method is interpreted abstractly on series (and arrays) of symbolic length with symbolic
windows. For the resulting value term a dataflow analysis computes, operator by operator (shift, rolling and exponential windows,
slices, reductions, comprehensions over windows, reindexing), the set of input rows the element at row POS can depend on, as integer-linear
terms over POS and the size symbols. The obligation is that each of them is <= POS for every row and size; a term that exceeds POS for
some sizes is reported with these sizes and the feature."""
ASSUMPTIONS = ["rolling windows are trailing unless centered; exponential and cumulative operators read only the past (pandas semantics)",
               "NaN handling (dropping rows) does not move values between rows"]


def check(ctx):
    for name, (mod, ser, sc, dflt) in feat.ALL.items():
        for kind in ("series", "ndarray"):
            for use in ([sc, {}] if dflt and kind == "series" else [sc]):
                ctx.run("no look-ahead", name, one, ctx, f"{name} [{kind}]" + ("" if use else " (defaults)"), lambda S: S.call(mod + name, **feat.series_args(S, ser, kind), **feat.scalar_args(use)), ser, kind)
    for cls, (mod, spec, ser, sc, has_def) in feat.BANDS.items():
        for kind in ("series", "ndarray"):
            for m in feat.BAND_METHODS:
                ctx.run("no look-ahead", f"{cls}.{m}", one, ctx, f"{cls}.{m} [{kind}]",
                        lambda S: S.meth(S.call(mod + cls, **feat.series_args(S, ser, kind), **feat.scalar_args(sc)), m), ser, kind)


def one(ctx, construct, f, ser, kind):
    S = ctx.session()
    v = S.I.freeze(f(S))
    ins = feat.series_syms(S, ser, kind)
    ok, why = timedep.causal(v, ins, feat.dims(S))
    ctx.count("features_analysed")
    ctx.decide(ok, "no look-ahead", construct, why)
