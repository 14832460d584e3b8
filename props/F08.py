"""The CUSUM break test computes its documented statistic."""
from sa import feat
from .common import equal, rolled, dim, POSF

EXPLAIN = """The function is interpreted abstractly on a positive series of symbolic length; its loop over time is kept symbolic (one iteration
for an arbitrary t, writing element t of the two outputs). The reference in spec/structural.py states the statistic and the critical value of
element t directly. The two loops are aligned and the value terms stored at t, for both outputs, are compared in normal form; the initial
contents (zero at the first time) and the loop range must agree."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)", "first maximum is taken for the distance, as numpy.argmax"]
F = "quantfinlib.feature.structural_breaks.cusumtest.chu_stinchcombe_white_cusum_test"


def check(ctx):
    y = lambda S: S.arr("y", "ndarray", (feat.dims(S),), rng=POSF, elem="float")
    for i, part in enumerate(("statistic", "critical value")):
        ctx.run(part, "chu_stinchcombe_white_cusum_test", equal, ctx, part, "chu_stinchcombe_white_cusum_test",
                lambda S: rolled(S, lambda: S.call(F, y(S))), lambda S: rolled(S, lambda: S.call("spec_structural.cusum", y(S))),
                (lambda S, v: pick(S, v, i)), (lambda S, v: pick(S, v, i)))


def pick(S, v, i):
    return S.I.subscript(v, i) if hasattr(S.I, "subscript") else S.I.freeze(v).args[i]
