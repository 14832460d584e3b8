"""Features preserve container kind, length and index."""
from sa import feat, ir, timedep
from sa import shape as sh
from sa.entry import sym
from sa.interp import Arr
from .common import dim

EXPLAIN = """Every feature and band method is interpreted abstractly once on series (of symbolic length, sharing a symbolic index) and once on
arrays. Each operator's transfer function carries the container kind, the symbolic length and the row labels (base index and offset into it) of
its value. Obligations per feature and container: the result has the input's container kind, its length equals the input's for every length
and window, and for pandas inputs its row labels are the input index with offset 0. The CUSUM test's two results get the length obligation."""
ASSUMPTIONS = ["all series passed to one call share one index", "pandas index propagation as documented"]


def check(ctx):
    for name, (mod, ser, sc, dflt) in feat.ALL.items():
        for kind in ("series", "ndarray"):
            ctx.run("container", name, one, ctx, f"{name} [{kind}]", lambda S: S.call(mod + name, **feat.series_args(S, ser, kind), **feat.scalar_args(sc)), kind)
    for cls, (mod, spec, ser, sc, has_def) in feat.BANDS.items():
        for kind in ("series", "ndarray"):
            for m in feat.BAND_METHODS:
                ctx.run("container", cls, one, ctx, f"{cls}.{m} [{kind}]",
                        lambda S: S.meth(S.call(mod + cls, **feat.series_args(S, ser, kind), **feat.scalar_args(sc)), m), kind)
    cusum = "quantfinlib.feature.structural_breaks.cusumtest.chu_stinchcombe_white_cusum_test"
    for i, part in enumerate(("statistic", "critical values")):
        ctx.run("container", "cusum", one, ctx, f"chu_stinchcombe_white_cusum_test {part}", lambda S: pick(S, S.call(cusum, S.arr("y", "ndarray", (feat.dims(S),), rng=feat.POS)), i), "ndarray")


def pick(S, v, i):
    v = S.I.freeze(v)
    return v.args[i] if v.op == "tuple" else v


def one(ctx, construct, f, kind):
    S = ctx.session()
    v = S.I.freeze(f(S))
    T = feat.dims(S)
    ctx.count("results_analysed")
    judge(ctx, construct, v, kind, T)


def leaves(v):
    if v.op == "phi":
        return leaves(v.args[1]) + leaves(v.args[2])
    return [v]


def judge(ctx, construct, v, kind, T):
    kinds = {x.kind for x in leaves(v)}
    definite = {"series", "ndarray", "frame", "int", "float", "num", "bool", "str", "none", "tuple", "list", "index", "dtindex"}
    ctx.decide(True if kinds == {kind} else False if kinds & definite - {kind} else None, "container kind", construct, f"result kinds {sorted(kinds)} for {kind} input")
    s = sh.shape(v)
    if s is None:
        ctx.undecided("length", construct, f"length of {ir.show(v, 2)} not derived")
    else:
        d, c = sh.lin(sh.isub(s[0], T)) if s else ({}, None)
        if len(s) != 1:
            ctx.refute("length", construct, f"result has {len(s)} dimensions")
        elif not d and c == 0:
            ctx.proved("length", construct, "the input's length")
        elif all(a.op == "sym" for a in d):
            ctx.refute("length", construct, f"length is {ir.show(s[0])}, the input's is {ir.show(T)}")
        else:
            ctx.undecided("length", construct, f"length is {ir.show(s[0])}")
    if kind == "series":
        b = timedep.label_base(v)
        want = ("input index", T.id)
        if b is None:
            ctx.undecided("index", construct, "row labels not derived")
        elif b[0] != want:
            ctx.refute("index", construct, f"row labels are {' '.join(map(str, b[0][:-1]))}, not the input's")
        else:
            ctx.decide(True if ir.is_const(b[1], 0) else False if not ir.is_const(b[1]) or b[1].args[0] else None, "index", construct, "row labels are the input's" + ("" if ir.is_const(b[1], 0) else f" from row {ir.show(b[1])} on"))
