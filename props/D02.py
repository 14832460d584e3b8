"""Information distances equal their entropy definitions."""
from sa.ir import const, NONE
from .common import *

EXPLAIN = """mutual_info, var_info, kl_divergence_xy, compute_entropies and the optimal bin counts are interpreted for all series pairs, bin counts
and normalisation options, for arrays and series, and compared in normal form with spec/distance.py."""
ASSUMPTIONS = ["real arithmetic", "numpy.histogram / scipy.stats.entropy are opaque operators shared with the definition"]
D = "quantfinlib.distance."
Z = "spec_distance."


def xy(S, kind):
    T = dim("T")
    return S.arr("x", kind, (T,), elem="float"), S.arr("y", kind, (T,), elem="float")


def check(ctx):
    b = dim("b", 1)
    for kind in ("ndarray", "series"):
        for f in ("mutual_info", "var_info"):
            for label, kw in (("given bins", {"bins": b}), ("optimal bins", {}), ("given bins, not normalised", {"bins": b, "norm": const(False)}),
                              ("optimal bins, not normalised", {"norm": const(False)}), ("given bins, normalised", {"bins": b, "norm": const(True)})):
                ctx.run("definition", f, equal, ctx, "definition", f"{f} [{kind}, {label}]", lambda S: S.call(D + f, *xy(S, kind), **kw), lambda S: S.call(Z + f, *xy(S, kind), **kw))
        for label, kw in (("given bins", {"bins": b}), ("optimal bins", {})):
            f = "kl_divergence_xy"
            ctx.run("definition", f, equal, ctx, "definition", f"{f} [{kind}, {label}]", lambda S: S.call(D + f, *xy(S, kind), **kw), lambda S: S.call(Z + f, *xy(S, kind), **kw))
        ctx.run("definition", "compute_entropies", equal, ctx, "definition", f"compute_entropies [{kind}]",
                lambda S: S.call(D + "compute_entropies", *xy(S, kind), b), lambda S: S.call(Z + "entropies", *xy(S, kind), b))
