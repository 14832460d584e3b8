"""Distance matrices are assembled entry by entry with their labels."""
from sa.ir import const
from .common import *

EXPLAIN = """get_corr_distance_matrix, get_info_distance_matrix and corr_to_dist are interpreted for arrays and frames of any size, every method and
option; the assembled matrix (cell stores of the column-pair loop, diagonal, row and column labels) is compared with spec/distance.py.
Unknown method names (several strings near the documented ones) must be rejected on every path."""
ASSUMPTIONS = ["real arithmetic", "DataFrame.corr is symmetric, of unit diagonal and keeps the column labels on both axes"]
D = "quantfinlib.distance."
Z = "spec_distance."
METHODS = ("angular", "abs_angular", "squared_angular")


def data(S, kind):
    T, m = dim("T"), dim("m")
    return S.arr("X", kind, (T, m), elem="float")


def check(ctx):
    b = dim("b", 1)
    g, h = D + "get_corr_distance_matrix", D + "get_info_distance_matrix"
    for kind in ("ndarray", "frame"):
        for cm in ("pearson", "spearman"):
            for m in METHODS:
                ctx.run("correlation matrix", g, equal, ctx, "correlation distance matrix", f"get_corr_distance_matrix [{kind}, {cm}, {m}]",
                        lambda S: S.call(g, data(S, kind), const(cm), const(m)), lambda S: S.call(Z + "corr_matrix", data(S, kind), const(cm), const(m)))
            ctx.run("correlation matrix", g, equal, ctx, "options are forwarded to the correlation", f"get_corr_distance_matrix [{kind}, {cm}, min_periods]",
                    lambda S: S.call(g, data(S, kind), const(cm), min_periods=b), lambda S: S.call(Z + "corr_matrix", data(S, kind), const(cm), const("angular"), min_periods=b))
            ctx.run("correlation matrix", g, equal, ctx, "the correlation transformer is applied", f"get_corr_distance_matrix [{kind}, {cm}, transformer]",
                    lambda S: S.call(g, data(S, kind), const(cm), corr_transformer=S.attr("spec_distance.shrink")),
                    lambda S: S.call(Z + "corr_matrix", data(S, kind), const(cm), const("angular"), transformer=S.attr("spec_distance.shrink")))
        ctx.run("correlation matrix", g, equal, ctx, "documented defaults", f"get_corr_distance_matrix [{kind}]",
                lambda S: S.call(g, data(S, kind)), lambda S: S.call(Z + "corr_matrix", data(S, kind), const("pearson"), const("angular")))
        for m in METHODS:
            spec = {"ndarray": "matrix_dist_checked", "frame": "frame_dist"}[kind]
            n = dim("n")
            ctx.run("given correlation", "corr_to_dist", equal, ctx, "distance of a given correlation", f"corr_to_dist [{kind}, {m}]",
                    lambda S: S.call(D + "distance_matrix.corr_to_dist", S.arr("C", kind, (n, n)), const(m)), lambda S: S.call(Z + spec, S.arr("C", kind, (n, n)), const(m)))
        for meas in ("mutual_info", "var_info"):
            for label, kw in (("", {}), ("bins", {"bins": b}), ("bins, not normalised", {"bins": b, "norm": const(False)}), ("not normalised", {"norm": const(False)})):
                ctx.run("information matrix", h, equal, ctx, "information distance matrix", f"get_info_distance_matrix [{kind}, {meas}, {label}]",
                        lambda S: S.call(h, data(S, kind), const(meas), **kw), lambda S: S.call(Z + meas + "_matrix", data(S, kind), **kw))
        ctx.run("information matrix", h, equal, ctx, "documented defaults", f"get_info_distance_matrix [{kind}]", lambda S: S.call(h, data(S, kind)), lambda S: S.call(Z + "var_info_matrix", data(S, kind)))
        E = ("AssertionError", "ValueError", "NotImplementedError")
        opts = lambda names: ["", "other"] + [o + "x" for o in names] + [o.upper() for o in names] + [o[:-1] for o in names]
        for bad in opts(("pearson", "spearman")):
            ctx.run("unknown option", g, must_raise, ctx, "unknown option rejected", f"get_corr_distance_matrix corr_method={bad!r} [{kind}]", lambda S: S.call(g, data(S, kind), const(bad)), E)
        for bad in opts(METHODS):
            ctx.run("unknown option", g, must_raise, ctx, "unknown option rejected", f"get_corr_distance_matrix corr_to_dist_method={bad!r} [{kind}]", lambda S: S.call(g, data(S, kind), const("pearson"), const(bad)), E)
            ctx.run("unknown option", g, must_raise, ctx, "unknown option rejected", f"corr_to_dist {bad!r} [{kind}]", lambda S: S.call(D + "distance_matrix.corr_to_dist", S.arr("C", kind, (dim("n"), dim("n"))), const(bad)), E)
        for bad in opts(("mutual_info", "var_info")):
            ctx.run("unknown option", h, must_raise, ctx, "unknown option rejected", f"get_info_distance_matrix {bad!r} [{kind}]", lambda S: S.call(h, data(S, kind), const(bad)), E)
