"""Gap statistic and silhouette score equal their definitions."""
from sa.ir import const
from .common import *

EXPLAIN = """gap_statistic and silhouette_tstat are interpreted for distances and labels of any size (arrays and pandas), any number of reference
draws and any seed, and compared with spec/cluster.py, including each draw's generator and stream position, the symmetrisation and the zero
diagonal of the reference matrix, and the exact condition under which mismatched labels are rejected."""
ASSUMPTIONS = ["real arithmetic", "silhouette_samples and the uniform draws are operators shared with the definition"]
M = "quantfinlib.clustering.metrics."
Z = "spec_cluster."


def check(ctx):
    n, nb, q = dim("n"), dim("nb", 1), dim("q")
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    for dk in ("ndarray", "frame"):
        for lk in ("ndarray", "series"):
            D = lambda S: S.arr("D", dk, (n, n), rng=NONNEG)
            L = lambda S: S.arr("L", lk, (n,), elem="int")
            L2 = lambda S: S.arr("L2", lk, (q,), elem="int")
            tag = f" [{dk}, {lk}]"
            for label, kw in (("defaults", {}), ("nb", {"nb": nb}), ("seed", {"random_state": sym("seed", "int"), "nb": nb}), ("one draw", {"nb": const(1)})):
                run("gap statistic", f"gap_statistic, {label}" + tag, lambda S: rolled(S, lambda: S.call(M + "gap_statistic", D(S), L(S), **kw)), lambda S: rolled(S, lambda: S.call(Z + "gap_statistic", D(S), L(S), **kw)))
            run("gap statistic", "gap_statistic, any number of labels" + tag, lambda S: S.call(M + "gap_statistic", D(S), L2(S)), lambda S: S.call(Z + "gap_statistic", D(S), L2(S)), skip_value=True)
            run("silhouette", "silhouette_tstat" + tag, lambda S: S.call(M + "silhouette_tstat", D(S), L(S)), lambda S: S.call(Z + "silhouette_tstat", D(S), L(S)))
            run("silhouette", "silhouette_tstat, any number of labels" + tag, lambda S: S.call(M + "silhouette_tstat", D(S), L2(S)), lambda S: S.call(Z + "silhouette_tstat", D(S), L2(S)), skip_value=True)
