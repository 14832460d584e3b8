"""Clustering wires data, distance, linkage and cut together as configured."""
from sa.ir import const
from .common import *

EXPLAIN = """HC is constructed with every documented source (data, correlation, distance; arrays and frames), codependence and distance method,
linkage method and ordering (symbolic strings and flags are forwarded), and its distance, linkage, cluster labels and optimal cluster count -
also after earlier calls on the same object - are compared with spec/cluster.py. optimize_n_clusters is compared for both criteria and any
maximum. Missing inputs and unknown option strings must be rejected on every path."""
ASSUMPTIONS = ["scipy linkage, squareform and cut_tree, and the distance and score functions (decided by D04 and C02), are operators shared with the definition"]
HC = "quantfinlib.clustering.hierarchical.HC"
OPT = "quantfinlib.clustering.hierarchical.optimize_n_clusters"
Z = "spec_cluster."
METHODS = ("angular", "abs_angular", "squared_angular")


def check(ctx):
    T, m, n, k, nb, mx = dim("T"), dim("m"), dim("n"), dim("k", 1), dim("nb", 1), dim("mx", 3)
    lm = sym("linkage_method", "str")
    oo = sym("optimal_ordering", "bool")
    X = lambda S, kind: S.arr("X", kind, (T, m), elem="float")
    C = lambda S, kind: S.arr("C", kind, (n, n))
    Dm = lambda S, kind: S.arr("D", kind, (n, n))
    dist = lambda S, h: S.I.getattr(h, "dist")
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    for kind in ("ndarray", "frame"):
        for cd, kn in (("pearson-correlation", "pearson"), ("spearman-correlation", "spearman")):
            for me in METHODS:
                run("distance of the data", f"HC(X) [{kind}, {cd}, {me}]",
                    lambda S: dist(S, S.call(HC, X(S, kind), codependence_method=const(cd), corr_to_dist_method=const(me))),
                    lambda S: S.call(Z + "distance_of_data", X(S, kind), const(kn), const(me)))
                run("distance of a correlation", f"HC(corr) [{kind}, {cd}, {me}]",
                    lambda S: dist(S, S.call(HC, corr=C(S, kind), codependence_method=const(cd), corr_to_dist_method=const(me))),
                    lambda S: S.call(Z + "distance_of_corr", C(S, kind), const(me)))
                run("a given correlation takes precedence over data", f"HC(X, corr) [{kind}, {cd}, {me}]",
                    lambda S: dist(S, S.call(HC, X(S, kind), C(S, kind), codependence_method=const(cd), corr_to_dist_method=const(me))),
                    lambda S: S.call(Z + "distance_of_corr", C(S, kind), const(me)))
        run("distance of the data", f"HC(X) [{kind}, var_info]", lambda S: dist(S, S.call(HC, X(S, kind), codependence_method=const("var_info"))),
            lambda S: S.call(Z + "distance_of_data", X(S, kind), const("var_info"), NONE))
        run("documented defaults", f"HC(X) [{kind}]", lambda S: dist(S, S.call(HC, X(S, kind))), lambda S: S.call(Z + "distance_of_data", X(S, kind), const("pearson"), const("angular")))
        for cd in ("pearson-correlation", "var_info"):
            run("a given distance is used as it is", f"HC(dist) [{kind}, {cd}]", lambda S: dist(S, S.call(HC, X(S, kind), C(S, kind), Dm(S, kind), const(cd))), lambda S: Dm(S, kind))
        run("linkage of the distance", f"HC.linkage [{kind}]", lambda S: S.I.getattr(S.call(HC, dist=Dm(S, kind), linkage_method=lm, optimal_ordering=oo), "linkage"),
            lambda S: S.call(Z + "tree", Dm(S, kind), lm, oo))
        run("documented defaults", f"HC.linkage [{kind}]", lambda S: S.I.getattr(S.call(HC, dist=Dm(S, kind)), "linkage"), lambda S: S.call(Z + "tree", Dm(S, kind)))
        run("labels cut the same tree", f"HC.get_clusters [{kind}]", lambda S: S.meth(S.call(HC, dist=Dm(S, kind), linkage_method=lm, optimal_ordering=oo), "get_clusters", k),
            lambda S: S.call(Z + "clusters", Dm(S, kind), k, lm, oo))

        def again(S):
            h = S.call(HC, dist=Dm(S, kind), linkage_method=lm, optimal_ordering=oo)
            S.meth(h, "get_clusters", dim("first", 1))
            S.meth(h, "get_optimal_nclusters", mx, const("silhouette"))
            return S.meth(h, "get_clusters", k)
        run("labels cut the same tree", f"HC.get_clusters after earlier calls [{kind}]", again, lambda S: S.call(Z + "clusters", Dm(S, kind), k, lm, oo), raises=False)
        for crit in ("gap", "silhouette"):
            run("selection of the number of clusters", f"HC.get_optimal_nclusters [{kind}, {crit}]",
                lambda S: S.meth(S.call(HC, dist=Dm(S, kind), linkage_method=lm, optimal_ordering=oo), "get_optimal_nclusters", mx, const(crit), nb),
                lambda S: S.call(Z + "optimal_" + crit, S.call(Z + "tree", Dm(S, kind), lm, oo), Dm(S, kind), mx, nb), raises=False)
            run("selection of the number of clusters", f"optimize_n_clusters [{kind}, {crit}]",
                lambda S: S.call(OPT, S.arr("Zl", "ndarray", (n, const(4))), Dm(S, kind), mx, const(crit), nb),
                lambda S: S.call(Z + "optimal_" + crit, S.arr("Zl", "ndarray", (n, const(4))), Dm(S, kind), mx, nb), raises=False)
        run("documented defaults", f"optimize_n_clusters [{kind}]",
            lambda S: rolled(S, lambda: S.call(OPT, S.arr("Zl", "ndarray", (n, const(4))), Dm(S, kind))),
            lambda S: rolled(S, lambda: S.call(Z + "optimal_gap", S.arr("Zl", "ndarray", (n, const(4))), Dm(S, kind), const(20), const(10))), raises=False)
        run("documented defaults", f"HC.get_optimal_nclusters [{kind}]",
            lambda S: rolled(S, lambda: S.meth(S.call(HC, dist=Dm(S, kind)), "get_optimal_nclusters")),
            lambda S: rolled(S, lambda: S.call(Z + "optimal_gap", S.call(Z + "tree", Dm(S, kind)), Dm(S, kind), const(20), const(10))), raises=False)
        E = ("AssertionError", "ValueError", "NotImplementedError")
        rej = lambda what, f: ctx.run("rejection", what, must_raise, ctx, "missing input or unknown option rejected", f"{what} [{kind}]", f, E)
        for cd in ("", "pearson", "other", "pearson-correlatio", "kendall-correlation", "VAR_INFO", "mutual_info"):
            rej(f"HC codependence_method={cd!r}", lambda S: S.call(HC, X(S, kind), codependence_method=const(cd)))
        for me in ("", "other", "Angular", "angula", "squared"):
            rej(f"HC corr_to_dist_method={me!r}", lambda S: S.call(HC, X(S, kind), corr_to_dist_method=const(me)))
            rej(f"HC(corr) corr_to_dist_method={me!r}", lambda S: S.call(HC, corr=C(S, kind), corr_to_dist_method=const(me)))
        for cr in ("", "other", "Gap", "gaps", "silhouett"):
            rej(f"optimize_n_clusters metric={cr!r}", lambda S: S.call(OPT, S.arr("Zl", "ndarray", (n, const(4))), Dm(S, kind), mx, const(cr)))
            rej(f"HC.get_optimal_nclusters metric={cr!r}", lambda S: S.meth(S.call(HC, dist=Dm(S, kind)), "get_optimal_nclusters", mx, const(cr)))
        rej("HC(corr), var_info", lambda S: S.call(HC, corr=C(S, kind), codependence_method=const("var_info")))
    rej2 = lambda what, **kw: ctx.run("rejection", what, must_raise, ctx, "missing input or unknown option rejected", what, lambda S: S.call(HC, **kw), ("ValueError",))
    for cd in ("pearson-correlation", "spearman-correlation", "var_info"):
        rej2(f"HC() {cd}", codependence_method=const(cd))
