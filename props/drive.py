"""Every public callable with every admissible container kind and option: the calls whose effects are analysed."""
from sa.entry import Missing
from .common import *
from .sims import *
from . import splits, U05, U06

X = "quantfinlib."
D = X + "distance."
CORR, INFO, DIST = D + "correlation.", D + "information.", D + "distance_matrix."
n, k, b, T_, m_ = dim("n"), dim("k", 1), dim("b", 1), dim("T"), dim("m")
METHODS = ("angular", "abs_angular", "squared_angular")


def features():
    for name, (mod, ser, sc, dflt) in feat.ALL.items():
        for kind in ("series", "ndarray"):
            yield f"{name} [{kind}]", lambda S: S.call(mod + name, **feat.series_args(S, ser, kind), **feat.scalar_args(sc))
    for cls, (mod, spec, ser, sc, has_def) in feat.BANDS.items():
        for kind in ("series", "ndarray"):
            for me in feat.BAND_METHODS:
                yield f"{cls}.{me} [{kind}]", lambda S: S.meth(S.call(mod + cls, **feat.series_args(S, ser, kind), **feat.scalar_args(sc)), me)
    for kind in ("series", "ndarray"):
        for a in ({}, {"significance_level": real("sig", (0, 1))}):
            yield f"chu_stinchcombe_white_cusum_test [{kind}]", lambda S: S.call(X + "feature.structural_breaks.cusumtest.chu_stinchcombe_white_cusum_test", S.arr("y", kind, (T_,), rng=POSF, elem="float"))


def distances():
    C = lambda S, kind="ndarray": S.arr("C", kind, (n, n), elem="float")
    xy = lambda S, kind: (S.arr("x", kind, (T_,), elem="float"), S.arr("y", kind, (T_,), elem="float"))
    data = lambda S, kind: S.arr("X", kind, (T_, m_), elem="float")
    for me in METHODS:
        yield f"corr_to_{me}_dist", lambda S: S.call(CORR + f"corr_to_{me}_dist", C(S))
        yield f"corr_to_{me}_dist [number]", lambda S: S.call(CORR + f"corr_to_{me}_dist", real("c"))
        yield f"pair_{me}_distance", lambda S: S.call(CORR + f"pair_{me}_distance", *xy(S, "ndarray"))
        for kind in ("ndarray", "frame"):
            yield f"corr_to_dist [{kind}, {me}]", lambda S: S.call(DIST + "corr_to_dist", C(S, kind), const(me))
            for cm in ("pearson", "spearman"):
                yield f"get_corr_distance_matrix [{kind}, {cm}, {me}]", lambda S: S.call(DIST + "get_corr_distance_matrix", data(S, kind), const(cm), const(me))
    for kind in ("ndarray", "frame"):
        for me in ("mutual_info", "var_info"):
            for kw in ({}, {"bins": b, "norm": const(False)}):
                yield f"get_info_distance_matrix [{kind}, {me}, {list(kw)}]", lambda S: S.call(DIST + "get_info_distance_matrix", data(S, kind), const(me), **kw)
    for kind in ("ndarray", "series"):
        for f in ("mutual_info", "var_info"):
            for kw in ({}, {"bins": b}, {"norm": const(False)}):
                yield f"{f} [{kind}, {list(kw)}]", lambda S: S.call(INFO + f, *xy(S, kind), **kw)
        for kw in ({}, {"bins": b}):
            yield f"kl_divergence_xy [{kind}, {list(kw)}]", lambda S: S.call(INFO + "kl_divergence_xy", *xy(S, kind), **kw)
        yield f"compute_entropies [{kind}]", lambda S: S.call(INFO + "compute_entropies", *xy(S, kind), b)
    for f in ("log_det_divergence", "von_neuman_divergence"):
        yield f, lambda S: S.call(D + "matrix_divergence." + f, S.arr("P", "ndarray", (n, n)), S.arr("Q", "ndarray", (n, n)))


def clusters():
    H = X + "clustering.hierarchical."
    mx, nb = dim("mx", 3), dim("nb", 1)
    Xd = lambda S, kind: S.arr("X", kind, (T_, m_), elem="float")
    C = lambda S, kind: S.arr("C", kind, (n, n))
    Dm = lambda S, kind: S.arr("D", kind, (n, n), rng=NONNEG)

    def used(S, h):
        S.I.getattr(h, "dist")
        S.I.getattr(h, "linkage")
        S.meth(h, "get_clusters", k)
        return h
    for kind in ("ndarray", "frame"):
        for cd in ("pearson-correlation", "spearman-correlation", "var_info"):
            for me in METHODS if cd != "var_info" else ("angular",):
                yield f"HC(X) [{kind}, {cd}, {me}]", lambda S: used(S, S.call(H + "HC", Xd(S, kind), codependence_method=const(cd), corr_to_dist_method=const(me)))
                if cd != "var_info":
                    yield f"HC(corr) [{kind}, {cd}, {me}]", lambda S: used(S, S.call(H + "HC", corr=C(S, kind), codependence_method=const(cd), corr_to_dist_method=const(me)))
        yield f"HC(dist) [{kind}]", lambda S: used(S, S.call(H + "HC", dist=Dm(S, kind)))
        for crit in ("gap", "silhouette"):
            yield f"HC.get_optimal_nclusters [{kind}, {crit}]", lambda S: S.meth(S.call(H + "HC", dist=Dm(S, kind)), "get_optimal_nclusters", mx, const(crit), nb)
            yield f"optimize_n_clusters [{kind}, {crit}]", lambda S: S.call(H + "optimize_n_clusters", S.arr("Zl", "ndarray", (n, const(4))), Dm(S, kind), mx, const(crit), nb)
        for lk in ("ndarray", "series"):
            L = lambda S: S.arr("L", lk, (n,), elem="int")
            yield f"gap_statistic [{kind}, {lk}]", lambda S: S.call(X + "clustering.metrics.gap_statistic", Dm(S, kind), L(S), nb, sym("seed", "int"))
            yield f"gap_statistic [{kind}, {lk}, default seed]", lambda S: S.call(X + "clustering.metrics.gap_statistic", Dm(S, kind), L(S), nb)
            yield f"silhouette_tstat [{kind}, {lk}]", lambda S: S.call(X + "clustering.metrics.silhouette_tstat", Dm(S, kind), L(S))


def covariances():
    I_ = X + "math.cov."
    C = lambda S: S.arr("C", "ndarray", (n, n))
    w = lambda S: S.arr("w", "ndarray", (n,), rng=NONNEG)
    yield "_cov_to_cor", lambda S: S.call(I_ + "_cov_to_cor", C(S), real("reg", POSF))
    yield "_cor_to_cov", lambda S: S.call(I_ + "_cor_to_cov", C(S), w(S))
    yield "_eig_to_cor", lambda S: S.call(I_ + "_eig_to_cor", w(S), C(S))
    for s in (True, False):
        for kk in (None, k):
            yield f"_cor_to_eig [{s}, {kk is not None}]", lambda S: S.call(I_ + "_cor_to_eig", C(S), const(s), kk)
    yield "_eig_complete", lambda S: S.call(I_ + "_eig_complete", w(S), S.arr("V", "ndarray", (n, n)))
    yield "_eig_complete [truncated]", lambda S: S.call(I_ + "_eig_complete", S.arr("wk", "ndarray", (k,), rng=NONNEG), S.arr("Vk", "ndarray", (sa_add(k, dim("more", 1)), k)))
    yield "_cor_block_diagonal", lambda S: S.call(I_ + "_cor_block_diagonal", S.lst([dim("size0", 1), dim("size1", 1)], "block_sizes"), S.lst([real("cor0", (-1, 1)), real("cor1", (-1, 1))], "block_cors"))
    for kk in (None, k):
        yield f"_cov_denoise [{kk is not None}]", lambda S: S.call(I_ + "_cov_denoise", C(S), T_, kk)
        yield f"_cor_denoise [{kk is not None}]", lambda S: S.call(I_ + "_cor_denoise", C(S), T_, kk)
        yield f"_eigen_values_denoise [{kk is not None}]", lambda S: S.call(I_ + "_eigen_values_denoise", w(S), T_, kk)
    yield "_marchenko_pastur_pdf", lambda S: S.call(I_ + "_marchenko_pastur_pdf", real("var", POSF), T_, n, w(S))
    yield "_marchenko_pastur_fit", lambda S: S.call(I_ + "_marchenko_pastur_fit", T_, n, w(S))
    yield "_random_cov", lambda S: S.call(I_ + "_random_cov", n)
    yield "_random_cor", lambda S: S.call(I_ + "_random_cor", n)


def sa_add(x, y):
    from sa.shape import iadd
    return iadd(x, y)


LABELS = ((), ("start", "freq"), ("columns",), ("start", "freq", "columns"))


def labels(S, which, m):
    out = {}
    if "start" in which:
        out["label_start"] = sym("label_start", "str")
    if "freq" in which:
        out["label_freq"] = sym("label_freq", "str")
    if "columns" in which:
        out["columns"] = S.I.alloc(interp.ListO(None, sym=sym("names", "list", shape=(m,)), owner="columns"))
    return out


def simulations():
    P = dim("p", 1)
    T = dim("T", 3)
    for cls in MODELS:
        for case in cases():
            yield f"{cls}.path_sample [{case.name}]", lambda S: path(S, cls, case)
        for which in LABELS:
            for inc in (True, False):
                c = Case("", M, True, P, "row")
                yield f"{cls}.path_sample [{list(which)}, start row {inc}]", lambda S: path(S, cls, c, include_x0=inc, **labels(S, which, M))
        for kind in FIT_KINDS:
            for m in (M, const(1)):
                if m is M and kind in ("1-d array", "series", "dated series"):
                    continue
                tag = f"[{kind}, {'m variates' if m is M else '1 variate'}]"
                yield f"{cls}.fit {tag}", lambda S: S.meth(S.call(X + "sim." + cls), "fit", dated(S, T, m, kind), DT)
                if kind.startswith("dated"):
                    yield f"{cls}.fit without dt {tag}", lambda S: S.meth(S.call(X + "sim." + cls), "fit", dated(S, T, m, kind))

                def sampled(S, which):
                    mod = S.call(X + "sim." + cls)
                    S.meth(mod, "fit", dated(S, T, m, kind), DT)
                    return S.meth(mod, "path_sample", NONE, DT, NS, P, random_state=SEED, **labels(S, which, m))
                for which in ((), ("start", "freq")):
                    yield f"{cls}.fit and path_sample {tag} {list(which)}", lambda S: sampled(S, which)
                for f in ("nll", "aic", "bic"):
                    yield f"{cls}.{f} {tag}", lambda S: S.meth(model(S, cls, Case("", m, m is M, None, "row")), f, dated(S, T, m, kind), DT)
    IND = sym("indicator", "func")
    for cls in list(MODELS) + [None]:
        m = M if cls else const(1)
        for how in ("row", "scalar"):
            case = Case("", m, m is M, P, how)

            def quasi(S, share):
                kw = {"f_signal_vol": S.arr("f_signal_vol", "ndarray", (sa_mul(m, P),), rng=POSF, elem="float")} if share else {}
                if cls:
                    kw["base_model"] = model(S, cls, case)
                return S.meth(S.call(X + "sim.QuasiRandom", IND, **kw), "path_sample", start(S, case), DT, NS, P, random_state=SEED)
            for share in (True, False):
                yield f"QuasiRandom.path_sample [base {cls or 'default'}, {how} start, {'given' if share else 'default'} fraction]", lambda S: quasi(S, share)


def sa_mul(x, y):
    from sa.shape import imul
    return imul(x, y)


def splitters():
    for kind in splits.GROUPS:
        unit = {"freq": const(splits.UNIT)} if "dat" in kind else {}

        def kfold(S, nf, look):
            o = S.call(splits.KFOLD, const(nf), const(look), splits.lens("emb"), splits.lens("pur"), *unit.values())
            return S.meth(o, "split", splits.data(S), S.arr("y", "ndarray", (splits.n,)), splits.groups_arg(S, kind))
        for nf in (2, 3):
            for look in (False, True):
                yield f"TimeAwareKFold.split [{kind}, {nf} folds, {look}]", lambda S: kfold(S, nf, look)

        def walk(S, how):
            S.I.unroll_while = 2
            o = S.call(splits.WALK, splits.lens("emb"), const(0), splits.lens("trw"), splits.lens("tew"), const(how), *unit.values())
            return S.meth(o, "split", splits.data(S), S.arr("y", "ndarray", (splits.n,)), splits.groups_arg(S, kind))
        for how in ("rolling", "expanding"):
            yield f"WalkForward.split [{kind}, {how}]", lambda S: walk(S, how)


def utilities():
    F = X + "_datatypes.timeseries."
    Wd = dim("w", 1)
    inputs = {"dated series": lambda S: S.arr("x", "series", (T_,), elem="dtidx"), "dated frame": lambda S: S.arr("x", "frame", (T_, Wd), elem="dtidx"), "date index": lambda S: S.arr("i", "dtindex", (T_,)),
              "series": lambda S: S.arr("x", "series", (T_,), elem="float"), "frame": lambda S: S.arr("x", "frame", (T_, Wd), elem="float"), "array": lambda S: S.arr("a", "ndarray", (T_,)),
              "matrix": lambda S: S.arr("a", "ndarray", (T_, Wd)), "list": lambda S: S.lst([real("r"), real("q")], "values")}
    for q, mk in inputs.items():
        yield f"time_series_freq [{q}]", lambda S: S.call(F + "time_series_freq", mk(S))
        yield f"to_numpy [{q}]", lambda S: S.call(X + "util.to_numpy", mk(S))
        yield f"_to_numpy [{q}]", lambda S: S.call(X + "sim._base._to_numpy", mk(S))
    yield "time_series_freq_to_duration", lambda S: S.call(F + "time_series_freq_to_duration", sym("freq", "str"))
    for deco, good in (("validate_series_or_1Darray", "series"), ("validate_frame_or_2Darray", "frame")):
        for names in U05.NAMES:
            for vn in U05.VALUES:
                yield f"{deco}{names!r} [{vn}]", lambda S: U05.impl(S, deco, names, vn, "all", good)
    yield "_make_cor_from_upper_tri", lambda S: S.call(X + "sim._base._make_cor_from_upper_tri", S.arr("u", "ndarray", (const(3),)))
    for root in (NONE, sym("rel", "str")):
        yield f"get_project_root [{root.kind}]", lambda S: S.call(X + "util.get_project_root", root)
    for f in ("load_vix", "load_treasury_rates", "load_equity_indices"):
        yield f, lambda S: S.call(X + "datasets." + f)


GROUPS = {"features": features, "distances": distances, "clustering": clusters, "covariance": covariances, "simulation": simulations, "splitters": splitters, "utilities": utilities}


def drives():
    """(area, construct, call) for every analysed call; the calls close over loop variables, so run each before taking the next"""
    for area, g in GROUPS.items():
        for name, f in g():
            yield area, name, f
