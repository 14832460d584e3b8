"""Denoising replaces exactly the noise eigenvalues by their average."""
from sa.ir import const
from sa.shape import iadd
from .common import *

EXPLAIN = """The Marchenko-Pastur support, density and grid fit and the eigenvalue, correlation and covariance denoisers are interpreted for any
number of assets and observations, with a given or fitted number of signal eigenvalues, and compared in normal form with spec/cov.py (values,
completed basis, information dictionary, and the exact conditions under which inputs are rejected)."""
ASSUMPTIONS = ["real arithmetic", "numpy.linalg.eigh returns ascending eigenvalues with matching columns"]
I_ = "quantfinlib.math.cov."
Z = "spec_cov."


def check(ctx):
    k = dim("k", 1)
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    n, T = dim("n"), dim("T")
    w = lambda S: S.arr("w", "ndarray", (n,), rng=NONNEG)
    run("support", "_marcenko_pastur_support", lambda S: S.call(I_ + "_marcenko_pastur_support", real("var", POSF), T, n), lambda S: S.call(Z + "mp_support", real("var", POSF), T, n))
    run("density", "_marchenko_pastur_pdf", lambda S: S.call(I_ + "_marchenko_pastur_pdf", real("var"), T, n, w(S)), lambda S: S.call(Z + "mp_pdf_checked", real("var"), T, n, w(S)))
    run("grid fit", "_marchenko_pastur_fit", lambda S: S.call(I_ + "_marchenko_pastur_fit", T, n, w(S)), lambda S: S.call(Z + "mp_fit", T, n, w(S)))
    # the number of kept values, assets and observations are parametrised so that every order of the three is covered
    more, extra, miss = dim("more", 1), dim("extra", 0), dim("missing", 1)
    cases = []
    n1 = iadd(k, more)
    cases.append(("observations >= assets", n1, iadd(n1, extra)))
    cases.append(("fewer observations, kept <= observations", iadd(iadd(k, extra), miss), iadd(k, extra)))
    cases.append(("fewer observations than kept", iadd(iadd(dim("T", 2), miss), more), dim("T", 2)))
    for label, n, T in cases:
        kk = k if label[:5] != "fewer" or "<=" in label else iadd(dim("T", 2), miss)
        w = lambda S: S.arr("w", "ndarray", (n,), rng=NONNEG)
        C = lambda S: S.arr("C", "ndarray", (n, n))
        tag = f" [{label}]"
        run("eigenvalues, given k", "_eigen_values_denoise" + tag, lambda S: S.call(I_ + "_eigen_values_denoise", w(S), T, kk), lambda S: S.call(Z + "values_denoise_given", w(S), T, kk))
        run("correlation, given k", "_cor_denoise" + tag, lambda S: S.call(I_ + "_cor_denoise", C(S), T, kk), lambda S: S.call(Z + "cor_denoise_given", C(S), T, kk))
        run("covariance, given k", "_cov_denoise" + tag, lambda S: S.call(I_ + "_cov_denoise", C(S), T, kk), lambda S: S.call(Z + "cov_denoise_given", C(S), T, kk))
        if kk is k:
            run("eigenvalues, fitted k", "_eigen_values_denoise" + tag, lambda S: S.call(I_ + "_eigen_values_denoise", w(S), T), lambda S: S.call(Z + "values_denoise_fitted", w(S), T))
            run("correlation, fitted k", "_cor_denoise" + tag, lambda S: S.call(I_ + "_cor_denoise", C(S), T), lambda S: S.call(Z + "cor_denoise_fitted", C(S), T))
            run("covariance, fitted k", "_cov_denoise" + tag, lambda S: S.call(I_ + "_cov_denoise", C(S), T), lambda S: S.call(Z + "cov_denoise_fitted", C(S), T))
    n, T = dim("n"), dim("T")
    w = lambda S: S.arr("w", "ndarray", (n,), rng=NONNEG)
    C = lambda S: S.arr("C", "ndarray", (n, n))
    V = ("ValueError", "TypeError")
    rej = lambda f, what, *a: ctx.run("rejection", f, must_raise, ctx, "invalid input rejected", f"{f} [{what}]", lambda S: S.call(I_ + f, *[x(S) if callable(x) else x for x in a]), V)
    lst = lambda S: S.lst([const(1.0), const(0.5)])
    frame = lambda S: S.arr("F", "frame", (n, n))
    rej("_marchenko_pastur_pdf", "zero variance", const(0.0), T, n, w)
    rej("_marchenko_pastur_pdf", "negative variance", real("neg", (-INF, -1e-12)), T, n, w)
    rej("_marchenko_pastur_fit", "list", T, n, lst)
    rej("_cor_denoise", "frame", frame, T)
    rej("_cor_denoise", "list", lst, T)
    rej("_cor_denoise", "vector", w, T)
    rej("_cor_denoise", "3d", lambda S: S.arr("C3", "ndarray", (n, n, n)), T)
    rej("_cor_denoise", "rectangular", lambda S: S.arr("Cr", "ndarray", (const(3), const(4))), T)
    rej("_cov_denoise", "frame", frame, T)
    rej("_cov_denoise", "list", lst, T)
