"""Covariance and correlation conversions are exact inverses of each other."""
from sa.ir import const
from sa.shape import iadd
from .common import *

EXPLAIN = """Every conversion helper is interpreted for matrices of any size and compared in normal form with spec/cov.py: regularised standard
deviations and clipping, re-scaling, eigen-decomposition with every sort and truncation option (values and vectors must come from the same
positions), completion of a truncated basis, recomposition with unit diagonal. Block-diagonal matrices are built from lists of up to four
symbolic block sizes and correlations. That the composition correlation -> covariance -> correlation is the identity is proved as well."""
ASSUMPTIONS = ["real arithmetic", "numpy.linalg.eigh returns ascending eigenvalues with matching columns"]
I_ = "quantfinlib.math.cov."
Z = "spec_cov."


def check(ctx):
    k = dim("k", 1)
    n = iadd(k, dim("more", 1))
    C = lambda S: S.arr("C", "ndarray", (n, n))
    sd = lambda S: S.arr("sd", "ndarray", (n,), rng=POSF)
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    run("covariance to correlation", "_cov_to_cor [default regularisation]", lambda S: S.call(I_ + "_cov_to_cor", C(S)), lambda S: S.call(Z + "cov_to_cor", C(S)))
    run("covariance to correlation", "_cov_to_cor", lambda S: S.call(I_ + "_cov_to_cor", C(S), real("reg", POSF)), lambda S: S.call(Z + "cov_to_cor", C(S), real("reg", POSF)))
    run("correlation to covariance", "_cor_to_cov", lambda S: S.call(I_ + "_cor_to_cov", C(S), sd(S)), lambda S: S.call(Z + "cor_to_cov", C(S), sd(S)))
    w, V = (lambda S: S.arr("w", "ndarray", (n,))), (lambda S: S.arr("V", "ndarray", (n, n)))
    run("recomposition", "_eig_to_cor", lambda S: S.call(I_ + "_eig_to_cor", w(S), V(S)), lambda S: S.call(Z + "eig_to_cor", w(S), V(S)))
    run("decomposition", "_cor_to_eig [default]", lambda S: S.call(I_ + "_cor_to_eig", C(S)), lambda S: S.call(Z + "cor_to_eig", C(S)))
    run("decomposition", "_cor_to_eig [unsorted]", lambda S: S.call(I_ + "_cor_to_eig", C(S), sort=const(False)), lambda S: S.call(Z + "cor_to_eig", C(S), const(False)))
    run("truncated decomposition", "_cor_to_eig [k]", lambda S: S.call(I_ + "_cor_to_eig", C(S), k=k), lambda S: S.call(Z + "cor_to_eig_top", C(S), k))
    run("truncated decomposition", "_cor_to_eig [k, sort=False]", lambda S: S.call(I_ + "_cor_to_eig", C(S), const(False), k), lambda S: S.call(Z + "cor_to_eig_top", C(S), k))
    wk, Vk = (lambda S: S.arr("wk", "ndarray", (k,))), (lambda S: S.arr("Vk", "ndarray", (n, k)))
    run("basis completion", "_eig_complete", lambda S: S.call(I_ + "_eig_complete", wk(S), Vk(S)), lambda S: S.call(Z + "eig_complete", wk(S), Vk(S)))
    run("basis completion", "_eig_complete [complete]", lambda S: S.call(I_ + "_eig_complete", w(S), V(S)), lambda S: S.call(Z + "eig_complete", w(S), V(S)))
    for m in range(0, 4 if ctx.tier == "quick" else 6):
        sizes = lambda S: S.lst([dim(f"size{i}", 1) for i in range(m)])
        cors = lambda S: S.lst([real(f"cor{i}", (-1, 1)) for i in range(m)])
        run("block-diagonal correlation", f"_cor_block_diagonal [{m} blocks]", lambda S: S.call(I_ + "_cor_block_diagonal", sizes(S), cors(S)), lambda S: S.call(Z + "block_diagonal", sizes(S), cors(S)))
        cors2 = lambda S: S.lst([real(f"cor{i}", (-1, 1)) for i in range(m + 1)])
        ctx.run("rejection", "_cor_block_diagonal", must_raise, ctx, "different numbers of sizes and correlations are rejected", f"_cor_block_diagonal [{m} sizes]",
                lambda S: S.call(I_ + "_cor_block_diagonal", sizes(S), cors2(S)), ("ValueError",))
