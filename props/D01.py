"""Correlation distances equal their documented transforms."""
from sa.ir import const
from .common import *

EXPLAIN = """The three transforms, the scalar, matrix and pairwise forms and the method dispatch are interpreted for every correlation value or
matrix and compared in normal form with spec/distance.py, including the clipping to [-1,1] and [0,1], the zeroed diagonal and the exact
condition under which a matrix is rejected."""
ASSUMPTIONS = ["real arithmetic", "numpy operator semantics as modelled"]
M = {"angular": ("corr_to_angular_dist", "pair_angular_distance"), "abs_angular": ("corr_to_abs_angular_dist", "pair_abs_angular_distance"),
     "squared_angular": ("corr_to_squared_angular_dist", "pair_squared_angular_distance")}
D = "quantfinlib.distance."


def check(ctx):
    n, T = dim("n"), dim("T")
    for m, (f, p) in M.items():
        ctx.run("transform", f, equal, ctx, "transform of a scalar", f,
                lambda S: S.call(D + f, real("c")), lambda S: S.call("spec_distance.scalar_dist", real("c"), const(m)))
        ctx.run("transform", f, equal, ctx, "transform of a matrix", f,
                lambda S: S.call(D + f, S.arr("C", "ndarray", (n, n))), lambda S: S.call("spec_distance.matrix_dist_checked", S.arr("C", "ndarray", (n, n)), const(m)))
        ctx.run("rejection", f, must_raise, ctx, "a matrix that is not square is rejected", f, lambda S: S.call(D + f, S.arr("Crect", "ndarray", (const(3), const(4)))), ("AssertionError", "ValueError"))
        ctx.run("rejection", f, must_raise, ctx, "an array that is not a matrix is rejected", f, lambda S: S.call(D + f, S.arr("Cvec", "ndarray", (n,))), ("AssertionError", "ValueError"))
        ctx.run("pair", p, equal, ctx, "pairwise form", p,
                lambda S: S.call(D + p, S.arr("x", "ndarray", (T,)), S.arr("y", "ndarray", (T,))),
                lambda S: S.call("spec_distance.pair_dist", S.arr("x", "ndarray", (T,)), S.arr("y", "ndarray", (T,)), const(m)))
        ctx.run("matrix method", f, equal, ctx, "method dispatch", "corr_to_dist[" + m + "]",
                lambda S: S.call(D + "distance_matrix.corr_to_dist", S.arr("C", "ndarray", (n, n)), const(m)), lambda S: S.call("spec_distance.matrix_dist_checked", S.arr("C", "ndarray", (n, n)), const(m)))
