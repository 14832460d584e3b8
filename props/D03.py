"""Matrix divergences equal their definitions."""
from sa.ir import const
from .common import *

EXPLAIN = """Both divergences are interpreted for all square matrices and compared with spec/distance.py in normal form (bilinear matrix products,
linear trace); the condition under which inputs are rejected is compared with the positive-definiteness test of both arguments."""
ASSUMPTIONS = ["real arithmetic", "matrix logarithm, inverse, eigenvalues are opaque operators shared with the definition"]


def check(ctx):
    n = dim("n", 1)
    mats = lambda S: (S.arr("P", "ndarray", (n, n)), S.arr("Q", "ndarray", (n, n)))
    for f in ("log_det_divergence", "von_neuman_divergence"):
        ctx.run("definition", f, equal, ctx, "definition", f, lambda S: S.call("quantfinlib.distance." + f, *mats(S)), lambda S: S.call("spec_distance." + f, *mats(S)))
