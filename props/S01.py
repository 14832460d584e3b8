"""Simulated paths follow the model's exact transition law."""
from sa.ir import const
from .common import *
from .sims import *

EXPLAIN = """path_sample of each model is interpreted abstractly for symbolic parameters, correlation (given or none), start values, step size, seed and any
number of variates, steps and paths. The result term - including the stream position and layout of every random draw - is compared in normal
form with the reference simulator in spec/sim.py, which applies the exact transition law of the process row by row."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)", "numpy Generator.normal draws are an uninterpreted stream indexed by seed, position and size"]


def check(ctx):
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    for cls, ps in MODELS.items():
        for case in cases():
            a = lambda S: path(S, cls, case)
            b = lambda S: S.call(f"spec_sim.{SHORT[cls]}_path", **params(S, cls, case, full=True), x0=start(S, case), dt=DT, n=NS, p=case.paths, seed=SEED)
            run("exact transition law", f"{cls}.path_sample [{case.name}]", lambda S: rolled(S, lambda: a(S)), lambda S: rolled(S, lambda: b(S)))
