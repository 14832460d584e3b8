"""Likelihood uses the same transition law as simulation."""
from sa.ir import const
from .common import *
from .sims import *

EXPLAIN = """nll of each model is interpreted for symbolic parameters, correlation (given or none), step size and data of any length and number of
variates (arrays, series and frames), and compared in normal form with spec/sim.py: minus the summed log densities of the increments
under the mean, standard deviation and correlation of the simulation law that S01 uses."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)", "scipy norm / multivariate_normal log densities are operators shared with the definition"]


def check(ctx):
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    T = dim("T", 3)
    for cls in MODELS:
        for case in cases():
            if case.paths.op != "const" and not (case.scalar or case.flat) or case.x0 == "scalar" and not case.scalar:
                continue
            for kind in ("ndarray", "frame", "series", "1-d array"):
                if kind in ("series", "1-d array") and case.m.op == "sym" or kind in ("series", "1-d array") and case.m.args[0] != 1:
                    continue
                x = lambda S: data(S, T, case.m, kind)
                run("likelihood of the transition law", f"{cls}.nll [{case.name}, {kind}]",
                    lambda S: S.meth(model(S, cls, case), "nll", x(S), DT),
                    lambda S: S.call(f"spec_sim.{SHORT[cls]}_nll", **params(S, cls, case, full=True), x=S.call("spec_sim.matrix", x(S)), dt=DT))

        for kind in ("ndarray", "frame"):
            for m in (M, const(1)):
                for given in (True, False):
                    def after_fit(S, ref):
                        mod = S.call("quantfinlib.sim." + cls)
                        S.meth(mod, "fit", S.arr("y", kind, (dim("R", 4), m), rng=POSF, elem="float"), real("dt_fit", (1e-12, INF)))
                        fresh = params(S, cls, Case("", m, m is M, None, None), full=True)
                        for q, v in fresh.items():
                            S.I.setattr(mod, q, v)
                        x, dt = data(S, T, m, kind if given else "ndarray"), DT if given else S.call("spec_sim.default_dt")
                        if not ref:
                            return S.meth(mod, "nll", x, *([DT] if given else []))
                        return S.call(f"spec_sim.{SHORT[cls]}_nll", **fresh, x=S.call("spec_sim.matrix", x), dt=dt)
                    run("likelihood of the fitted law", f"{cls}.nll after fit [{kind}, {'m variates' if m is M else '1 variate'}, dt {'given' if given else 'default'}]",
                        lambda S: rolled(S, lambda: after_fit(S, False)), lambda S: rolled(S, lambda: after_fit(S, True)), raises=False)
