"""The correlation and its factor are always consistent."""
from sa.ir import const
from .common import *
from .sims import *

EXPLAIN = """Construct/fit histories (constructed with or without a correlation; then fitted to one or several series; refitted with more, fewer or
as many series) are interpreted abstractly. At the end of each history the simulated path must equal the reference simulator applied to
the model's own parameter attributes, whose noise factor is the Cholesky factor of the model's correlation attribute (no factor when it is
None), and the correlation must be None exactly for one fitted series."""
ASSUMPTIONS = ["numpy cholesky is an operator shared with the definition", "real arithmetic (rounding ignored)"]

HIST = {
    "constructed with correlation": ("C",), "constructed without": (),
    "correlation, then fit 1": ("C", 1), "correlation, then fit m": ("C", "m"),
    "fit m": ("m",), "fit 1": (1,), "fit m, fit 1": ("m", 1), "fit 1, fit m": (1, "m"), "fit m, fit m": ("m", "m"), "fit 2, fit 3": (2, 3), "fit 3, fit 2": (3, 2),
    "correlation, fit 1, fit m": ("C", 1, "m"), "fit m, fit 1, fit m": ("m", 1, "m"),
    "fit m, sample, fit 1": ("m", "s", 1), "correlation, sample, fit m": ("C", "s", "m"),
}


def build(S, cls, steps):
    mod = None
    last = M if steps and steps[0] == "C" else const(1)
    if steps and steps[0] == "C":
        mod, steps = model(S, cls, Case("", M, True, None, None)), steps[1:]
    else:
        mod = S.call("quantfinlib.sim." + cls)
    for i, s in enumerate(steps):
        if s == "s":
            S.meth(mod, "path_sample", num_steps=const(1))
            continue
        last = M if s == "m" else const(s)
        S.meth(mod, "fit", S.arr(f"x{i}", "ndarray", (dim(f"T{i}", 4), last), rng=POSF, elem="float"), real(f"dt{i}", (1e-12, INF)))
    return mod, last


def check(ctx):
    for cls in MODELS:
        for name, steps in HIST.items():
            ctx.run("history", f"{cls} [{name}]", one, ctx, cls, f"{cls} [{name}]", steps)


def one(ctx, cls, name, steps):
    def go(S, ref):
        mod, m = build(S, cls, steps)
        x0 = S.arr("x0", "ndarray", (const(1), m), rng=POSF, elem="float")
        S.I.events.clear()
        if not ref:
            return S.meth(mod, "path_sample", x0, DT, NS, dim("p", 1), random_state=SEED)
        return S.call(f"spec_sim.{SHORT[cls]}_path", **{q: S.I.getattr(mod, q) for q in MODELS[cls] + ("cor",)}, x0=x0, dt=DT, n=NS, p=dim("p", 1), seed=SEED)
    equal(ctx, "simulation uses the factor of the model's correlation", name, lambda S: rolled(S, lambda: go(S, False)), lambda S: rolled(S, lambda: go(S, True)), raises=False, extra_known=("f:numpy.linalg.cholesky", "assignall"))
    S = ctx.session()
    mod, m = rolled(S, lambda: build(S, cls, steps))
    c = S.I.freeze(S.I.getattr(mod, "cor"))
    one_series = m.op == "const" and m.args[0] == 1
    if one_series or c.op != "phi":
        ctx.decide((c.kind == "none") == one_series, "correlation present exactly for several series", name, f"correlation is {ir.show(c, 3)[:100]}")
