"""Information criteria use the right likelihood and parameter count."""
from sa.ir import const
from .common import *
from .sims import *
from .S07 import build, HIST

EXPLAIN = """aic and bic of each model are interpreted after construct/fit histories, on symbolic data (arrays, series, frames), and compared in normal
form with 2k + 2 nll and log(n) k + 2 nll, where nll is the model's own likelihood of the same data and k counts the entries of the
model's parameter attributes plus one per correlation pair (spec/sim.py)."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)"]


def check(ctx):
    for cls in MODELS:
        for case in cases():
            if case.x0 == "scalar" and not case.scalar or case.paths.op == "const":
                continue
            name = f"{cls} [{case.name}]"
            mk = lambda S: (model(S, cls, case), case.m)
            ctx.run("criteria", name, one, ctx, cls, name, mk)
        for h, steps in HIST.items():
            name = f"{cls} [{h}]"
            ctx.run("criteria", name, one, ctx, cls, name, lambda S: build(S, cls, steps))


def one(ctx, cls, name, mk):
    T = dim("T", 3)

    def go(S, crit, kind, given, ref):
        mod, m = mk(S)
        x = data(S, T, m, kind)
        dt = [DT] if given else []
        S.I.events.clear()
        if not ref:
            return S.meth(mod, crit, x, *dt)
        ps = [S.I.getattr(mod, q) for q in MODELS[cls]]
        return S.call("spec_sim." + crit, S.meth(mod, "nll", x, *dt), S.call("spec_sim.free_parameters", S.I.getattr(mod, "cor"), *ps), T)
    for crit in ("aic", "bic"):
        for kind in ("ndarray", "frame"):
            for given in (True, False):
                if not given and kind == "frame":
                    continue
                equal(ctx, crit + " definition", f"{name} {kind}{'' if given else ', default dt'}", lambda S: rolled(S, lambda: go(S, crit, kind, given, False)),
                      lambda S: rolled(S, lambda: go(S, crit, kind, given, True)), raises=False)
