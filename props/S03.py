"""Fitting inverts the model's transition moments."""
from sa.ir import const
from sa.shape import shape
from .common import *
from .sims import *

EXPLAIN = """fit of each model is interpreted for symbolic data of any length and number of series (arrays, series, frames) and any step size; each fitted
parameter attribute is compared in normal form with the moment estimator of the transition law in spec/sim.py (per-series loops are
aligned), its shape must be one row, and the inputs on which fitting raises or warns must be the documented ones. Refits of an already
fitted model are included."""
ASSUMPTIONS = ["real arithmetic (rounding ignored)", "numpy lstsq and corrcoef are operators shared with the definition"]


def check(ctx):
    T, m = dim("T", 3), M
    for cls in MODELS:
        attrs = MODELS[cls] + ("cor",)
        for kind in ("ndarray", "frame", "series", "1-d array"):
            for m in ((M, const(1), const(2)) if kind in ("ndarray", "frame") else (const(1),)):
                for hist in ("first fit", "refit", "refit with fewer series"):
                    if hist != "first fit" and (kind in ("series", "1-d array") or m.op == "const" and m.args[0] == 2):
                        continue
                    name = f"{cls}.fit [{kind}, {'m' if m is M else m.args[0]} series, {hist}]"
                    ctx.run("fit", name, one, ctx, cls, attrs, kind, m, T, hist, name)


def fitted(S, cls, kind, m, T, hist):
    mod = S.call("quantfinlib.sim." + cls)
    if hist != "first fit":
        S.meth(mod, "fit", S.arr("earlier", "ndarray", (dim("R", 4), m if hist == "refit" else const(3)), rng=POSF, elem="float"), real("dt_earlier", (1e-12, INF)))
        S.I.events.clear()
        S.I.st.pc = ()
    S.meth(mod, "fit", data(S, T, m, kind), DT)
    return mod


def one(ctx, cls, attrs, kind, m, T, hist, name):
    for i, q in enumerate(attrs):
        a, b = equal(ctx, f"fitted {q}", name, lambda S: rolled(S, lambda: fitted(S, cls, kind, m, T, hist)),
                     lambda S: rolled(S, lambda: S.call(f"spec_sim.{SHORT[cls]}_fit", S.call("spec_sim.matrix", data(S, T, m, kind)), DT)),
                     lambda S, v: S.I.getattr(v, q), lambda S, v: S.I.subscript(v, i) if hasattr(S.I, "subscript") else v.items[i], raises=(i == 0))
        if i == 0:
            compare_events(ctx, "warned about", name, a, b, ("warn",))
        if not a.dead and q != "cor" and a.value.kind in ("ndarray",):
            s = shape(a.value)
            if s is not None and b.value is not None and shape(b.value) is not None:
                ok = len(s) == 2 and s[0] is shape(b.value)[0] and s[1] is shape(b.value)[1]
                ctx.decide(ok or (None if any(d.op == "dim" for d in s) else False), "shape of the fitted parameter", f"{name} {q}", f"shape {[str(d) for d in s]}")
