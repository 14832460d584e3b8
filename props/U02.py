"""Frequency labels map to the documented year fractions."""
from sa.ir import const
from .common import *
from .sims import MODELS, POSF

EXPLAIN = """time_series_freq_to_duration is evaluated abstractly for each documented label, for near-misses and for an arbitrary text (compared as a decision tree
with the documented table in spec/util.py), and the step size recorded by fit of every model without dt is compared with the table applied
to the inferred frequency of the data's index - including the rejection of frequencies without a fraction and the 1/252 default for data
without dates."""
ASSUMPTIONS = ["pandas infer_freq is an operator shared with the definition"]

F = "quantfinlib._datatypes.timeseries.time_series_freq_to_duration"
LABELS = ("D", "B", "W", "M", "ME", "MS", "Q", "QE", "QS", "Y", "YE", "YS", "d", "H", "h", "A", "", "BME", "W-SUN", "2D", "min", "S")


def check(ctx):
    run = lambda rule, f, a, b, **kw: ctx.run(rule, f, equal, ctx, rule, f, a, b, **kw)
    for l in LABELS:
        run("year fraction", f"time_series_freq_to_duration({l!r})", lambda S: S.call(F, l), lambda S: S.call("spec_util.duration", l))
    run("year fraction", "time_series_freq_to_duration [any text]", lambda S: S.call(F, sym("freq", "str")), lambda S: S.call("spec_util.duration", sym("freq", "str")))
    run("year fraction", "time_series_freq_to_duration(None)", lambda S: S.call(F, NONE), lambda S: S.call("spec_util.duration", NONE))
    for cls in MODELS:
        for kind in ("series", "frame", "ndarray"):
            for dated in ((True, False) if kind != "ndarray" else (False,)):
                name = f"{cls}.fit [{'dated ' if dated else ''}{kind}, no step size]"

                def data(S):
                    T = dim("T", 3)
                    return S.arr("x", kind, (T,) if kind == "series" else (T, const(1)), rng=POSF, elem="dtidx" if dated else "float")

                def impl(S):
                    mod = S.call("quantfinlib.sim." + cls)
                    S.meth(mod, "fit", data(S))
                    return mod
                run("fitted step size", name, lambda S: rolled(S, lambda: impl(S)), lambda S: S.call("spec_util.fit_step", data(S)), sel=lambda S, v: S.I.getattr(v, "fit_dt_"), raises=False)
                for q in MODELS[cls]:
                    def two(S, explicit):
                        mod = S.call("quantfinlib.sim." + cls)
                        S.meth(mod, "fit", data(S), *([S.call("spec_util.fit_step", data(S))] if explicit else []))
                        return S.I.getattr(mod, q)
                    run("fit uses the fraction", f"{name} {q}", lambda S: rolled(S, lambda: two(S, False)), lambda S: rolled(S, lambda: two(S, True)), raises=False)
                if dated:
                    ctx.run("unusable frequency is rejected", name, rejects, ctx, name, impl, data)


def rejects(ctx, name, impl, data):
    a = outcome(ctx, lambda S: rolled(S, lambda: impl(S)))
    b = outcome(ctx, lambda S: S.call("spec_util.fit_step", data(S)))
    compare_raises(ctx, "unusable frequency is rejected", name, a, b, exc=("ValueError",))
