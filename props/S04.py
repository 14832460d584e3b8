"""Simulated output has the promised layout and labels."""
from sa.ir import const
from .common import *
from .sims import *

EXPLAIN = """path_sample of every model - constructed, or fitted to an array, 1-d array, series, frame, dated series or dated frame - is interpreted for any
number of steps, paths and variates, with and without label_start/label_freq, column names and start row. The container kind, the values
in their row/column layout, the row labels and the column labels are each compared with the reference formatter in spec/sim.py, and so are
the conditions under which formatting raises."""
ASSUMPTIONS = ["pandas date_range and infer_freq are operators shared with the definition", "real arithmetic (rounding ignored)"]

LABELS = {"no labels": {}, "start and frequency": ("start", "freq"), "start only": ("start",), "frequency only": ("freq",), "columns": ("columns",), "all labels": ("start", "freq", "columns")}


def check(ctx):
    for cls in MODELS:
        for kind in (None,) + FIT_KINDS:
            for m, mn in ((M, "m variates"), (const(1), "1 variate")):
                if m is M and kind in ("1-d array", "series", "dated series"):
                    continue
                for p, pn in ((dim("p", 2), "p paths"), (const(1), "1 path")):
                    for ln in LABELS:
                        for inc in (True, False):
                            if cls != "BrownianMotion" and (ln not in ("no labels", "all labels") or not inc):
                                continue
                            name = f"{cls}.path_sample [{'not fitted' if kind is None else 'fitted to ' + kind}, {mn}, {pn}, {ln}, {'with' if inc else 'without'} start row]"
                            ctx.run("layout", name, one, ctx, cls, kind, m, p, LABELS[ln], inc, name)


def one(ctx, cls, kind, m, p, labels, inc, name):
    T = dim("T", 3)

    def args(S):
        out = {}
        if "start" in labels:
            out["label_start"] = sym("label_start", "str")
        if "freq" in labels:
            out["label_freq"] = sym("label_freq", "str")
        if "columns" in labels:
            out["columns"] = S.I.alloc(interp.ListO(None, sym=sym("names", "list", shape=(m,)), owner="names"))
        return out

    def impl(S):
        mod, x = fitted_model(S, cls, kind, m, T)
        x0 = S.arr("x0", "ndarray", (const(1), m), rng=POSF, elem="float") if kind is None else NONE
        return S.meth(mod, "path_sample", x0, DT, NS, p, random_state=SEED, include_x0=inc, **args(S))

    def ref(S):
        mod, x = fitted_model(S, cls, kind, m, T)
        x0 = S.arr("x0", "ndarray", (const(1), m), rng=POSF, elem="float") if kind is None else S.I.getitem(S.call("spec_sim.matrix", x), const(0))
        a = args(S)
        return S.call("spec_sim.labelled", reference_values(S, cls, mod, x0, DT, p), x, m, p, a.get("label_start"), a.get("label_freq"), a.get("columns"), None, inc)

    compare_parts(ctx, name, impl, ref)


def compare_parts(ctx, name, impl, ref):
    S = ctx.session()
    v = rolled(S, lambda: impl(S))
    a = Out(S, v)
    pa = {} if a.dead else {w: S.I.freeze(part(S, v, w)) for w in PARTS}
    S = ctx.session()
    v = rolled(S, lambda: ref(S))
    b = Out(S, v)
    pb = {} if b.dead else {w: S.I.freeze(part(S, v, w)) for w in PARTS}
    ctx.count("calls_compared")
    if a.dead and b.dead:
        ctx.proved("rejected inputs", name, "both always raise")
        return
    if a.dead != b.dead:
        rs = a.raises()
        if a.dead and rs and not any(e.data.get("implicit") for e in rs):
            ctx.refute("layout", name, f"always raises {rs[-1].data['exc']} on admissible input", rs[-1].loc)
        elif b.dead:
            ctx.refute("layout", name, "returns a value where the documented behaviour is to raise")
        else:
            ctx.undecided("layout", name, "no result could be computed")
        return
    for w in PARTS:
        compare_values(ctx, w, name, pa[w], pb[w], extra_known=("f:numpy.linalg.cholesky", "assignall"))
    compare_raises(ctx, "layout", name, a, b)
