"""Start values, step size and labels resolve as documented."""
from sa.ir import const
from .common import *
from .sims import *
from .S04 import compare_parts

EXPLAIN = """path_sample is interpreted for every model, unfitted and fitted to each kind of data, with the start value absent, 'first', 'last', a number, a list,
an array or a frame, with the step size given or absent at the fit and at the call, and with neither, either or both of label_start and label_freq given. The result must equal the reference simulator run
from the documented start value and step size and, for dated data, labelled from the documented date. Requests for fitted end points of an
unfitted model, unknown options, inputs that are no numbers and non-positive steps must raise on every path."""
ASSUMPTIONS = ["numpy cholesky, pandas date_range and infer_freq are operators shared with the definition", "real arithmetic (rounding ignored)"]

GIVEN = ("number", "integer", "row array", "vector", "frame", "list")


def starts(S, how, m):
    """the x0 argument and the row it means"""
    if how == "number":
        return real("x0s", POSF)
    if how == "integer":
        return sym("x0i", "int", rng=(1, INF))
    if how == "list":
        return S.lst([real("x0a", POSF)] if m is const(1) else [real("x0a", POSF), real("x0b", POSF)])
    if how == "vector":
        return S.arr("x0v", "ndarray", (m,), rng=POSF, elem="float")
    return S.arr("x0f" if how == "frame" else "x0", "frame" if how == "frame" else "ndarray", (const(1), m), rng=POSF, elem="float")


def check(ctx):
    for cls in MODELS:
        for kind in (None,) + FIT_KINDS:
            for m, mn in ((M, "m variates"), (const(2), "2 variates"), (const(1), "1 variate")):
                if m is not const(1) and kind in ("1-d array", "series", "dated series"):
                    continue
                for how in (("default",) if kind is None else ("default", "first", "last")) + GIVEN:
                    if (how == "list") == (m is M) or (m is const(2) and how != "list"):
                        if how == "list" or m is const(2):
                            continue
                    for fdt, cdt in ((True, True), (True, False), (False, False)):
                        if kind is None and fdt or (how in GIVEN and not (fdt and cdt) and kind is not None):
                            continue
                        if not fdt and kind is not None and kind.startswith("dated"):
                            continue
                        name = f"{cls}.path_sample [{'not fitted' if kind is None else 'fitted to ' + kind}, {mn}, start {how}, step {'given at the call' if cdt else 'given at the fit' if fdt else 'not given'}]"
                        ctx.run("resolution", name, one, ctx, cls, kind, m, how, fdt, cdt, name)
                    if how in ("default", "first", "last", "row array"):
                        for ln in ("label_start", "label_freq", "label_start and label_freq"):
                            name = f"{cls}.path_sample [{'not fitted' if kind is None else 'fitted to ' + kind}, {mn}, start {how}, {ln} given]"
                            ctx.run("resolution", name, one, ctx, cls, kind, m, how, kind is not None, False, name, ln.split(" and "))
        rejected(ctx, cls)


def one(ctx, cls, kind, m, how, fdt, cdt, name, labels=()):
    T, p = dim("T", 3), dim("p", 2)
    D2 = real("dt_call", (1e-12, INF))

    def impl(S):
        mod, x = fitted_model(S, cls, kind, m, T, DT if fdt else NONE)
        kw = {} if how == "default" else {"x0": how if how in ("first", "last") else starts(S, how, m)}
        if cdt:
            kw["dt"] = D2
        kw.update({w: sym(w, "str") for w in labels})
        return S.meth(mod, "path_sample", num_steps=NS, num_paths=p, random_state=SEED, **kw)

    def ref(S):
        mod, x = fitted_model(S, cls, kind, m, T, DT if fdt else NONE)
        if how in GIVEN:
            x0 = S.call("spec_sim.row", starts(S, how, m))
        elif kind is None:
            x0 = S.call("spec_sim.row", 100.0 if cls == "GeometricBrownianMotion" else 0.0)
        else:
            x0 = S.I.getitem(S.call("spec_sim.matrix", x), const(-1 if how == "last" else 0))
        dt = D2 if cdt else (DT if fdt else S.call("spec_sim.default_dt"))
        return S.call("spec_sim.labelled", reference_values(S, cls, mod, x0, dt, p), x, m, p, *(sym(w, "str") if w in labels else NONE for w in ("label_start", "label_freq")), NONE, how if how == "last" else NONE, True)

    compare_parts(ctx, name, impl, ref)


def rejected(ctx, cls):
    for kind in (None,) + FIT_KINDS:
        m = const(1) if kind in ("1-d array", "series", "dated series") else M
        where = f"{cls}.path_sample [{'not fitted' if kind is None else 'fitted to ' + kind}"

        def call(S, x0=None, **kw):
            mod, _ = fitted_model(S, cls, kind, m, dim("T", 3))
            args = dict(dt=DT, num_steps=NS, num_paths=dim("p", 1), random_state=SEED)
            args.update(kw)
            return S.meth(mod, "path_sample", starts(S, "row array", m) if x0 is None else x0, **args)

        def bad(why, exc, **kw):
            ctx.run("rejection", f"{where}, {why}]", must_raise, ctx, "invalid request is rejected", f"{where}, {why}]", lambda S: rolled(S, lambda: call(S, **kw)), exc)
        if kind is None:
            bad("start 'first'", ("ValueError",), x0="first")
            bad("start 'last'", ("ValueError",), x0="last")
        bad("unknown start option", ("ValueError",), x0="middle")
        bad("start option in upper case", ("ValueError",), x0="FIRST")
        bad("zero step", ("AssertionError", "ValueError"), dt=0.0)
        bad("negative step", ("AssertionError", "ValueError"), dt=real("negative", (-INF, -1e-300)))
