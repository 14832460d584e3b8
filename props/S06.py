"""Simulating and scoring never change the model."""
from sa import ir
from sa.ir import const
from .common import *
from .sims import *
from .S07 import HIST, build

EXPLAIN = """For each model and each construct/fit history, path_sample (every start and label option), nll, aic and bic are interpreted on data of every kind,
and the complete abstract heap state of the model object (all attributes, nested objects and array contents) before and after the call is
compared; a class attribute, module global or caller-visible array written during the call is also a violation. Repeating a call after any
other one must give the identical result term."""
ASSUMPTIONS = ["objects held by the model are changed only through modelled operations"]

CALLS = ("path_sample", "path_sample first", "path_sample last", "path_sample labels", "nll", "aic", "bic")
SCORE_KINDS = ("ndarray", "frame", "dated frame")


def snapshot(S, v, path="", seen=()):
    """{attribute path: term} of everything reachable from a model"""
    if isinstance(v, interp.Ref) and isinstance(S.I.obj(v), interp.InstO):
        if v.loc in seen:
            return {}
        out = {path + "<class>": const(str(getattr(S.I.obj(v).cls, "name", S.I.obj(v).cls)))}
        for k, x in S.I.obj(v).attrs.items():
            out.update(snapshot(S, x, f"{path}.{k}", seen + (v.loc,)))
        return out
    return {path: S.I.freeze(v)}


def check(ctx):
    for cls in MODELS:
        for hname, steps in HIST.items():
            if "s" in steps:
                continue
            for call in CALLS:
                if call in ("path_sample first", "path_sample last") and not any(s != "C" for s in steps):
                    continue
                for kind in SCORE_KINDS if call in ("nll", "aic", "bic") else (None,):
                    for dt in (True, False):
                        name = f"{cls}.{call} [{hname}{', ' + kind if kind else ''}{'' if dt else ', no step size'}]"
                        ctx.run("model unchanged", name, one, ctx, cls, steps, call, kind, dt, name)
    for cls in MODELS:
        ctx.run("model unchanged", f"QuasiRandom.path_sample [base {cls}]", quasi, ctx, cls)


def invoke(S, mod, m, call, kind, dt):
    kw = {"dt": real("dt_call", (1e-12, INF))} if dt else {}
    if call.startswith("path_sample"):
        if call.endswith("labels"):
            kw.update(label_start=sym("label_start", "str"), label_freq=sym("label_freq", "str"), include_x0=False)
            kw["x0"] = S.arr("x0", "ndarray", (const(1), m), rng=POSF, elem="float")
        if call.split()[-1] in ("first", "last"):
            kw["x0"] = call.split()[-1]
        return S.meth(mod, "path_sample", num_steps=NS, num_paths=dim("p", 1), random_state=SEED, **kw)
    x = S.arr("scored", kind.replace("dated ", ""), (dim("Q", 3), m), rng=POSF, elem="dtidx" if kind.startswith("dated") else "float")
    return S.meth(mod, call, x, **kw)


def one(ctx, cls, steps, call, kind, dt, name):
    S = ctx.session()
    mod, m = rolled(S, lambda: build(S, cls, steps))
    unchanged(ctx, S, mod, name, lambda: invoke(S, mod, m, call, kind, dt))


def quasi(ctx, cls):
    S = ctx.session()
    mod = S.call("quantfinlib.sim.QuasiRandom", sym("indicator", "func"), base_model=model(S, cls, Case("", M, True, None, "row")))
    x0 = S.arr("x0", "ndarray", (const(1), M), rng=POSF, elem="float")
    unchanged(ctx, S, mod, f"QuasiRandom.path_sample [base {cls}]", lambda: S.meth(mod, "path_sample", x0, DT, NS, dim("p", 1), random_state=SEED))


def unchanged(ctx, S, mod, name, f):
    S.I.events.clear()
    S.I.st.pc = ()
    before = snapshot(S, mod)
    v = rolled(S, f)
    if S.I.st is None:
        ctx.undecided("model unchanged", name, "no result could be computed")
        return
    r1 = S.I.freeze(v)
    after = snapshot(S, mod)
    ctx.count("attributes_compared", len(before))
    writes = [e for e in S.I.events if e.type == "attr-write"]

    def where(k):
        last = k.rsplit(".", 1)[-1]
        return next((e.loc for e in writes if e.data.get("name") == last), None)
    bad = False
    for k in sorted(set(before) | set(after)):
        a, b = before.get(k), after.get(k)
        if a is b:
            continue
        if a is None or b is None:
            bad = True
            ctx.refute("model unchanged", name, f"attribute {k.lstrip('.')} is {'created' if a is None else 'removed'} by the call", where(k))
            continue
        sts = [(st, d) for st, d, _ in compare_terms(b, a)]
        if any(st == REFUTED for st, _ in sts):
            bad = True
            ctx.refute("model unchanged", name, f"attribute {k.lstrip('.')} changes from {ir.show(a, 3)[:100]} to {ir.show(b, 3)[:100]}", where(k))
        elif any(st == UNDECIDED and not d.startswith("degenerate") for st, d in sts):
            bad = True
            ctx.undecided("model unchanged", name, f"attribute {k.lstrip('.')} may change")
    for e in S.I.events:
        if e.type in ("class-attr-write", "global-write", "module-attr-write", "ext-attr-write"):
            bad = True
            ctx.refute("no hidden state", name, f"{e.type} during the call: {e.data}"[:160], e.loc)
    if not bad:
        ctx.proved("model unchanged", name, f"{len(before)} attributes identical before and after")
    S.I.st.pc = ()
    S.I.events.clear()
    v = rolled(S, f)
    if S.I.st is None:
        ctx.undecided("repeatable", name, "no second result could be computed")
        return
    r2 = S.I.freeze(v)
    if r1 is r2:
        ctx.proved("repeatable", name, "identical result terms")
    else:
        compare_values(ctx, "repeatable", name, r2, r1)
