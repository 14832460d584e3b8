"""Quasi-random signal paths use only past values at the stated volatility."""
from sa.ir import const
from .common import *
from .sims import *

EXPLAIN = """QuasiRandom.path_sample is interpreted for an arbitrary indicator function (uninterpreted), any signal fraction (number or one per variate), each base
model and any number of variates, paths and steps, and compared in normal form with the reference in spec/sim.py: base path of the same
seed plus the cumulated indicator of the earlier path values (shifted one row, none in the first row), scaled per column."""
ASSUMPTIONS = ["the indicator passed in is itself causal and deterministic", "real arithmetic (rounding ignored)"]

IND = sym("indicator", "func")


def check(ctx):
    P = dim("p", 2)
    for cls in list(MODELS) + [None]:
        for m, mn in ((M, "m variates"), (const(1), "1 variate")):
            if cls is None and m is M:
                continue
            for p, pn in ((P, "p paths"), (const(1), "1 path")):
                for share in ("default", "number", "per column"):
                    for how in ("row", "number"):
                        name = f"QuasiRandom.path_sample [base {cls or 'default'}, {mn}, {pn}, fraction {share}, start {how}]"
                        ctx.run("signal", name, one, ctx, cls, m, p, share, how, name)


def one(ctx, cls, m, p, share, how, name):
    case = Case("", m, m is M, p, "row" if how == "row" else "scalar")

    def make(S):
        kw = {}
        if share == "number":
            kw["f_signal_vol"] = real("share", POSF)
        if share == "per column":
            kw["f_signal_vol"] = S.arr("shares", "ndarray", (sa_mul(m, p),), rng=POSF, elem="float")
        base = None
        if cls is not None:
            base = kw["base_model"] = model(S, cls, case)
        q = S.call("quantfinlib.sim.QuasiRandom", IND, **kw)
        return q, base, kw.get("f_signal_vol", const(0.1))

    def impl(S):
        q, base, _ = make(S)
        return S.meth(q, "path_sample", start(S, case), DT, NS, p, random_state=SEED)

    def ref(S):
        q, base, sh = make(S)
        if base is None:
            base = S.call("quantfinlib.sim.BrownianMotion")
        return S.call("spec_sim.quasi_random", reference_values(S, cls or "BrownianMotion", base, S.call("spec_sim.row", start(S, case)), DT, p), IND, sh, S.I.getattr(base, "vol"), p, DT)

    equal(ctx, "base path plus scaled signal of past values", name, lambda S: rolled(S, lambda: impl(S)), lambda S: rolled(S, lambda: ref(S)))


def sa_mul(a, b):
    from sa.shape import imul
    return imul(a, b)
