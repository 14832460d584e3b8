"""Bounded indicators stay within their documented range."""
from sa import feat, ir, sign
from sa.entry import sym
from sa.interp import Arr
from .common import compare_terms, REFUTED, POSF, INF

EXPLAIN = """Every bounded feature is interpreted abstractly on admissible inputs in parametrised form (high = low*exp(L), open and close =
low*exp(share*L) with L >= 0 and shares in 0..1, buy volume a share of the volume), so every admissible input is covered. The value term (or
bound minus value, upper minus middle line, ...) is shown non-negative by the sign analysis of sa/sign.py: structural rules, then polynomial
non-negativity over the ranges of the atoms. If that fails and the term also differs from the documented definition (whose bound is proved),
the bound has been lost and the feature is reported; if only the proof fails the obligation is undecided."""
ASSUMPTIONS = ["positive finite prices, volumes and scale inputs; low <= open, close <= high; 0 <= buy volume <= volume", "bounds hold where the value is defined (not NaN)", "real arithmetic"]

NONNEG = ["rolling_std", "ewm_std", "average_true_range", "rsi", "ewm_rsi", "get_close_close_volatility", "get_high_low_volatility",
          "get_garman_klass_volatility", "get_rogers_satchell_volatility", "get_yang_zhang_volatility", "get_becker_parkinson_volatility",
          "get_cowrin_schultz_spread", "get_edge_spread", "get_roll_measure", "get_roll_impact", "get_kyle_lambda", "get_amihud_lambda",
          "get_hasbrouck_lambda", "get_vpin", "estimate_buy_volume"]
UPPER = {"rsi": 100, "ewm_rsi": 100, "get_vpin": 1, "estimate_buy_volume": "volume"}


def admissible(S, names, kind="series"):
    T = feat.dims(S)

    def s(n, rng):
        return S.I.alloc(Arr(kind, content=sym("adm_" + n, kind, (T,), rng, elem="float"), owner=n))
    low, L = s("low", POSF), s("L", (0, INF))
    inside = lambda n: S.call("spec_features.ohlc_inside", low, L, s(n, (0, 1)))
    mk = {"low": lambda: low, "high": lambda: S.call("spec_features.ohlc_high", low, L), "open": lambda: inside("a"), "close": lambda: inside("b"),
          "volume": lambda: s("volume", POSF), "buy_volume": lambda: S.call("spec_features.part_of", s("volume", POSF), s("share", (0, 1))),
          "sigma_p": lambda: s("sigma", POSF), "ts": lambda: s("ts", POSF), "rolling_mean": lambda: s("rm", POSF), "rolling_std": lambda: s("rs", (0, INF))}
    if not set(names) & {"low", "high", "p_low", "p_high"}:
        mk["close"] = lambda: s("close", POSF)
    return {n: mk[n.removeprefix("p_")]() for n in names}


def check(ctx):
    for name, (mod, ser, sc, dflt) in feat.ALL.items():
        if name not in NONNEG:
            continue
        sc = {k: v for k, v in sc.items() if k != "sign"}
        call = lambda S, f: S.call(f, **admissible(S, ser), **feat.scalar_args(sc))
        f = lambda S: call(S, mod + name)
        g = lambda S: call(S, "spec_features." + name)
        ctx.run("non-negative", name, bound, ctx, "non-negative", name, f, g, lambda S, v: v)
        if name in UPPER:
            u = UPPER[name]
            top = (lambda S: ir.const(u)) if u != "volume" else (lambda S: admissible(S, ["volume"])["volume"])
            ctx.run("upper bound", name, bound, ctx, f"at most {u}", name, f, g, lambda S, v: S.call("spec_tools.minus", top(S), v))
    for cls, (mod, spec, ser, sc, has_def) in feat.BANDS.items():
        obj = lambda S: S.call(mod + cls, **admissible(S, ser), **feat.scalar_args(sc))
        ref = lambda S: S.call("spec_features." + spec, **admissible(S, ser), **feat.scalar_args(sc))
        get = lambda S, o, m: S.meth(o, m) if hasattr(o, "loc") else S.call("spec_features." + m, o)
        pairs = {"upper >= middle": ("upper", "middle"), "middle >= lower": ("middle", "lower")}
        for what, (a, b) in pairs.items():
            ctx.run("band order", cls, bound, ctx, what, cls, lambda S: diff(S, lambda m: S.meth(obj(S), m), a, b),
                    lambda S: diff(S, lambda m: S.call("spec_features." + m, ref(S)), a, b), lambda S, v: v)
        ctx.run("band width", cls, bound, ctx, "non-negative width", cls, lambda S: S.meth(obj(S), "bandwidth"), lambda S: S.call("spec_features.bandwidth", ref(S)), lambda S, v: v)


def diff(S, line, a, b):
    return S.call("spec_tools.minus", line(a), line(b))


def bound(ctx, rule, construct, f, g, post):
    S = ctx.session()
    v = S.I.freeze(post(S, f(S)))
    ctx.count("bounds_checked")
    if sign.proves_nonneg(v):
        ctx.proved(rule, construct, "the sign analysis proves the bound on the value term")
        return
    S = ctx.session()
    w = S.I.freeze(post(S, g(S)))
    if v is not w and sign.proves_nonneg(w):
        rs = compare_terms(v, w)
        bad = [d for st, d, _ in rs if st == REFUTED]
        if bad:
            ctx.refute(rule, construct, "the bound does not follow from the value term, which departs from the documented (bounded) definition: " + bad[0])
            return
        if all(r[0] == "PROVED" for r in rs):
            ctx.proved(rule, construct, "equal to the documented definition, whose bound is proved")
            return
    ctx.undecided(rule, construct, f"sign not derived: {ir.show(v, 3)}")
