"""Seeded randomness is reproducible and isolated."""
from sa import ir
from sa.ir import const
from sa.shape import lin
from .common import *
from .sims import *

EXPLAIN = """Every path sampler (all models, fitted and not, quasi-random with each base model) and the gap statistic are interpreted and all random events are
collected: no event may read or seed a global generator; with a symbolic seed every generator created and every draw made must have a seed
term that is an invertible affine function of the caller's seed (plus a loop counter); with nine constants from 0 to 2**32-1 as seeds no
generator may be unseeded and different constants must lead to different generator seeds; a second identical call on the same object must
give the identical result term (stream positions included), so no generator survives a call."""
ASSUMPTIONS = ["numpy generators are functions of their seed and stream position"]

SEEDS = (0, 1, 2, 7, 100, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)


def samplers():
    for cls in MODELS:
        for cor in (True, False):
            yield f"{cls}.path_sample [constructed, {'correlated' if cor else 'independent'}]", (lambda S, cls=cls, cor=cor: (model(S, cls, Case("", M, cor, None, "row")), M))
        for kind in ("ndarray", "dated frame"):
            yield f"{cls}.path_sample [fitted to {kind}]", (lambda S, cls=cls, kind=kind: (fitted_model(S, cls, kind, M, dim("T", 3))[0], M))
        yield f"QuasiRandom.path_sample [base {cls}]", (lambda S, cls=cls: (S.call("quantfinlib.sim.QuasiRandom", sym("indicator", "func"), base_model=model(S, cls, Case("", M, True, None, "row"))), M))
    yield "QuasiRandom.path_sample [default base]", (lambda S: (S.call("quantfinlib.sim.QuasiRandom", sym("indicator", "func")), const(1)))


def check(ctx):
    for name, make in samplers():
        def calls(S, make=make):
            mod, m = make(S)
            x0 = S.arr("x0", "ndarray", (const(1), m), rng=POSF, elem="float")
            return lambda seed: S.meth(mod, "path_sample", x0, DT, NS, dim("p", 1), random_state=seed)
        ctx.run("randomness", name, one, ctx, name, calls)
    for dk in ("ndarray", "frame"):
        def calls(S, dk=dk):
            n = dim("n")
            D, L = S.arr("D", dk, (n, n), rng=NONNEG), S.arr("L", "ndarray", (n,), elem="int")
            return lambda seed: S.call("quantfinlib.clustering.metrics.gap_statistic", D, L, nb=dim("nb", 1), random_state=seed)
        ctx.run("randomness", f"gap_statistic [{dk}]", one, ctx, f"gap_statistic [{dk}]", calls)


def random_events(S):
    return [e for e in S.I.events if e.type in ("rng-create", "rng-draw")]


def run(ctx, calls, *seeds):
    """the result terms and random events of successive calls in one session"""
    S = ctx.session()
    call = rolled(S, lambda: calls(S))
    S.I.events.clear()
    out = []
    for s in seeds:
        S.I.events.clear()
        S.I.st.pc = ()
        v = rolled(S, lambda: call(s))
        if S.I.st is None:
            return None
        out.append((S.I.freeze(v), random_events(S), list(S.I.events)))
    return out


def one(ctx, name, calls):
    r = run(ctx, calls, SEED, SEED)
    if r is None:
        ctx.undecided("randomness", name, "no result could be computed")
        return
    for k, (v, ev, allev) in enumerate(r):
        for e in allev:
            if e.type in ("global-rng", "global-seed"):
                ctx.refute("no global random state", name, f"{e.data.get('api')} uses the global generator", e.loc)
        ctx.count("random_events", len(ev))
        if not any(e.type == "rng-draw" for e in ev):
            ctx.undecided("noise is drawn", name, "no modelled draw")
        for e in ev:
            affine(ctx, name, e)
    if not any(e.type in ("global-rng", "global-seed") for x in r for e in x[2]):
        ctx.proved("no global random state", name, "no random event touches a global generator")
    if r[0][0] is r[1][0]:
        ctx.proved("a repeated call gives the same result", name, "identical result terms")
    else:
        compare_values(ctx, "a repeated call gives the same result", name, r[1][0], r[0][0])
    seen = {}
    for s in SEEDS:
        c = run(ctx, calls, const(s))
        if c is None:
            ctx.undecided("seed constants", name, f"no result for seed {s}")
            continue
        draws = [e for e in c[0][1]]
        bad = [e for e in draws if e.data["seed"].kind == "none"]
        if bad:
            ctx.refute("every seed value seeds", name, f"seed {s} leaves a generator unseeded", bad[0].loc)
            continue
        key = tuple(e.data["seed"].id for e in draws)
        if key in seen:
            ctx.refute("different seeds give different noise", name, f"seeds {seen[key]} and {s} create the same generators", draws[0].loc if draws else None)
        elif draws:
            ctx.proved("different seeds give different noise", name, f"seed {s} reaches the generators")
        seen.setdefault(key, s)


def affine(ctx, name, e):
    s = e.data["seed"]
    rule = "generators are seeded from the caller's seed"
    leaves = {x for x in ir.reachable(s) if x.op in ("sym", "nondet", "globalrng")}
    if any(x.op == "nondet" for x in leaves):
        ctx.refute(rule, name, f"the generator seed depends on the environment: {ir.show(s, 4)[:120]}", e.loc)
        return
    if SEED not in leaves:
        known = all(x.op in ("const", "ix", "bv", "add", "mul", "sub", "sym") for x in ir.reachable(s))
        (ctx.refute if known else ctx.undecided)(rule, name, f"the generator seed is {ir.show(s, 4)[:120]}", e.loc)
        return
    if s.op == "phi":
        for t in (s.args[1], s.args[2]):
            if t.kind == "none" or SEED not in ir.reachable(t) and t.op == "const":
                ctx.refute(rule, name, f"the generator seed is {ir.show(s, 4)[:120]}: some seeds are ignored", e.loc)
                return
    d, c = lin(s)
    if d.get(SEED) and not any(SEED in ir.reachable(k) for k in d if k is not SEED):
        ctx.proved(rule, name, f"{e.type}: seed {ir.show(s, 3)}")
    else:
        ctx.undecided(rule, name, f"the generator seed is {ir.show(s, 4)[:120]}", e.loc)
