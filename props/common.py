"""Helpers shared by the property modules."""
from sa import ir, feat, interp
from sa.ir import N, const, NONE
from sa.entry import sym
from sa.interval import Ivl
from sa.check import compare_terms, PROVED, REFUTED, UNDECIDED

INF = float("inf")
POSF = (1e-300, INF)
NONNEG = (0, INF)


def compare_values(ctx, rule, construct, got, want, extra_known=()):
    for st, detail, _ in compare_terms(got, want, extra_known=extra_known):
        if st == UNDECIDED and detail.startswith("degenerate"):
            ctx.count("degenerate_branches_skipped")
            continue
        ctx.add(st, rule, construct, detail)


def compare_call(ctx, rule, impl, spec, ser, sc, kind):
    S = ctx.session()
    got = S.I.freeze(S.call(impl, **feat.series_args(S, ser, kind), **feat.scalar_args(sc)))
    S = ctx.session()
    args = feat.series_args(S, ser, kind)
    if kind == "ndarray":
        args = {k: S.call("spec_tools.as_series", v) for k, v in args.items()}
    want = S.I.freeze(S.call(spec, **args, **feat.scalar_args(sc)))
    compare_values(ctx, rule, f"{impl.rsplit('.', 1)[1]} [{kind}]", got, want)


class Out:
    """the outcome of one abstract call"""

    def __init__(self, S, v, sel=None):
        self.dead = S.I.st is None
        self.events = list(S.I.events)
        self.value = None
        self.raw = v
        if not self.dead:
            self.value = S.I.freeze(v if sel is None else sel(S, v))

    def raises(self):
        return [e for e in self.events if e.type == "raise"]


def outcome(ctx, f, sel=None):
    S = ctx.session()
    return Out(S, f(S), sel)


def infeasible(c, p):
    """the literal (c is p) is excluded by the value ranges of its sides"""
    while c.op == "not":
        c, p = c.args[0], not p
    if c.op not in ("lt", "le", "gt", "ge", "eq", "ne") or any(a.kind in ir.ARRAYISH or not isinstance(a, ir.Node) for a in c.args):
        return False
    op = c.op if p else interp.NEG[c.op]
    iv = Ivl()
    (la, ha), (lb, hb) = iv.get(c.args[0]), iv.get(c.args[1])
    return {"lt": la >= hb, "le": la > hb, "gt": ha <= lb, "ge": ha < lb, "eq": la > hb or ha < lb, "ne": False}[op]


def raise_term(out, exc=None):
    """condition under which the call raises, as one boolean term"""
    alts = []
    for e in out.raises():
        if exc is not None and e.data["exc"] not in exc:
            continue
        if any(infeasible(c, p) for c, p in e.pc):
            continue
        lits = exists(e.pc)
        alts.append(interp.conj(lits) if lits else const(True))
    if not alts:
        return const(False)
    return alts[0] if len(alts) == 1 else N("or", *alts, kind="bool")


def exists(pc):
    """the literals of a path; those of one iteration of a loop over a sequence become `some element satisfies them`"""
    plain, inner, loops = [], [], []
    for c, p in pc:
        if c.op == "loopcond":
            loops.append(c)
            continue
        (inner if any(x.op == "ix" for x in ir.reachable(c)) else plain).append(c if p else interp.mknot(c))
    ixs = {x for c in inner for x in ir.reachable(c) if x.op == "ix"}
    if len(loops) != 1 or len(ixs) != 1 or any(x.op == "mu" for c in inner for x in ir.reachable(c)):
        return [c if p else interp.mknot(c) for c, p in pc]
    ix = ixs.pop()
    if len(ix.args) < 2 or not isinstance(ix.args[1], ir.Node):
        return [c if p else interp.mknot(c) for c, p in pc]
    bv = N("bv", 0, kind="int")
    body = ir.subst(interp.mknot(interp.conj(inner)), {ix: bv})
    every = N("red", "all", N("maplist", body, ix.args[1], (), bv, kind="list"), NONE, NONE, const(False), kind="bool")
    return plain + [interp.mknot(every)]


def event_term(out, types):
    """condition under which an event of these types happens, loop indices made anonymous"""
    alts = []
    for e in out.events:
        if e.type not in types or any(infeasible(c, p) for c, p in e.pc):
            continue
        lits = []
        for c, p in e.pc:
            if c.op == "loopcond":
                continue
            ixs = [x for x in ir.reachable(c) if x.op == "ix"]
            c2 = ir.subst(c, {x: N("bv", 0, kind="int") for x in ixs}) if len({x.id for x in ixs}) == 1 else c
            lits.append(c2 if p else interp.mknot(c2))
        alts.append(interp.conj(lits) if lits else const(True))
    if not alts:
        return const(False)
    return alts[0] if len(alts) == 1 else N("or", *alts, kind="bool")


def compare_events(ctx, rule, construct, a, b, types):
    ta, tb = event_term(a, types), event_term(b, types)
    if ta is tb:
        ctx.proved(rule, construct, "under the same condition as the reference")
        return
    for st, detail, _ in compare_terms(ta, tb):
        if not (st == UNDECIDED and detail.startswith("degenerate")):
            ctx.add(st, rule, construct, detail)


def equal(ctx, rule, construct, f, g, sel=None, gsel=None, raises=True, skip_value=False, extra_known=()):
    """obligations: f(S) and g(S) return the same value (and raise under the same condition)"""
    a = outcome(ctx, f, sel)
    b = outcome(ctx, g, gsel)
    ctx.count("calls_compared")
    if a.dead and b.dead:
        ctx.proved(rule, construct, "both always raise")
        return a, b
    if a.dead != b.dead:
        ra = a.raises()
        if a.dead and ra and not any(e.data.get("implicit") for e in ra):
            ctx.refute(rule, construct, f"always raises {ra[-1].data['exc']} on admissible input", ra[-1].loc)
        elif b.dead:
            ctx.refute(rule, construct, "returns a value where the documented behaviour is to raise")
        else:
            ctx.undecided(rule, construct, "no result could be computed")
        return a, b
    if not skip_value:
        compare_values(ctx, rule, construct, a.value, b.value, extra_known)
    if raises:
        compare_raises(ctx, rule, construct, a, b)
    return a, b


def compare_raises(ctx, rule, construct, a, b, exc=None):
    ta, tb = raise_term(a, exc), raise_term(b, exc)
    if ta is tb:
        if a.raises():
            ctx.proved(rule + " (rejected inputs)", construct, "the same raise condition as the reference")
        return
    for st, detail, _ in compare_terms(ta, tb):
        if st == UNDECIDED and detail.startswith("degenerate"):
            continue
        ctx.add(st, rule + " (rejected inputs)", construct, detail, a.raises()[-1].loc if st == REFUTED and a.raises() else None)


def must_raise(ctx, rule, construct, f, exc=None):
    """every path of the call ends in a raise (of one of the exception types in exc)"""
    a = outcome(ctx, f)
    ctx.count("rejections_checked")
    rs = a.raises()
    if not a.dead:
        und = any(e.type in ("unknown-ext", "unsupported", "call-opaque") for e in a.events)
        if und:
            ctx.undecided(rule, construct, "a path returns, but through calls without a model")
        else:
            ctx.refute(rule, construct, f"accepted: returns {ir.show(a.value, 4)[:200]}" + (f"; raises only when {ir.show(raise_term(a), 6)[:300]}" if rs else ""))
        return a
    if not rs:
        ctx.undecided(rule, construct, "no result and no modelled raise")
        return a
    bad = [e for e in rs if exc is not None and e.data["exc"] not in exc]
    if bad:
        ctx.refute(rule, construct, f"raises {bad[-1].data['exc']} instead of {'/'.join(exc)}", bad[-1].loc)
    else:
        ctx.proved(rule, construct, f"every path raises {sorted({str(e.data['exc']) for e in rs})}")
    return a


def dim(name, lo=2):
    return sym(name, "int", rng=(lo, INF))


def real(name, rng=(-INF, INF)):
    return sym(name, "float", rng=rng)


def rolled(S, f):
    """interpret f with counted loops kept symbolic instead of unrolled"""
    old = S.I.MAX_UNROLL
    S.I.MAX_UNROLL = 4
    try:
        return f()
    finally:
        S.I.MAX_UNROLL = old
