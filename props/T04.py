"""Walk-forward splits advance, terminate and are counted."""
from .splits import *
from .T03 import variants, walk, depth_of

EXPLAIN = """The same interpretation as T03: the condition under which each split is yielded, the condition of being the last, strict progress of the window bounds
between splits, non-emptiness of both sets, and the counter attributes stored around each yield and read by get_n_splits (before, during and after a
split, and after repeated splits) are compared with the documented ones."""


def check(ctx):
    variants(ctx, one)
    for kind in GROUPS[:2]:
        for rolling in (False, True):
            name = f"WalkForward.get_n_splits [{'rolling' if rolling else 'expanding'}, groups: {kind}]"
            ctx.run("interpretation", name, counted, ctx, name, kind, rolling)
    ctx.run("interpretation", "WalkForward.get_n_splits before splitting", fresh, ctx)


def one(ctx, name, kind, rolling):
    depth = depth_of(ctx)
    run, unit = walk(ctx, kind, rolling, depth)
    run.split(run.o)
    so, got, ref = run.sorted(), run.yields(), walk_ref(run, rolling, depth, unit)
    o = run.order()
    if len(got) != len(ref):
        ctx.undecided("one pair per step", name, f"{len(got)} yields in {depth} steps")
        return
    for j, ((when, train, test, loc), (going, rtrain, rtest, done)) in enumerate(zip(got, ref)):
        c = f"{name} split {j}"
        decide(ctx, "goes on until the data ends", c, run, o.same(when, going), "the split is produced exactly while data remains after the training window", loc)
        lo, hi = so.bounds(test)
        if j + 1 < len(got):
            later = got[j + 1]
            decide(ctx, "test sets move forward", c, run, o.implies(conj(later[0], later[2]), neg(so.lt_i(hi))), "the next test set lies entirely after this one", later[3])
        first = instance(so, test, lo)
        decide(ctx, "test set is not empty", c, run, o.implies(conj(when, going), first), "the test window contains its first group", loc)
    guard(ctx, name, run, so, o)


def instance(so, b, p):
    """condition b at position p"""
    if b[0] == "not":
        return neg(instance(so, b[1], p))
    if b[0] == "and":
        return conj(*[instance(so, x, p) for x in b[1]])
    if b[0] == "i<":
        q = b[1]
        # p < q: p and q are numbers of groups below / up to some value
        if q == p:
            return F
        a, c = p - q, None
        for u, v in ((p, q),):
            t = v.t[0][0] if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 else None
            if t is not None and t[0] == "ssr":       # p < ssr(v)  <=>  group of p is at most v
                return so.less(so.at(u), t[1], False)
            if t is not None and t[0] == "ssl":
                return so.less(so.at(u), t[1], True)
        return so.less(p, q, True)
    return b


def guard(ctx, name, run, so, o):
    """under a positive embargo an emptied training set is an error, never a split"""
    empties = []
    for e in run.events:
        if e.type == "raise" and e.pc:
            c, p = e.pc[-1]
            s = emptiness(c, p)
            if s is not None:
                try:
                    empties.append((run.when(e.pc[:-1]), so.member(s)))
                except Unknown:
                    pass
    for j, (when, train, test, loc) in enumerate(run.yields()):
        if run.kind == "none" or not run.kind.startswith("date"):
            pos = neg(so.ineq(atom("sym", "emb"), False))
        else:
            pos = neg(so.ineq(so.delta(atom("sym", "emb"), repr(UNIT)), False))
        st = [o.same(conj(w, pos, s), conj(w, pos, train)) for w, s in empties[j:j + 1]]
        if not st:
            ctx.undecided("training set is not empty", f"{name} split {j}", "no raise guarded by an empty training set was found")
        else:
            decide(ctx, "training set is not empty", f"{name} split {j}", run, st[0], "the set whose emptiness raises is the training set", loc)


def emptiness(c, p):
    """the index set whose emptiness the literal (c is p) states"""
    while c.op == "not":
        c, p = c.args[0], not p
    if c.op == "isempty" and p:
        return c.args[0]
    if c.op in ("eq", "ne", "lt", "le", "gt", "ge") and c.kind == "bool":
        a, b = c.args
        op = c.op
        if a.op == "const":
            a, b, op = b, a, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op)
        if not p:
            op = interp.NEG[op]
        s = a.args[0] if a.op in ("len", "sizeof", "isempty") else a.args[0] if a.op == "dim" else None
        if isinstance(s, ir.Node) and b.op == "const" and (op == "eq" and b.args[0] == 0 or op == "lt" and b.args[0] == 1 or op == "le" and b.args[0] == 0):
            return s
    return None


def counted(ctx, name, kind, rolling):
    """the reported number is the number of splits of the last complete call"""
    for again in (False, True):
        depth = depth_of(ctx)
        run, unit = walk(ctx, kind, rolling, depth)
        S = run.S
        if again:
            # an earlier complete call on the same splitter
            S.I.unroll_while = 2
            S.meth(run.o, "split", data(S), NONE, groups_arg(S, kind))
            S.I.unroll_while = depth
        run.split(run.o)
        so, ref, o = run.sorted(), walk_ref(run, rolling, depth, unit), run.order()
        label = name + (" after a second call" if again else "")
        mark = len(S.events)
        v = S.I.freeze(S.meth(run.o, "get_n_splits"))
        cases = so.val(v)
        warns = [e for e in S.events[mark:] if e.type == "warn"]
        for j, (going, rtrain, rtest, done) in enumerate(ref):
            ended = conj(going, done)
            bad = [conj(c, ended) for c, L in cases if L != Lin((), j + 1)]
            decide(ctx, "reported number of splits", f"{label} [{j + 1} splits]", run, o.implies(disj(*bad) if bad else F, F), f"{j + 1} is reported after {j + 1} splits")
            w = disj(*[run.when(e.pc) for e in warns]) if warns else F
            decide(ctx, "no warning after a complete call", f"{label} [{j + 1} splits]", run, o.implies(conj(ended, w), F), "no warning after a complete call")
        # in the middle of a call nothing is final
        for e, _ in run.raw[:1]:
            S.I.st = State(dict(e.data["heap"]), e.pc)
            mark = len(S.events)
            v = S.I.freeze(S.meth(run.o, "get_n_splits"))
            if v.op == "const":
                ctx.decide(v.args[0] == 0, "zero before the call completes", label, ir.show(v, 3), e.loc)
            else:
                bad = [conj(run.when(e.pc), c) for c, L in so.val(v) if L != Lin()]
                decide(ctx, "zero before the call completes", label, run, o.implies(disj(*bad) if bad else F, F), "zero is reported", e.loc)
            ctx.decide(True if any(x.type == "warn" for x in S.events[mark:]) else False, "warning before the call completes", label, "", e.loc)


def fresh(ctx):
    S = ctx.session()
    for st in ("expanding", "rolling"):
        o = S.call(WALK, lens("emb"), const(0), lens("trw"), lens("tew"), const(st))
        mark = len(S.events)
        v = S.I.freeze(S.meth(o, "get_n_splits"))
        ctx.decide(True if ir.is_const(v, 0) else (False if v.op in ("const", "sym") else None), "zero before any split", f"WalkForward.get_n_splits [{st}]", ir.show(v, 3))
        ctx.decide(any(e.type == "warn" for e in S.events[mark:]), "warning before any split", f"WalkForward.get_n_splits [{st}]")
