"""Invalid splitter settings and inputs are rejected."""
from .splits import *
from .T04 import emptiness

BOTH = (ValueError, TypeError)
ERR = ("ValueError", "TypeError")
m = dim("m", 1)

EXPLAIN = """Constructors and split() are interpreted with each argument drawn from an invalid class (wrong type, out of range, unknown option, unsorted groups, wrong
data type, lengths that leave no training data; symbolic within the class). Every path has to end in a raise of the documented kind before any yield, and the
exact condition of the raise is compared where the invalid class is a condition on symbolic values."""


class Raises:
    """raise events as an outcome"""

    def __init__(self, events):
        self.events = events

    def raises(self):
        return [e for e in self.events if e.type == "raise"]


def make(S, which, emb=None, pur=None, folds=None, trw=None, tew=None, unit=NONE, kind=None):
    emb = lens("emb") if emb is None else emb
    pur = lens("pur") if pur is None else pur
    if which == "kfold":
        return S.call(KFOLD, const(3) if folds is None else folds, emb, pur, const(False), unit)
    return S.call(WALK, emb, pur, lens("trw") if trw is None else trw, lens("tew") if tew is None else tew, const(kind or "expanding"), unit)


NAMES = {"kfold": "TimeAwareKFold", "walk": "WalkForward"}


def check(ctx):
    for which in ("kfold", "walk"):
        ctx.run("interpretation", NAMES[which], lengths, ctx, which)
        ctx.run("interpretation", NAMES[which] + ".split", inputs, ctx, which)
        for kind in GROUPS:
            ctx.run("interpretation", f"{NAMES[which]}.split [groups: {kind}]", settings, ctx, which, kind)
    ctx.run("interpretation", "TimeAwareKFold", folds, ctx)
    ctx.run("interpretation", "WalkForward", windows, ctx)
    for kind in GROUPS:
        for ahead in (False, True):
            ctx.run("interpretation", f"TimeAwareKFold.split [groups: {kind}]", emptied, ctx, kind, ahead)


def lengths(ctx, which):
    """purge and embargo lengths: non-negative integers or time deltas"""
    for role in ("emb", "pur"):
        label = "n_embargo" if role == "emb" else "n_purge"
        for what, v in (("a float", real(role)), ("a string", sym(role, "str")), ("None", NONE)):
            must_raise(ctx, "wrongly typed lengths are rejected", f"{NAMES[which]}({label} is {what})", lambda S: make(S, which, **{role: v}), ("TypeError",))
        must_raise(ctx, "negative lengths are rejected", f"{NAMES[which]}({label} < 0)", lambda S: make(S, which, **{role: sym(role, "int", rng=(-INF, -1))}), ("ValueError",))
        must_raise(ctx, "negative lengths are rejected", f"{NAMES[which]}({label} is a negative Timedelta)", lambda S: make(S, which, **{role: S.call("spec_splits.days", const(-1))}), ("ValueError",))
    e, p, k = sym("emb", "int"), sym("pur", "int"), sym("k", "int")
    if which == "kfold":
        equal(ctx, "settings", "TimeAwareKFold(n_folds, n_embargo, n_purge)", lambda S: make(S, which, e, p, k) and NONE, lambda S: S.call("spec_splits.kfold_init", k, e, p), skip_value=True)
    else:
        equal(ctx, "settings", "WalkForward(n_embargo, n_purge)", lambda S: make(S, which, e, p) and NONE, lambda S: S.call("spec_splits.walk_init", e, p), skip_value=True)


def folds(ctx):
    for what, v in (("a float", real("k")), ("a string", sym("k", "str")), ("None", NONE)):
        must_raise(ctx, "fold counts are integers of at least two", f"TimeAwareKFold(n_folds is {what})", lambda S: make(S, "kfold", folds=v), ERR)
    must_raise(ctx, "fold counts are integers of at least two", "TimeAwareKFold(n_folds < 2)", lambda S: make(S, "kfold", folds=sym("k", "int", rng=(-INF, 1))), ("ValueError",))


def windows(ctx):
    st = sym("split_type", "str")
    equal(ctx, "window type", "WalkForward(split_type)", lambda S: S.call(WALK, lens("emb"), const(0), lens("trw"), lens("tew"), st) and NONE, lambda S: S.call("spec_splits.window_type", st), skip_value=True)
    for what in ("sliding", "", "Rolling"):
        must_raise(ctx, "unknown window types are rejected", f"WalkForward(split_type={what!r})", lambda S: make(S, "walk", kind=what) if what else S.call(WALK, lens("emb"), const(0), lens("trw"), lens("tew"), const("")), ("ValueError",))
    for kind in GROUPS:
        unit = const(UNIT) if kind.startswith("date") else NONE
        for role in ("trw", "tew"):
            rejected(ctx, "windows are at least one step long", f"WalkForward.split [{'train' if role == 'trw' else 'test'}_window < 1, groups: {kind}]", lambda S: S.meth(make(S, "walk", unit=unit, **{role: sym(role, "int", rng=(-INF, 0))}), "split", data(S), NONE, groups_arg(S, kind)))


def rejected(ctx, rule, construct, f, exc=("ValueError",)):
    """every path raises, and none yields first"""
    S = ctx.session()
    S.I.unroll_while = 1
    try:
        a = must_raise(ctx, rule, construct, lambda S: (setattr(S.I, "unroll_while", 1), f(S))[1], exc)
    finally:
        S.I.unroll_while = 0
    ys = [e for e in a.events if e.type == "yield"]
    if ys:
        ctx.refute("nothing is yielded before a rejection", construct, "a split is yielded first", ys[0].loc)
    else:
        ctx.proved("nothing is yielded before a rejection", construct)


def inputs(ctx, which):
    def run(X, y=None, g=None):
        def f(S):
            o = make(S, which)
            return S.meth(o, "split", X(S), y(S) if y else NONE, g(S) if g else NONE)
        return f

    def lst(S):
        return S.lst([const(1), const(2), const(3), const(4)])

    def ser(S):
        return S.arr("s", "series", (n,))

    for what, f in (("X is a list", run(lst)), ("X is None", run(lambda S: NONE)), ("X is a Series", run(ser)),
                    ("y is a list", run(data, lst)), ("y is a DataFrame", run(data, lambda S: S.arr("f", "frame", (n, dim("w", 1))))), ("y is a string", run(data, lambda S: sym("y", "str"))),
                    ("groups is a list", run(data, None, lst)), ("groups is a DataFrame", run(data, None, lambda S: S.arr("f", "frame", (n, dim("w", 1))))), ("groups is a string", run(data, None, lambda S: sym("g", "str")))):
        rejected(ctx, "wrongly typed data are rejected", f"{NAMES[which]}.split({what})", f, ("TypeError",))


def first_raises(run, S, o, X, g):
    """condition for an error before the first split, other than for an emptied training set"""
    mark = len(S.events)
    S.meth(o, "split", X, NONE, g)
    alts, loc = [], None
    names = {x for e in S.events[mark:] for c, _ in e.pc for x in ir.reachable(c) if is_groups(x) or run == "none" and x.op == "arange" and ir.is_const(x.args[0], 0) and x.args[1] is m}
    so = Sorted(names, m, strict=run == "none", ints=not run.startswith("date"))
    for e in S.events[mark:]:
        if e.type == "yield":
            break
        if e.type == "raise" and not (e.pc and emptiness(*e.pc[-1]) is not None) and not e.data.get("implicit"):
            alts.append(conj(*[so.cond(c) if p else neg(so.cond(c)) for c, p in e.pc]))
            loc = e.loc
    return so, disj(*alts) if alts else F, loc


def settings(ctx, which, kind):
    """the rejections before the first split, by sort order, sizes and windows"""
    unit = const(UNIT) if kind.startswith("date") else NONE

    def grp(S):
        if kind == "none":
            return NONE
        k2 = {"int": "ndarray", "int series": "series", "dates": "dtindex", "date series": "series"}[kind]
        return S.arr("g", k2, (m,), elem="timestamp" if kind == "date series" else "int" if kind != "dates" else None)
    E, P, W, V = (atom("sym", x) for x in ("emb", "pur", "trw", "tew"))
    for k in (2, 3) if which == "kfold" else (0,):
        S = ctx.session()
        S.I.unroll_while = 1
        X = S.arr("X", "ndarray", (m, dim("w", 1)))
        o = make(S, which, folds=const(k), unit=unit) if which == "kfold" else make(S, which, trw=sym("trw", "int"), tew=sym("tew", "int"), unit=unit)
        so, got, loc = first_raises(kind, S, o, X, grp(S))
        S.I.unroll_while = 0
        unsorted = F if kind == "none" else ("not", ("b", "steps", "ge", 0))
        ints = Sorted((), m)

        def under(x, y):
            return ints.less(x, y, True)
        if which == "kfold":
            want = disj(unsorted, under(N_, Lin((), k)), under(N_ - 1, P + E), under(N_ - atom("fdiv", N_, k), P + E))
        else:
            want = disj(unsorted, under(W, Lin((), 1)), under(V, Lin((), 1)))
        low = dict(LOW) if which == "kfold" else {"emb": 0, "pur": 0}
        o = Order(ints, low, least=1)
        run = None
        decide(ctx, "settings and groups", f"{NAMES[which]}.split [{f'{k} folds, ' if k else ''}groups: {kind}]", run, o.same(got, want), "rejected before the first split exactly for unsorted groups, too many folds, too long purge and embargo, or empty windows", loc)


def emptied(ctx, kind, ahead):
    """a training set emptied by purge and embargo is an error, never a split"""
    from .T01 import kfold
    for k in (2, 3):
        name = f"TimeAwareKFold.split [{k} folds, {'look-forward' if ahead else 'all'}, groups: {kind}]"
        run, unit = kfold(ctx, k, ahead, kind)
        so, o = run.sorted(), run.order()
        part, j = [], 0
        ys = run.yields()
        for e in run.events:
            if e.type == "raise" and e.pc and emptiness(*e.pc[-1]) is not None:
                part.append(emptiness(*e.pc[-1]))
            if e.type == "yield":
                when, train, test, loc = ys[j]
                ans = [o.same(so.member(s), train) for s in part]
                if any(a[0] == "yes" for a in ans):
                    ctx.proved("an emptied training set is rejected", f"{name} split {j}", "the set whose emptiness raises is the training set", loc)
                elif ans:
                    decide(ctx, "an emptied training set is rejected", f"{name} split {j}", run, ans[-1], "the set whose emptiness raises is the training set", loc)
                else:
                    ctx.refute("an emptied training set is rejected", f"{name} split {j}", "no raise is guarded by an empty training set", loc)
                part, j = [], j + 1
