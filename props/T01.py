"""K-fold training sets never leak around the test set."""
from .splits import *

FOLDS = (2, 3, 4, 5, 6)

EXPLAIN = """split() of the K-fold splitter is interpreted for a symbolic number of samples and symbolic sorted groups (absent, integers or timestamps, as array,
index or Series, with ties and gaps), symbolic purge and embargo lengths and each number of folds. Each yielded pair becomes two conditions on one
arbitrary sample i, over comparisons of i and of its group with the groups at the fold bounds (searchsorted positions). The obligations - disjoint
sets, no training sample in the purge zone after or the embargo zone before the test groups, none after the test start in look-forward mode - are
decided by splitting into the cells of the arrangement of these comparisons and showing every violating cell impossible for sorted groups
(monotonicity rules of sa/order.py). A violating cell is reported only with a small array of groups that realises it."""


def kfold(ctx, k, ahead, kind):
    S = ctx.session()
    run = Run(S, kind)
    o = S.call(KFOLD, const(k), lens("emb"), lens("pur"), const(ahead), const(UNIT) if kind.startswith("date") else NONE)
    return run.split(o), UNIT if kind.startswith("date") else None


def variants(ctx, fn):
    for kind in GROUPS:
        for k in FOLDS if ctx.tier == "quick" else FOLDS + (8, 10):
            for ahead in (False, True):
                name = f"TimeAwareKFold.split [{k} folds, {'look-forward' if ahead else 'all'}, groups: {kind}]"
                ctx.run("interpretation", name, fn, ctx, name, kind, k, ahead)


def check(ctx):
    variants(ctx, one)


def one(ctx, name, kind, k, ahead):
    run, unit = kfold(ctx, k, ahead, kind)
    got, ref = run.yields(), kfold_ref(run, k, ahead, unit)
    o = run.order()
    if len(got) != len(ref):
        ctx.undecided("one split per fold", name, f"{len(got)} splits, {len(ref)} folds")
        return
    for j, ((when, train, test, loc), (rtrain, rtest, after, before, later, some)) in enumerate(zip(got, ref)):
        c = f"{name} split {j}"
        decide(ctx, "train and test are disjoint", c, run, o.implies(conj(some, when, train), neg(test)), "no training sample is a test sample", loc)
        decide(ctx, "purge", c, run, o.implies(conj(some, when, train), neg(after)), "no training sample within the purge length after the last test group", loc)
        decide(ctx, "embargo", c, run, o.implies(conj(some, when, train), neg(before)), "no training sample within the embargo length before the first test group", loc)
        if ahead:
            decide(ctx, "look-forward", c, run, o.implies(conj(some, when, train), neg(later)), "no training sample after the test set starts", loc)
