"""K-fold test folds tile the samples and their count is reported."""
from .splits import *
from .T01 import variants, kfold

EXPLAIN = """As T01, but the train and test conditions of each split must be equivalent to those of the reference splitter (props/splits.py: fold
sizes of array_split, groups kept whole in the earlier fold, everything else trains), splits must be one per fold in order, and get_n_splits must be
the number of yields."""


def check(ctx):
    variants(ctx, one)
    for ahead in (False, True):
        ctx.run("interpretation", "TimeAwareKFold.get_n_splits", count, ctx, ahead)


def one(ctx, name, kind, k, ahead):
    run, unit = kfold(ctx, k, ahead, kind)
    got, ref = run.yields(), kfold_ref(run, k, ahead, unit)
    o = run.order()
    if kind.endswith("series"):
        by_position(ctx, name, run)
    ctx.decide(len(got) == len(ref) if all(w == T for w, *_ in got) else None, "one split per fold", name, f"{len(got)} splits under no further condition, {len(ref)} expected", got[0][3] if got else None)
    if len(got) != len(ref):
        return
    for j, ((when, train, test, loc), (rtrain, rtest, *_, some)) in enumerate(zip(got, ref)):
        c = f"{name} split {j}"
        if when != T:
            ctx.undecided("every fold is yielded", c, show(when))
        decide(ctx, "test fold", c, run, o.same(conj(some, test), conj(some, rtest)), "the test set is the run of whole groups of its fold", loc)
        decide(ctx, "training set", c, run, o.same(conj(some, train), conj(some, rtrain)), "the training set is everything else outside the purge and embargo zones", loc)


def count(ctx, ahead):
    """get_n_splits is the fold count, or one less in look-forward mode"""
    k = sym("k", "int", rng=(2, INF))

    def f(S):
        return S.meth(S.call(KFOLD, k, lens("emb"), lens("pur"), const(ahead)), "get_n_splits")
    equal(ctx, "reported count", f"TimeAwareKFold.get_n_splits [look_forward={ahead}]", f, lambda S: ir.N("add", k, const(-1), kind="int") if ahead else k, raises=False)
    def with_data(S):
        return S.meth(S.call(KFOLD, k, lens("emb"), lens("pur"), const(ahead)), "get_n_splits", data(S), NONE, groups_arg(S, "int"))
    equal(ctx, "reported count", f"TimeAwareKFold.get_n_splits(X, y, groups) [look_forward={ahead}]", with_data, lambda S: ir.N("add", k, const(-1), kind="int") if ahead else k, raises=False)
