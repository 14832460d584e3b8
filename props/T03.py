"""Walk-forward training always precedes testing by the embargo."""
from .splits import *

EXPLAIN = """split() of the walk-forward splitter is interpreted for symbolic sorted groups of every kind, symbolic train, test and embargo lengths and both window
types, with its while loop unrolled for the stated number of splits. The train and test conditions of each split on an arbitrary sample i are compared with the
documented windows (props/splits.py), and training must precede testing by the embargo; each is decided over the cells of the comparison arrangement
as in T01, a violation is reported only with a small array realising it."""


def walk(ctx, kind, rolling, depth):
    S = ctx.session()
    run = Run(S, kind, depth)
    unit = UNIT if kind.startswith("date") else None
    o = S.call(WALK, lens("emb"), const(0), lens("trw"), lens("tew"), const("rolling" if rolling else "expanding"), const(unit) if unit else NONE)
    run.o = o
    return run, unit


def depth_of(ctx):
    return 4 if ctx.tier == "quick" else 6


def variants(ctx, fn):
    for kind in GROUPS:
        for rolling in (False, True):
            name = f"WalkForward.split [{'rolling' if rolling else 'expanding'}, groups: {kind}]"
            ctx.run("interpretation", name, fn, ctx, name, kind, rolling)


def check(ctx):
    variants(ctx, one)


def one(ctx, name, kind, rolling):
    depth = depth_of(ctx)
    run, unit = walk(ctx, kind, rolling, depth)
    run.split(run.o)
    if kind.endswith("series"):
        by_position(ctx, name, run)
    got, ref = run.yields(), walk_ref(run, rolling, depth, unit)
    o = run.order()
    if len(got) != len(ref):
        ctx.undecided("one pair per step", name, f"{len(got)} yields in {depth} steps")
        return
    for j, ((when, train, test, loc), (going, rtrain, rtest, done)) in enumerate(zip(got, ref)):
        c = f"{name} split {j}"
        pre = conj(when, going)
        decide(ctx, "test window", c, run, o.same(conj(pre, test), conj(pre, rtest)), "the test set is the groups within the test window after the training data", loc)
        decide(ctx, "training window", c, run, o.same(conj(pre, train), conj(pre, rtrain)), "the training set is the documented window up to the test set, without the embargo zone", loc)
