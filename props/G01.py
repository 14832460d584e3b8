"""No public function modifies its caller's data."""
from .drive import *

EXPLAIN = """Every public callable (and the helpers that take arrays) is interpreted with every admissible container kind and option combination.
Each argument is a storage cell owned by the caller; slices, views, `.values`, `asarray`, transposes, reshapes and object attributes keep the
cell they alias. Every store - subscript and attribute assignment, augmented assignment, `out=` and in-place methods, list and dict
mutators - is attributed to the cell it reaches; one that reaches a caller-owned cell on a feasible path is the violation."""
ASSUMPTIONS = ["a view is assumed where numpy or pandas may return one (asarray, ravel, reshape, .values)", "the indicator function passed to QuasiRandom and the correlation transformer are the caller's own"]


def check(ctx):
    for area, name, f in drives():
        ctx.run("effects", name, one, ctx, area, name, f)


def feasible(e):
    return not any(infeasible(c, p) for c, p in e.pc)


def one(ctx, area, name, f):
    S = ctx.session()
    S.I.unroll_while = 0
    f(S)
    ctx.count("calls_analysed")
    ctx.count("stores_seen", len([e for e in S.events if e.type in ("mutate", "attr-write")]))
    bad = [e for e in S.events if e.type == "mutate" and feasible(e)]
    seen = set()
    for e in bad:
        if (e.data["owner"], e.loc) not in seen:
            seen.add((e.data["owner"], e.loc))
            ctx.refute("caller's data is not written", name, f"argument {e.data['owner']} is modified by {e.data['how']}", e.loc)
    if bad:
        return
    hidden = [e for e in S.events if e.type.startswith("opaque")]
    if hidden:
        ctx.count("opaque_calls", len(hidden))
    ctx.proved("caller's data is not written", name)
