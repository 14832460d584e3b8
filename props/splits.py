"""Splitters as conditions on one sample: what a split yields, and the documented reference."""
from sa.order import Sorted, Order, Lin, atom, conj, disj, neg, show, T, F, I, N_, Unknown
from sa.interp import State
from .common import *

KFOLD = "quantfinlib.train_test_split.TimeAwareKFold"
WALK = "quantfinlib.train_test_split.WalkForward"
GROUPS = ("none", "int", "int series", "dates", "date series")
UNIT = "h"
n = dim("n", 4)
LOW = {"emb": 0, "pur": 0, "trw": 1, "tew": 1}


def lens(name):
    return sym(name, "int", rng=(LOW[name], INF))


def groups_arg(S, kind):
    if kind == "none":
        return NONE
    if kind == "int":
        return S.arr("g", "ndarray", (n,), elem="int")
    if kind == "int series":
        return S.arr("g", "series", (n,), elem="int")
    if kind == "dates":
        return S.arr("g", "dtindex", (n,))
    return S.arr("g", "series", (n,), elem="timestamp")


def data(S):
    return S.arr("X", "ndarray", (n, dim("w", 1)))


class Run:
    """one abstract run of split(): its yields as conditions"""

    def __init__(self, S, kind, depth=3):
        self.S, self.kind = S, kind
        self.so = None
        S.I.unroll_while = depth

    def split(self, o):
        S = self.S
        mark = len(S.events)
        self.gen = S.meth(o, "split", data(S), NONE, groups_arg(S, self.kind))
        self.end = S.I.st
        self.events = list(S.events[mark:])
        self.raw = []
        for e in self.events:
            if e.type == "yield":
                self.raw.append((e, self.frozen(e)))
        S.I.st = self.end
        return self

    def frozen(self, e):
        v = e.data["value"]
        items = getattr(v, "items", None)
        if items is None or len(items) != 2:
            raise Unknown("the yielded value is no pair")
        self.S.I.st = State(dict(e.data["heap"]), e.pc)
        return [self.S.I.freeze(x) for x in items]

    def sorted(self):
        if self.so is None:
            names = set()
            for _, pair in self.raw:
                for t in pair:
                    for x in ir.reachable(t):
                        if self.kind == "none":
                            if x.op == "arange" and ir.is_const(x.args[0], 0) and x.args[1] is n:
                                names.add(x)
                        elif is_groups(x):
                            names.add(x)
            for e in self.events:
                for c, _ in e.pc:
                    names |= {x for x in ir.reachable(c) if is_groups(x)}
            self.so = Sorted(names, n, strict=self.kind == "none", ints=not self.kind.startswith("date"))
        return self.so

    def order(self):
        return Order(self.sorted(), LOW, unit=repr(UNIT))

    def guards(self):
        """literals whose opposite leads only to a raise"""
        out = set()
        for e in self.events:
            if e.type == "raise" and e.pc:
                c, p = e.pc[-1]
                out.add((c.id, not p))
        return out

    def when(self, pc):
        """path condition without the guards against rejected input"""
        g = self.guards()
        return conj(*[self.sorted().cond(c) if p else neg(self.sorted().cond(c)) for c, p in pc if (c.id, p) not in g])

    def yields(self):
        so = self.sorted()
        return [(self.when(e.pc), so.member(tr), so.member(te), e.loc) for e, (tr, te) in self.raw]


def is_groups(x):
    while x.op in ("values", "copy", "mkindex", "dtindex", "todatetime") and isinstance(x.args[0], ir.Node):
        x = x.args[0]
    if x.op == "f" and str(x.args[0]) in ("pandas.DatetimeIndex", "pandas.to_datetime") and len(x.args) > 1 and isinstance(x.args[1], ir.Node):
        x = x.args[1]
    return x.op == "sym" and x.args[0] == "g"


# ------------------------------------------------------------------ references
class Ref:
    """the documented splits in the vocabulary of sa.order"""

    def __init__(self, run, unit=None):
        self.so, self.strict = run.sorted(), run.sorted().strict
        self.unit = repr(unit) if unit else None
        self.dates = run.kind.startswith("date")

    def length(self, name):
        x = atom("sym", name)
        return self.so.delta(x, self.unit) if self.dates else x

    def one(self):
        return self.so.delta(Lin((), 1), self.unit) if self.dates else Lin((), 1)

    def gi(self):
        return I if self.strict else atom("at", I)

    def between(self, lo, hi, lo_open=False, hi_open=False):
        """lo <(=) group of i <(=) hi"""
        g = self.gi()
        return conj(self.so.less(lo, g, lo_open), self.so.less(g, hi, hi_open))


def kfold_ref(run, k, ahead, unit):
    """[(train, test, purge zone, embargo zone, first position)] of k folds"""
    r = Ref(run, unit)
    so = r.so
    out, start, end = [], Lin(), Lin()
    for j in range(k):
        if j < k - 1:
            end = end + atom("split", k, j)
            stop = end if r.strict else so.ssr(so.at(end - 1))
        else:
            stop = N_
        test = conj(neg(so.lt_i(start)), so.lt_i(stop))
        lo, hi = so.at(start), so.at(stop - 1)
        after = r.between(hi, hi + r.length("pur"), lo_open=True)
        before = r.between(lo - r.length("emb"), lo, hi_open=True)
        later = so.less(lo, r.gi(), True) if ahead else F
        train = conj(neg(test), neg(after), neg(before), neg(later))
        out.append((train, test, after, before, later, so.less(start, stop, True)))
        start = stop
    return out[1:] if ahead else out


def walk_ref(run, rolling, depth, unit):
    """[(condition of the split, train, test, condition of being the last)]"""
    r = Ref(run, unit)
    so, u = r.so, r.one()
    W, V, E = r.length("trw"), r.length("tew"), r.length("emb")
    first, last = so.at(Lin()), so.at(N_ - 1)
    lo = first
    stop = so.ssr(first + W - u)               # one past the training window
    out, going = [], so.less(so.at(stop - 1), last, True)
    for _ in range(depth):
        train_end = so.at(stop - 1)
        t0 = so.at(stop)
        tstop = so.ssr(t0 + V - u)
        test = conj(neg(so.lt_i(so.ssl(t0))), so.lt_i(tstop))
        before = r.between(t0 - E, t0, hi_open=True)
        train = conj(r.between(lo, train_end), neg(before))
        done = so.less(last, so.at(tstop - 1), False)
        out.append((going, train, test, done))
        going = conj(going, neg(done))
        stop = tstop
        if rolling:
            lo = so.at(stop - 1) + u - W
    return out


# ------------------------------------------------------------------ obligations
def decide(ctx, rule, construct, run, answer, what, loc=None):
    st, case = answer
    ctx.count("membership_conditions_compared")
    if st == "yes":
        ctx.proved(rule, construct, what)
        return
    lits, model = case
    txt = f"{what} fails when " + " and ".join(show(b if v else neg(b)) for b, v in lits)[:900]
    if st == "no":
        ctx.refute(rule, construct, txt + f"; e.g. {model}", loc)
    else:
        ctx.undecided(rule, construct, txt, loc)


def by_position(ctx, name, run):
    """groups given as a Series are read by position, never through their labels"""
    bad = [e for e in run.events if e.type == "series-int-index" and is_groups(e.data["value"])]
    if bad:
        ctx.refute("groups are read by position", name, "an integer subscript of the group Series is a label lookup", bad[0].loc)
    else:
        ctx.proved("groups are read by position", name)
