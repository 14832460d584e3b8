"""Index sets over a sorted array, as membership conditions of one position.

A splitter computes arrays of positions 0..n-1 from a sorted group array g.  `Sorted` turns such a term into the condition
under which a position i belongs to it: a boolean combination of thresholds `i < P` and of linear inequalities that do not
mention i.  Positions and group values are linear forms over

    ("at", p)    the group of position p              ("ssl", v)  number of groups below v
    ("ssr", v)   number of groups up to v             ("sym", id) / ("td", id, unit) an input

and a condition on the group of i is a threshold on i, because g ascends:  g_i < v  <=>  i < ssl(v),  g_i <= v  <=>  i < ssr(v).
`Order` decides implications between such conditions by case distinction over their atoms; a case is impossible when a sum of
its inequalities contradicts the monotonicity of g.  `Order.model` looks for a small g and small lengths that realise a case.
"""
import bisect
import math
import itertools
from . import ir
from .ir import Node


SECONDS = {"W": 604800, "D": 86400, "d": 86400, "h": 3600, "H": 3600, "min": 60, "T": 60, "s": 1, "S": 1}


class Unknown(Exception):
    """a term outside the vocabulary"""


# ------------------------------------------------------------------ linear forms
class Lin:
    __slots__ = ("t", "c", "h")

    def __init__(self, t=(), c=0):
        self.t, self.c = tuple(t), c
        self.h = hash((self.t, self.c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.t == o.t and self.c == o.c

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.t, self.c + o)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return mk(d, self.c + o.c)

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, Lin) else -o)

    def __mul__(self, k):
        return mk({a: v * k for a, v in self.t}, self.c * k)

    def key(self):
        return (tuple((akey(a), k) for a, k in self.t), self.c)

    def __repr__(self):
        s = " + ".join((f"{k}*" if k != 1 else "") + ashow(a) for a, k in self.t)
        return (s + (f" + {self.c}" if self.c else "")) if s else str(self.c)


def akey(a):
    return tuple(x.key() if isinstance(x, Lin) else str(x) for x in a)


def ashow(a):
    return f"{a[0]}({', '.join(repr(x) if isinstance(x, Lin) else str(x) for x in a[1:])})" if a[0] != "sym" else str(a[1])


def mk(d, c):
    items = [(a, k) for a, k in d.items() if k]
    items.sort(key=lambda t: akey(t[0]))
    return Lin(items, c)


def atom(*a):
    return Lin(((tuple(a), 1),), 0)


I = atom("i")
N_ = atom("n")

# ------------------------------------------------------------------ conditions
T, F = ("T",), ("F",)


def neg(b):
    if b is T or b == T:
        return F
    if b == F:
        return T
    return b[1] if b[0] == "not" else ("not", b)


def conj(*bs):
    out = []
    for b in bs:
        if b == F:
            return F
        if b[0] == "and":
            out += [x for x in b[1] if x not in out]
        elif b != T and b not in out:
            out.append(b)
    return T if not out else out[0] if len(out) == 1 else ("and", tuple(out))


def disj(*bs):
    return neg(conj(*[neg(b) for b in bs]))


def show(b):
    if b[0] in "TF":
        return "true" if b[0] == "T" else "false"
    if b[0] == "not":
        x = b[1]
        if x[0] == "i<":
            return f"i >= {x[1]!r}"
        if x[0] == "and":
            return "(" + " or ".join(show(neg(y)) for y in x[1]) + ")"
        return f"not {show(x)}"
    if b[0] == "and":
        return "(" + " and ".join(show(x) for x in b[1]) + ")"
    if b[0] == "i<":
        return f"i < {b[1]!r}"
    if b[0] == "lt0":
        return f"{b[1]!r} < 0"
    if b[0] == "le0":
        return f"{b[1]!r} <= 0"
    return str(b)


class Sorted:
    """terms over one sorted group array"""

    def __init__(self, names, n, strict=False, ints=True, nonneg=(), atleast1=()):
        """names: the nodes that denote the group array; n: its length node; strict: the groups are the positions themselves"""
        self.g = set(names)
        self.n = n
        self.strict, self.ints = strict, ints
        self.memo = {}

    # -- positions and values
    def at(self, p):
        if not p.t and p.c < 0:
            p = N_ + p.c
        if self.strict:
            return p
        if len(p.t) == 1 and p.t[0][1] == 1:
            a = p.t[0][0]
            if a[0] in ("ssr", "ssl"):
                v = a[1]
                if a[0] == "ssr" and p.c == -1 and is_at(v):
                    return v
                if a[0] == "ssl" and p.c == 0 and is_at(v):
                    return v
        return atom("at", p)

    def ssl(self, v):
        if self.strict:
            return v                         # up to clipping at the ends of the data
        if is_at(v):
            p = v.t[0][0][1]
            if p == Lin((), 0):
                return p
            a = single(p)
            if a is not None and a[0] in ("ssr", "ssl") and p.c == 0:
                return p
        return atom("ssl", v)

    def ssr(self, v):
        if self.strict:
            return v + 1
        if is_at(v):
            p = v.t[0][0][1]
            if p == N_ - 1:
                return N_
            a = single(p)
            if a is not None and a[0] in ("ssr", "ssl") and p.c == -1:
                return p + 1
        return atom("ssr", v)

    # -- conditions
    def lt_i(self, p):
        """i < p"""
        if p == N_ or p.t == N_.t and p.c >= 0:
            return T
        if not p.t and p.c <= 0:
            return F
        return ("i<", p)

    def ineq(self, lin, strict):
        """lin < 0 or lin <= 0, for a form without i"""
        if not lin.t:
            return T if (lin.c < 0 or not strict and lin.c == 0) else F
        if self.ints and not strict:
            lin, strict = lin - 1, True
        if not self.ints:
            g = math.gcd(lin.c, *[abs(k) for _, k in lin.t])
            if g > 1:
                lin = Lin(tuple((x, k // g) for x, k in lin.t), lin.c // g)
        first = lin.t[0][1]
        if first < 0:
            if self.ints:                      # L < 0  <=>  not (-L - 1 < 0)
                return ("not", ("lt0", lin * -1 - 1))
            return ("not", ("le0" if strict else "lt0", lin * -1))
        return ("lt0" if strict else "le0", lin)

    def less(self, x, y, strict):
        """x < y (or x <= y)"""
        gi = atom("at", I)
        if not self.strict:
            for u, v, flip in ((x, y, False), (y, x, True)):
                if has(u, ("at", I)):
                    d = dict(u.t)
                    if d[("at", I)] != 1 or has(v, ("at", I)) and u != v:
                        raise Unknown("two group comparisons of one sample")
                    if u == v:
                        return F if strict else T
                    w = v - (u - gi)
                    if has(w, ("i",)):
                        raise Unknown("position against group")
                    if not flip:
                        return self.lt_i(self.ssl(w) if strict else self.ssr(w))
                    return neg(self.lt_i(self.ssr(w) if strict else self.ssl(w)))
        d = x - y
        k = dict(d.t).get(("i",), 0)
        if k == 0:
            return self.ineq(d, strict)
        if any(deep(a, ("i",)) for a, _ in d.t if a != ("i",)):
            raise Unknown("sample-dependent position")
        if not strict:
            d = d - 1
        rest = d - I * k
        if k == 1:                              # i + rest < 0
            return self.lt_i(rest * -1)
        if k == -1:                             # rest < i  <=>  not (i < rest + 1)
            return neg(self.lt_i(rest + 1))
        raise Unknown("scaled position")

    def cmp(self, op, xs, ys):
        out = []
        for bx, x in xs:
            for by, y in ys:
                b = conj(bx, by)
                if b == F:
                    continue
                if op in ("gt", "ge"):
                    x_, y_, o = y, x, {"gt": "lt", "ge": "le"}[op]
                else:
                    x_, y_, o = x, y, op
                if o in ("lt", "le"):
                    r = self.less(x_, y_, o == "lt")
                else:
                    r = conj(self.less(x_, y_, False), self.less(y_, x_, False))
                    if o == "ne":
                        r = neg(r)
                out.append(conj(b, r))
        return disj(*out) if out else F

    # -- scalars
    def val(self, n):
        """the cases of a scalar term: [(condition, form)]"""
        k = ("v", n.id)
        if k not in self.memo:
            self.memo[k] = self._val(n)
        return self.memo[k]

    def one(self, n):
        r = self.val(n)
        if len(r) != 1:
            raise Unknown("conditional position")
        return r[0][1]

    def _val(self, n):
        op, a = n.op, n.args
        if op == "const":
            if isinstance(a[0], bool) or not isinstance(a[0], int):
                raise Unknown(f"constant {a[0]!r}")
            return [(T, Lin((), a[0]))]
        if n is self.n or op in ("len", "sizeof") and a[0] in self.g:
            return [(T, N_)]
        if op == "sym":
            return [(T, atom("sym", a[0]))]
        if op == "floordiv" and a[1].op == "const" and isinstance(a[1].args[0], int) and a[1].args[0] > 0:
            return [(b, atom("fdiv", u, a[1].args[0])) for b, u in self.val(a[0])]
        if op == "splitsize":
            return [(T, atom("split", a[1].args[0] if isinstance(a[1], Node) else a[1], a[2].args[0] if isinstance(a[2], Node) else a[2]))]
        if op == "add":
            out = [(T, Lin())]
            for x in a:
                out = [(conj(b, c), u + v) for b, u in out for c, v in self.val(x) if conj(b, c) != F]
            return out
        if op == "sub":
            return [(conj(b, c), u - v) for b, u in self.val(a[0]) for c, v in self.val(a[1]) if conj(b, c) != F]
        if op == "neg":
            return [(b, u * -1) for b, u in self.val(a[0])]
        if op == "mul" and len(a) == 2:
            for x, y in (a, a[::-1]):
                if x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                    return [(b, u * x.args[0]) for b, u in self.val(y)]
        if op == "timedelta":
            return [(b, self.delta(u, str(a[1]) if not isinstance(a[1], Node) else ir.show(a[1], 3))) for b, u in self.val(a[0])]
        if op == "phi":
            return self.val_phi(n)
        if op == "getitem":
            s = self.index(a[1])
            if isinstance(s, Node) and s.op != "slice" and s.kind not in ir.ARRAYISH:
                if a[0] in self.g:
                    return [(b, self.at(p)) for b, p in self.val(s)]
                return [(T, self.element(a[0], p)) for b, p in self.val(s)][:1] if len(self.val(s)) == 1 else self.fail(n)
        if op == "f" and a[0] == "numpy.searchsorted":
            if a[1] in self.g and len(a) > 3 and (a[4] if len(a) > 4 else None) in (None,) or a[1] in self.g:
                side = a[3] if len(a) > 3 else "left"
                side = side.args[0] if isinstance(side, Node) and side.op == "const" else side
                if side in ("left", "right") and a[2].kind not in ir.ARRAYISH:
                    return [(b, (self.ssl if side == "left" else self.ssr)(v)) for b, v in self.val(a[2])]
        if op == "searchsorted" and a[0] in self.g:
            side = a[2] if len(a) > 2 else "left"
            side = side.args[0] if isinstance(side, Node) and side.op == "const" else side
            if side in ("left", "right"):
                return [(b, (self.ssl if side == "left" else self.ssr)(v)) for b, v in self.val(a[1])]
        if op == "red" and a[0] in ("min", "max"):
            return [(T, self.extreme(a[1], a[0]))]
        if op in ("minimum", "maximum", "min", "max") and len(a) == 2 and all(isinstance(x, Node) for x in a):
            out = []
            for b, u in self.val(a[0]):
                for c, v in self.val(a[1]):
                    lo = self.less(u, v, False) if op.startswith("min") else self.less(v, u, False)
                    out += [(conj(b, c, lo), u), (conj(b, c, neg(lo)), v)]
            return [(b, u) for b, u in out if b != F]
        if op == "red" and a[0] == "sum" or op in ("len", "count_nonzero", "sizeof"):
            x = a[1] if op == "red" else a[0]
            b = self.member(x) if op != "red" else self.mask(x, None)
            lo, hi = self.bounds(b)
            return [(T, hi - lo)]
        if op in ("asint", "astype", "item", "int") and isinstance(a[0], Node):
            return self.val(a[0])
        if op == "attr" and a[1] == "days" and a[0].kind == "timedelta":
            return [(b, atom("tq", u, "days", 86400)) for b, u in self.val(a[0])]
        if op == "total_seconds" and a[0].kind == "timedelta":
            return [(b, self.seconds(u)) for b, u in self.val(a[0])]
        if op in ("meth:round", "meth:floor", "meth:ceil") and a[0].kind in ("timedelta", "any") and len(a[1]) == 1 and not a[2]:
            q = SECONDS.get(a[1][0].args[0]) if a[1][0].op == "const" else None
            if q is not None and (a[0].op == "timedelta" or a[0].kind == "timedelta"):
                return [(b, atom("tq", u, op[5:], q)) for b, u in self.val(a[0])]
        return self.fail(n)

    def seconds(self, u):
        """a time span in seconds"""
        q = {SECONDS.get(x[2].strip("'")) if x[0] == "td" else None for x, _ in u.t}
        if len(q) == 1 and None not in q and not u.c:
            return u * q.pop()
        return atom("tq", u, "seconds", 1)

    def fail(self, n):
        raise Unknown(ir.show(n, 2)[:80])

    def delta(self, u, unit):
        d = {}
        for x, k in u.t:
            d[("td",) + (Lin(((x, 1),), 0), unit)] = k
        if u.c:
            d[("td", Lin((), 1), unit)] = d.get(("td", Lin((), 1), unit), 0) + u.c
        return mk(d, 0)

    def val_phi(self, n):
        c, x, y = n.args
        xs, ys = self.val(x), self.val(y)
        # last position of a group: where the next sample starts another group, ssr(at(p)) is p + 1
        if c.op in ("eq", "ne") and len(xs) == 1 and len(ys) == 1:
            try:
                u, v = self.one(c.args[0]), self.one(c.args[1])
            except Unknown:
                u = v = None
            s, d = (xs, ys) if c.op == "eq" else (ys, xs)
            if u is not None and is_at(u) and is_at(v):
                p, q = u.t[0][0][1], v.t[0][0][1]
                if q - p == Lin((), -1):
                    p, q, u, v = q, p, v, u
                if q - p == Lin((), 1):
                    sub = dict(s[0][1].t)
                    a1, a2 = ("ssr", u), ("ssl", v)
                    k = sub.pop(a1, 0)
                    k2 = sub.pop(a2, 0)
                    if mk(sub, s[0][1].c) + (p + 1) * k + q * k2 == d[0][1]:
                        return s
        b = self.cond(c)
        if b == T:
            return xs
        if b == F:
            return ys
        if xs == ys:
            return xs
        return [(conj(b, c1), u) for c1, u in xs if conj(b, c1) != F] + [(conj(neg(b), c1), u) for c1, u in ys if conj(neg(b), c1) != F]

    def index(self, x):
        if isinstance(x, Node) and x.op == "idx" and len(x.args) == 1:
            return x.args[0]
        return x

    def element(self, s, p):
        """element p of an ascending index set"""
        if s.op == "getitem" and s.args[0] in self.g:
            i = self.index(s.args[1])
            if isinstance(i, Node):
                sel = self.slice_bounds(i) if i.op == "slice" else self.member(i) if i.kind != "bool" and not self.boolean(i) else self.mask(i, None)
                return self.at(self.nth(sel, p))
        return self.nth(self.member(s), p)

    def nth(self, b, p):
        lo, hi = self.bounds(b)
        if not p.t and p.c < 0:
            return hi + p.c
        return lo + p

    def extreme(self, x, which):
        if x.op == "getitem" and x.args[0] in self.g and not self.strict:
            i = self.index(x.args[1])
            if i.op == "slice":
                b = self.slice_bounds(i)
            else:
                b = self.mask(i, None) if self.boolean(i) else self.member(i)
            lo, hi = self.bounds(b)
            return self.at(lo if which == "min" else hi - 1)
        if x in self.g and not self.strict:
            return self.at(Lin() if which == "min" else N_ - 1)
        lo, hi = self.bounds(self.member(x))
        return lo if which == "min" else hi - 1

    def bounds(self, b):
        """the set as a run of positions lo <= i < hi"""
        lo, hi = [], []
        for x in (b[1] if b[0] == "and" else () if b == T else (b,)):
            if x[0] == "i<":
                hi.append(x[1])
            elif x[0] == "not" and x[1][0] == "i<":
                lo.append(x[1][1])
            else:
                raise Unknown("not a run of positions")
        if len(lo) > 1 or len(hi) > 1:
            raise Unknown("several bounds")
        return (lo[0] if lo else Lin()), (hi[0] if hi else N_)

    def slice_bounds(self, s):
        lo, hi, step = (tuple(s.args) + (None,) * 3)[:3]

        def get(x, d):
            if x is None or ir.is_const(x, None):
                return d
            v = self.one(x)
            return N_ + v if not v.t and v.c < 0 else v
        if step is not None and not ir.is_const(step, None) and not ir.is_const(step, 1):
            raise Unknown("strided slice")
        return conj(neg(self.lt_i(get(lo, Lin()))), self.lt_i(get(hi, N_)))

    # -- booleans without a sample
    def cond(self, c):
        k = ("c", c.id)
        if k not in self.memo:
            self.memo[k] = self._cond(c)
        return self.memo[k]

    def _cond(self, c):
        op, a = c.op, c.args
        if op == "is_monotonic_increasing" and a[0] in self.g:
            return self.stepping("ge", 0)
        if op == "is_monotonic_decreasing" and a[0] in self.g:
            return self.stepping("le", 0)
        if op == "red" and a[0] in ("all", "any"):
            r = self.steps(a[1])
            if r is not None and r[1] == (a[0] == "all"):
                return r[0]
        if op == "const":
            return T if a[0] else F
        if op == "not":
            return neg(self.cond(a[0]))
        if op in ("and", "or"):
            return (conj if op == "and" else disj)(*[self.cond(x) for x in a])
        if op == "phi":
            b = self.cond(a[0])
            return disj(conj(b, self.cond(a[1])), conj(neg(b), self.cond(a[2])))
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            try:
                return self.cmp(op, self.val(a[0]), self.val(a[1]))
            except Unknown:
                pass
        return ("b", c.id, ir.show(c, 3)[:60])

    def steps(self, m):
        """(condition, for all) of a mask about neighbouring groups: `every step goes up` or, negated, `some step goes down`"""
        pos = True
        while m.op in ("binv", "not"):
            m, pos = m.args[0], not pos
        if m.op not in ("lt", "le", "gt", "ge"):
            return None

        def form(x):
            if x.op == "const" and isinstance(x.args[0], int):
                return Lin((), x.args[0])
            if x.op == "sub":
                u, v = form(x.args[0]), form(x.args[1])
                return None if u is None or v is None else u - v
            if x.op == "getitem" and x.args[0] in self.g:
                i = self.index(x.args[1])
                if isinstance(i, Node) and i.op == "slice":
                    if ir.is_const(i.args[0], 1) and ir.is_const(i.args[1], None):
                        return atom("next")
                    if ir.is_const(i.args[0], None) and ir.is_const(i.args[1], -1) or ir.is_const(i.args[0], 0) and ir.is_const(i.args[1], -1):
                        return atom("prev")
                    if ir.is_const(i.args[0], None) and isinstance(i.args[1], Node) and i.args[1].kind == "int" and self.one(i.args[1]) == N_ - 1:
                        return atom("prev")
            return None
        try:
            u, v = form(m.args[0]), form(m.args[1])
        except Unknown:
            return None
        if u is None or v is None:
            return None
        op, d = m.op, u - v
        if not pos:
            op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[op]
        up = atom("next") - atom("prev")
        if d == up * -1:
            d, op = up, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op]
        c = (up - d).c
        if d - up != Lin((), -c):
            return None
        if op in ("ge", "gt"):               # every step is at least / more than c
            return self.stepping(op, c), True
        return neg(self.stepping({"lt": "ge", "le": "gt"}[op], c)), False

    def stepping(self, op, c):
        """every group exceeds the one before it as told"""
        if self.strict:
            return T if {"ge": 1 >= c, "gt": 1 > c, "le": 1 <= c}[op] else F
        if op == "gt" and self.ints:
            op, c = "ge", c + 1
        return ("b", "steps", op, c)

    # -- index sets
    def boolean(self, n):
        return n.op in ("lt", "le", "gt", "ge", "eq", "ne", "band", "bor", "binv", "bxor", "isin") or n.op == "f" and str(n.args[0]) in ("numpy.isin", "numpy.in1d") or n.op == "phi" and self.boolean(n.args[1])

    def full(self, s):
        return s.op == "arange" and ir.is_const(s.args[0], 0) and s.args[1] is self.n and (len(s.args) < 3 or ir.is_const(s.args[2], 1))

    def member(self, s):
        """the condition for position i to belong to the index array s"""
        k = ("m", s.id)
        if k not in self.memo:
            self.memo[k] = self._member(s)
        return self.memo[k]

    def _member(self, s):
        op, a = s.op, s.args
        if op == "arange":
            lo, hi = self.val(a[0]), self.val(a[1])
            if len(a) > 2 and not ir.is_const(a[2], 1):
                raise Unknown("strided range")
            return disj(*[conj(b, c, neg(self.lt_i(u)), self.lt_i(v)) for b, u in lo for c, v in hi])
        if op == "phi":
            b = self.cond(a[0])
            if b == T:
                return self.member(a[1])
            if b == F:
                return self.member(a[2])
            return disj(conj(b, self.member(a[1])), conj(neg(b), self.member(a[2])))
        if op == "getitem":
            i = self.index(a[1])
            if isinstance(i, Node) and i.op == "slice":
                if self.full(a[0]):
                    return self.slice_bounds(i)
                lo, hi = self.bounds(self.member(a[0]))
                u, v = [None if x is None or ir.is_const(x, None) else self.one(x) for x in (tuple(i.args) + (None, None))[:2]]
                lo2 = lo if u is None else (lo + u if u.t or u.c >= 0 else hi + u)
                hi2 = hi if v is None else (lo + v if v.t or v.c >= 0 else hi + v)
                return conj(neg(self.lt_i(lo2)), self.lt_i(hi2))
            if isinstance(i, Node) and self.boolean(i):
                return conj(self.member(a[0]), self.mask(i, a[0]))
            if isinstance(i, Node) and self.full(a[0]):
                return self.member(i)
        if op == "f":
            name = str(a[0])
            if name == "numpy.setdiff1d":
                return conj(self.member(a[1]), neg(self.member(a[2])))
            if name in ("numpy.union1d",):
                return disj(self.member(a[1]), self.member(a[2]))
            if name in ("numpy.intersect1d",):
                return conj(self.member(a[1]), self.member(a[2]))
            if name in ("numpy.nonzero0", "numpy.flatnonzero"):
                return self.mask(a[1], None)
            if name == "numpy.unique" or name == "numpy.sort":
                return self.member(a[1])
            if name == "numpy.delete" and self.full(a[1]):
                return conj(self.member(a[1]), neg(self.member(a[2])))
        if op in ("unique", "sort", "copy", "values", "astype", "asint", "mkindex"):
            return self.member(a[0])
        if op in ("concat", "concatenate"):
            parts = [x for x in a if isinstance(x, Node)]
            if len(parts) == 1 and parts[0].op in ("list", "tuple"):
                parts = parts[0].args
            parts = [x for x in parts if x.kind in ir.ARRAYISH]
            if parts:
                return disj(*[self.member(x) for x in parts])
        raise Unknown("index set " + ir.show(s, 2)[:80])

    # -- masks: element-wise booleans at sample i
    def mask(self, m, base):
        op, a = m.op, m.args
        if op == "band" or op == "and":
            return conj(*[self.mask(x, base) for x in a])
        if op == "bor" or op == "or":
            return disj(*[self.mask(x, base) for x in a])
        if op in ("binv", "not"):
            return neg(self.mask(a[0], base))
        if op == "const":
            return T if a[0] else F
        if op == "phi":
            b = self.cond(a[0])
            return disj(conj(b, self.mask(a[1], base)), conj(neg(b), self.mask(a[2], base)))
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            return self.cmp(op, self.elem(a[0], base), self.elem(a[1], base))
        if op == "isin" or op == "f" and str(a[0]) in ("numpy.isin", "numpy.in1d"):
            x, y = (a[0], a[1]) if op == "isin" else (a[1], a[2])
            if self.is_base(x, base):
                inv = [z for z in a[2:] if ir.is_const(z, True)] if op == "isin" else [z for z in a[3:] if z is True or ir.is_const(z, True)]
                if inv:
                    raise Unknown("isin option")
                return self.member(y)
        if op in ("values", "copy", "astype"):
            return self.mask(a[0], base)
        raise Unknown("mask " + ir.show(m, 2)[:80])

    def is_base(self, x, base):
        return x is base or (base is None or self.full(base)) and self.full(x)

    def elem(self, x, base):
        if x.kind not in ir.ARRAYISH and x not in self.g:
            return self.val(x)
        if self.is_base(x, base):
            return [(T, I)]
        if x in self.g and (base is None or self.full(base)):
            return [(T, self.at(I))]
        if x.op == "getitem" and x.args[0] in self.g and base is not None and self.index(x.args[1]) is base:
            return [(T, self.at(I))]
        if x.op in ("add", "sub") and len(x.args) == 2:
            s = 1 if x.op == "add" else -1
            return [(conj(b, c), u + v * s) for b, u in self.elem(x.args[0], base) for c, v in self.elem(x.args[1], base)]
        if x.op == "mul" and len(x.args) == 2 and x.args[0].op == "const" and isinstance(x.args[0].args[0], int):
            return [(b, u * x.args[0].args[0]) for b, u in self.elem(x.args[1], base)]
        if x.op in ("values", "copy", "astype", "mkindex"):
            return self.elem(x.args[0], base)
        if x.op == "getitem" and isinstance(self.index(x.args[1]), Node) and self.index(x.args[1]).kind not in ir.ARRAYISH:
            return self.val(x)
        raise Unknown("element " + ir.show(x, 4)[:80])


def single(p):
    return p.t[0][0] if len(p.t) == 1 and p.t[0][1] == 1 else None


def is_at(v):
    a = single(v)
    return a is not None and v.c == 0 and a[0] == "at"


def has(lin, a):
    return any(x == a for x, _ in lin.t)


def deep(a, what):
    if a == what:
        return True
    return any(isinstance(x, Lin) and any(deep(y, what) for y, _ in x.t) for x in a[1:])


# ------------------------------------------------------------------ deciding
class Order:
    """consistency of inequalities over a sorted array; `low` gives lower bounds of the inputs"""

    def __init__(self, S, low, ties=True, least=2, unit=None):
        self.unit = unit                   # the time unit of small models; any other unit is longer
        self.S, self.low = S, low          # low: {symbol name: lower bound}
        self.ties = ties
        self.least = least                 # fewest samples
        self.cache = {}

    # lower bound of a form by the monotonicity rules
    def nonneg(self, L, hyp=(), depth=4):
        """L >= 0 for every sorted g"""
        k = (L, hyp, depth)
        r = self.cache.get(k)
        if r is None:
            self.cache[k] = False
            r = self.cache[k] = self._nonneg(L, hyp, depth)
        return r

    def floor(self, a):
        if a[0] == "sym":
            return self.low.get(a[1], None)
        if a[0] == "td":
            return self.floor_td(a)
        if a[0] in ("ssl", "ssr", "i", "split"):
            return 0
        if a[0] == "n":
            return self.least
        if a[0] == "fdiv":
            return 0
        return None

    def floor_td(self, a):
        l = a[1]
        if not l.t:
            return 0 if l.c >= 0 else None
        x = single(l)
        f = self.floor(x) if x is not None and l.c == 0 else None
        return 0 if f is not None and f >= 0 else None

    def _nonneg(self, L, hyp, depth):
        low, bad = L.c, []
        for a, k in L.t:
            f = self.floor(a)
            if k > 0 and f is not None:
                low += k * f
            else:
                bad.append((a, k))
        if not bad:
            return low >= 0
        if depth == 0:
            return False
        # a time delta of at least one unit
        for a, k in L.t:
            if a[0] == "td" and a[1].t and k > 0:
                x = single(a[1])
                f = self.floor(x) if x is not None else None
                if f is not None and f >= 1:
                    one = ("td", Lin((), 1), a[2])
                    if dict(L.t).get(one, 0) < 0:
                        M = L - Lin(((a, 1),), 0) + Lin(((one, 1),), 0)
                        if self.nonneg(M, hyp, depth - 1):
                            return True
        for a, k in L.t:
            one = Lin(((a, 1),), 0)
            if k > 0:                            # a >= down
                opts = [down - one for down in self.below(a, L)]
            else:                                # a <= up
                opts = [one - up for up in self.above(a)]
            for o in opts:
                if self.nonneg(L + o, hyp, depth - 1):
                    return True
        return False

    def above(self, a):
        """forms that are not below atom a"""
        if a[0] == "at":
            up = self.at_high(a[1])
            return [up] if up is not None else []
        if a[0] == "i":
            return [N_ - 1]
        if a[0] in ("ssl", "ssr"):
            return [N_] + ([a[1].t[0][0][1]] if a[0] == "ssl" and is_at(a[1]) else [])
        return []

    def below(self, a, L):
        """forms that are not above atom a, aimed at the negative atoms of L"""
        out = []
        negs = [x for x, k in L.t if k < 0]
        if a[0] == "at":
            for x in negs:
                if x[0] == "at" and self.nonneg(a[1] - x[1], (), 2):
                    out.append(Lin(((x, 1),), 0))
            out += self.at_low(a[1])
        if a[0] in ("ssl", "ssr"):
            for x in negs:
                if x[0] in ("ssl", "ssr"):
                    need = 1 if (a[0], x[0]) == ("ssl", "ssr") else 0
                    if need and not self.S.ints:
                        continue
                    if self.nonneg(a[1] - x[1] - need, (), 2):
                        out.append(Lin(((x, 1),), 0))
            if a[0] == "ssr" and is_at(a[1]):
                out.append(a[1].t[0][0][1] + 1)
        return out

    def at_low(self, p):
        a = single(p)
        if a is not None and p.c == 0:
            if a[0] == "ssr":
                return [a[1] + (1 if self.S.ints else 0)]
            if a[0] == "ssl":
                return [a[1]]
        return []

    def at_high(self, p):
        a = single(p)
        if a is not None and p.c == -1:
            if a[0] == "ssr":
                return a[1]
            if a[0] == "ssl":
                return a[1] - (1 if self.S.ints else 0)
        return None

    def facts(self, lits):
        """literals as forms that are >= 0"""
        out, strict = [I, N_ - I - 1], []
        for b, v in lits:
            if b[0] == "i<":
                out.append(b[1] - I - 1 if v else I - b[1])
            elif b[0] == "lt0":
                out.append((b[1] * -1 - (1 if self.S.ints else 0)) if v else b[1])
                if v and not self.S.ints:
                    strict.append(len(out) - 1)
            elif b[0] == "le0":
                out.append(b[1] * -1 if v else b[1])
                if not v:
                    strict.append(len(out) - 1)
        return out, strict

    def impossible(self, lits):
        """some sum of at most three of the inequalities contradicts the order"""
        fs, strict = self.facts(lits)
        low = []
        for r in (1, 2, 3):
            for c in itertools.combinations(range(len(fs)), r):
                s = Lin()
                for j in c:
                    s = s + fs[j]
                goal = s * -1 - (0 if any(j in strict for j in c) else 1)
                if not any(j in strict for j in c) and not self.S.ints and any(not position(fs[j]) for j in c):
                    continue
                if self.nonneg(goal):
                    return True
        return False

    def cases(self, b, lits=()):
        """the consistent ways to make b true"""
        b = simplify(b, dict(lits))
        if b == F:
            return
        a = pick(b)
        if a is None:
            yield lits
            return
        for v in (True, False):
            nl = lits + ((a, v),)
            if a[0] != "b" and self.impossible(nl):
                continue
            z = self.pinned(a, v)
            if z is not None:                    # an input known to be 0 from here on
                b2 = self.rewrite(simplify(b, {a: v}), z)
                nl2 = []
                for x, p in nl:
                    y = self.rewrite(x, z) if x != a else x
                    if y in (T, F):
                        if (y == T) != p:
                            break
                    elif y[0] == "not":
                        nl2.append((y[1], not p))
                    elif y[0] == "and":
                        nl2.append((x, p))
                    else:
                        nl2.append((y, p))
                else:
                    if not self.impossible(tuple(nl2)):
                        yield from self.cases(b2, tuple(nl2))
                continue
            yield from self.cases(b, nl)

    def pinned(self, a, v):
        """the input that the literal fixes at its lower bound 0"""
        if a[0] not in ("lt0", "le0") or len(a[1].t) != 1:
            return None
        (x, k), c = a[1].t[0], a[1].c
        base = x if x[0] == "sym" else single(x[1]) if x[0] == "td" and x[1].c == 0 else None
        if base is None or base[0] != "sym" or self.low.get(base[1]) != 0:
            return None
        if k == 1 and v and (a[0] == "le0" and c == 0 or a[0] == "lt0" and c == -1 and self.S.ints):
            return base
        return None

    def rewrite(self, b, z):
        if b[0] == "not":
            return neg(self.rewrite(b[1], z))
        if b[0] == "and":
            return conj(*[self.rewrite(x, z) for x in b[1]])
        if b[0] == "i<":
            return self.S.lt_i(self.zero(b[1], z))
        if b[0] in ("lt0", "le0"):
            return self.S.ineq(self.zero(b[1], z), b[0] == "lt0")
        return b

    def zero(self, L, z):
        out = Lin((), L.c)
        for a, k in L.t:
            if a == z or a[0] == "td" and self.zero(a[1], z) == Lin():
                continue
            if a[0] in ("at", "ssl", "ssr"):
                x = getattr(self.S, a[0])(self.zero(a[1], z))
            else:
                x = Lin(((a, 1),), 0)
            out = out + x * k
        return out

    def implies(self, p, q):
        """('yes'|'no'|'unknown', case)"""
        worst = ("yes", None)
        for lits in self.cases(conj(p, neg(q))):
            m = self.model(lits, conj(p, neg(q)))
            if m is not None:
                return "no", (lits, m)
            worst = ("unknown", (lits, None))
        return worst

    def same(self, p, q):
        if p == q:
            return "yes", None
        r = self.implies(p, q)
        if r[0] == "no":
            return r
        s = self.implies(q, p)
        return s if s[0] != "yes" else r

    # -- realising a case on a small array
    def model(self, lits, b):
        names, kinds, splits = set(), set(), set()
        forms = [x[1] for x, _ in lits if x[0] in ("i<", "lt0", "le0")]
        fixed = [(x, v) for x, v in lits if x[0] == "b"]
        if any(x[1] != "steps" for x, _ in fixed):
            return None
        lits = [(x, v) for x, v in lits if x[0] != "b"]
        collect(forms, names, splits)
        names = sorted(names)
        if len(names) > 4:
            return None
        for n in range(1, 8):
            if n < self.least or fixed and n > 5:
                continue
            if any(n < k for k in splits):
                continue
            gs = [list(range(n))] if self.S.strict else walks(n) if fixed else shapes(n, self.ties)
            for g in gs:
                if any(steps_hold(g, x) != v for x, v in fixed):
                    continue
                for vs in itertools.product(*[range(self.low.get(x, -1), self.low.get(x, -1) + 5) for x in names]):
                    env = dict(zip(names, vs))
                    for i in range(n):
                        try:
                            if all(self.truth(x, g, env, i) == v for x, v in lits):
                                return dict(groups=g, i=i, **env)
                        except IndexError:
                            continue
        return None

    def truth(self, b, g, env, i):
        if b[0] == "i<":
            return i < self.num(b[1], g, env, i)
        x = self.num(b[1], g, env, i)
        return x < 0 if b[0] == "lt0" else x <= 0

    def num(self, L, g, env, i):
        return L.c + sum(k * self.anum(a, g, env, i) for a, k in L.t)

    def anum(self, a, g, env, i):
        h = a[0]
        if h == "i":
            return i
        if h == "n":
            return len(g)
        if h == "sym":
            return env[a[1]]
        if h == "td":
            return self.num(a[1], g, env, i) * (1 if a[2] == self.unit else 2)
        if h == "split":
            k, j = a[1:]
            return len(g) // k + (1 if j < len(g) % k else 0)
        v = self.num(a[1], g, env, i)
        if h == "tq":
            w = v * SECONDS.get((self.unit or "'h'").strip("'"), 3600)
            q = a[3]
            if a[2] in ("days", "seconds"):
                return w // q if a[2] == "days" else w
            r = w // q * q if a[2] == "floor" else -(-w // q) * q if a[2] == "ceil" else round(w / q) * q
            return r / SECONDS.get((self.unit or "'h'").strip("'"), 3600)
        if h == "fdiv":
            return v // a[2]
        if h == "at":
            if not 0 <= v < len(g):
                raise IndexError
            return g[v]
        if h == "ssl":
            return bisect.bisect_left(g, v)
        return bisect.bisect_right(g, v)


def position(L):
    """a form of positions (integers)"""
    return all(a[0] in ("i", "n", "ssl", "ssr", "split") for a, _ in L.t)


def walks(n):
    for d in itertools.product((-2, -1, 0, 1, 2) if n < 4 else (-1, 0, 2), repeat=n - 1):
        yield list(itertools.accumulate((5,) + d))


def steps_hold(g, b):
    f = {"ge": lambda d: d >= b[3], "gt": lambda d: d > b[3], "le": lambda d: d <= b[3]}[b[2]]
    return all(f(y - x) for x, y in zip(g, g[1:]))


def shapes(n, ties=True):
    steps = (0, 1, 2) if ties else (1, 2)
    if n > 5:
        steps = steps[:2]
    for d in itertools.product(steps, repeat=n - 1):
        yield list(itertools.accumulate((0,) + d))


def collect(forms, names, splits):
    for L in forms:
        for a, _ in L.t:
            if a[0] == "sym":
                names.add(a[1])
            elif a[0] == "split":
                splits.add(a[1])
            collect([x for x in a[1:] if isinstance(x, Lin)], names, splits)


def simplify(b, env):
    if b in env:
        return T if env[b] else F
    if b[0] == "not":
        return neg(simplify(b[1], env))
    if b[0] == "and":
        return conj(*[simplify(x, env) for x in b[1]])
    return b


def pick(b):
    while True:
        if b[0] in "TF":
            return None
        if b[0] == "not":
            b = b[1]
        elif b[0] == "and":
            b = b[1][0]
        else:
            return b
