"""Truth of boolean terms under assumed literals (linear comparisons, equalities with constants, none-ness)."""
import math
from . import ir, interp
from .ir import Node, const
from .shape import lin, isub
from .interval import Ivl

INF = math.inf
REL = {"lt": (True, False, False), "le": (True, True, False), "gt": (False, False, True), "ge": (False, True, True), "eq": (False, True, False), "ne": (True, False, True)}


def numeric(n):
    return n.kind in ("int", "float", "num", "bool") or n.op == "const" and isinstance(n.args[0], (int, float))


def split(a, b):
    """a - b as (key, sign, offset) with a - b = sign * key + offset, or None when the sides are no numbers"""
    if a.kind == "int" and b.kind == "int":
        d, c = lin(isub(a, b))
        if not d:
            return None, 1, c
        items = sorted(d.items(), key=lambda t: t[0].id)
        g = math.gcd(*[abs(v) for v in d.values()])
        s = g if items[0][1] > 0 else -g
        return ("int",) + tuple((k.id, v // s) for k, v in items), s, c
    if not (numeric(a) and numeric(b)) and not (b.op == "const" and isinstance(b.args[0], (int, float)) and not isinstance(b.args[0], bool) and a.kind not in ir.ARRAYISH):
        return None
    if b.op == "const":
        return ("t", a.id), 1, -b.args[0]
    if a.op == "const":
        return ("t", b.id), -1, a.args[0]
    return (("d", a.id, b.id), 1, 0) if a.id < b.id else (("d", b.id, a.id), -1, 0)


def multiple(n):
    """(k, y) for the product k*y of a number and one term"""
    if n.op == "mul" and len(n.args) == 2:
        for k, y in (n.args, n.args[::-1]):
            if k.op == "const" and isinstance(k.args[0], (int, float)) and not isinstance(k.args[0], bool) and numeric(y):
                return k.args[0], y
    return None


def ratio(a, b, pos):
    """a - b as sign * (x/y - k) for a positive y (up to a positive factor): comparisons of a quotient written with or without the division"""
    for p, q, s in ((a, b, 1), (b, a, -1)):
        if p.op in ("div", "truediv") and len(p.args) == 2 and q.op == "const" and isinstance(q.args[0], (int, float)) and all(numeric(t) for t in p.args) and pos(p.args[1]):
            return ("r", p.args[0].id, p.args[1].id), s, -s * q.args[0]
        m = multiple(q)
        if m is not None and numeric(p) and p.op != "const" and pos(m[1]):
            return ("r", p.id, m[1].id), s, -s * m[0]
    return None


class Facts:
    def __init__(self, lits=()):
        self.lits = tuple(lits)
        self.truth = {}
        self.rng = {}      # key -> [lo, lo_open, hi, hi_open, excluded]
        self.eqc = {}      # term id -> constant it equals
        self.nec = {}      # term id -> constants it differs from
        self.none = {}
        self.bad = False
        for c, v in lits:
            self.put(c, v)

    def put(self, c, v):
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op == "and" and v or c.op == "or" and not v:
            for x in c.args:
                self.put(x, v)
            return
        if self.known(c) is (not v):
            self.bad = True
            return
        self.truth[c.id] = v
        if c.op == "is" and ir.is_const(c.args[1], None):
            self.none[c.args[0].id] = v
        if c.op not in REL or c.kind in ir.ARRAYISH:
            return
        op = c.op if v else interp.NEG[c.op]
        a, b = c.args
        if op in ("eq", "ne") and "const" in (a.op, b.op):
            t, k = (a, b) if b.op == "const" else (b, a)
            if op == "eq":
                self.eqc[t.id] = k
            else:
                self.nec.setdefault(t.id, set()).add(k)
        sp = ratio(a, b, self.positive) or split(a, b)
        if sp is None or sp[0] is None:
            return
        key, s, off = sp
        r = self.rng.setdefault(key, [-INF, False, INF, False, set()])
        x = -off / s                       # s*key + off (op) 0   <=>   key (op') x
        if s < 0:
            op = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op)
        if op in ("lt", "le", "eq") and (x < r[2] or x == r[2] and op == "lt"):
            r[2], r[3] = x, op == "lt"
        if op in ("gt", "ge", "eq") and (x > r[0] or x == r[0] and op == "gt"):
            r[0], r[1] = x, op == "gt"
        if op == "ne":
            r[4].add(x)
        if key[0] == "int":
            lo = math.floor(r[0]) + 1 if r[1] and r[0] > -INF else (math.ceil(r[0]) if r[0] > -INF else r[0])
            hi = math.ceil(r[2]) - 1 if r[3] and r[2] < INF else (math.floor(r[2]) if r[2] < INF else r[2])
            while lo in r[4]:
                lo += 1
            while hi in r[4]:
                hi -= 1
            r[0], r[1], r[2], r[3] = lo, False, hi, False
        if r[0] > r[2] or r[0] == r[2] and (r[1] or r[3] or r[0] in r[4]):
            self.bad = True

    def positive(self, y):
        lo = Ivl(self.lits).get(y)[0]
        if y.kind == "int":
            r = self.rng.get(("int", (y.id, 1)))
            if r is not None:
                lo = max(lo, r[0])
        return lo > 0

    def known(self, c):
        """True/False when the literals decide c, else None"""
        if c.op == "const":
            return bool(c.args[0]) if isinstance(c.args[0], (bool, int, str)) or c.args[0] is None else None
        if c.op == "not":
            r = self.known(c.args[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [self.known(x) for x in c.args]
            stop = c.op == "or"
            if stop in rs:
                return stop
            return (not stop) if all(r is (not stop) for r in rs) else None
        if c.id in self.truth:
            return self.truth[c.id]
        if c.op == "is" and ir.is_const(c.args[1], None):
            if c.args[0].id in self.none:
                return self.none[c.args[0].id]
            if c.args[0].id in self.eqc and self.eqc[c.args[0].id].args[0] is not None:
                return False
            return None
        if c.op not in REL or c.kind in ir.ARRAYISH:
            return None
        n = ir.N(interp.NEG[c.op], *c.args, kind=c.kind)
        if n.id in self.truth:
            return not self.truth[n.id]
        a, b = c.args
        if c.op in ("eq", "ne") and "const" in (a.op, b.op):
            t, k = (a, b) if b.op == "const" else (b, a)
            if t.id in self.eqc:
                same = self.eqc[t.id].args[0] == k.args[0]
                return same == (c.op == "eq")
            if k in self.nec.get(t.id, ()):
                return c.op == "ne"
            if self.none.get(t.id) and k.args[0] is not None:
                return c.op == "ne"
        sp = ratio(a, b, self.positive) or split(a, b)
        if sp is None:
            return None
        key, s, off = sp
        lt, eq, gt = REL[c.op]
        if key is None:
            return lt if off < 0 else (eq if off == 0 else gt)
        x = -off / s
        if s < 0:
            lt, gt = gt, lt
        r = self.rng.get(key)
        # possible positions of key relative to x
        can = [True, True, True]
        if r is not None:
            lo, lo_open, hi, hi_open, ex = r
            can[0] = lo < x
            can[2] = hi > x
            can[1] = (lo < x or lo == x and not lo_open) and (hi > x or hi == x and not hi_open) and x not in ex
        if key[0] == "r":
            dlo, dhi = -INF, INF
        elif key[0] == "int":
            dlo, dhi = Ivl(self.lits).get(isub(a, b))
        else:
            iv = Ivl(self.lits)
            (la, ha), (lb, hb) = iv.get(a), iv.get(b)
            dlo, dhi = la - hb, ha - lb
        dlo, dhi = (-INF if dlo != dlo else dlo), (INF if dhi != dhi else dhi)
        neg, zero, pos = dlo < 0, dlo <= 0 <= dhi, dhi > 0
        if s < 0:
            neg, pos = pos, neg
        can = [can[0] and neg, can[1] and zero, can[2] and pos]
        vals = {v for v, p in zip((lt, eq, gt), can) if p}
        return vals.pop() if len(vals) == 1 else None

    def simplify(self, n):
        """rewrite n with every decided boolean and guard replaced"""
        memo = {}

        def arg(a):
            if isinstance(a, Node):
                return rec(a)
            if isinstance(a, tuple):
                return tuple(arg(x) for x in a)
            return a

        def rec(x):
            if x.id in memo:
                return memo[x.id]
            if x.op == "phi":
                k = self.known(x.args[0])
                r = rec(x.args[1] if k else x.args[2]) if k is not None else interp.mkphi(rec(x.args[0]), rec(x.args[1]), rec(x.args[2]))
            elif x.kind == "bool" and x.op != "const" and self.known(x) is not None:
                r = const(self.known(x))
            elif x.op == "and":
                r = interp.conj([rec(y) for y in x.args])
            elif x.op == "or":
                r = interp.disj([rec(y) for y in x.args])
            elif x.op == "not":
                r = interp.mknot(rec(x.args[0]))
            else:
                new = tuple(arg(a) for a in x.args)
                r = x if new == x.args else ir.rebuild(x, new)
            memo[x.id] = r
            return r
        return rec(n)


def atoms(c):
    """the atomic conditions a boolean term is built from"""
    if c.op in ("and", "or"):
        return [y for x in c.args for y in atoms(x)]
    if c.op == "not":
        return atoms(c.args[0])
    if c.op == "phi" and c.kind == "bool":
        return [y for x in c.args for y in atoms(x)]
    return [] if c.op == "const" else [c]
