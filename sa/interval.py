"""Interval domain over value-graph terms (numeric scalars; arrays element-wise)."""
import math
from .ir import N, Node, is_const
from . import ir
from .shape import lin

INF = math.inf
TOP = (-INF, INF)
SYMRANGE = {}  # sym node id -> (lo, hi)


class Ivl:
    def __init__(self, facts=(), ranges=None):
        self.memo = {}
        self.facts = {}
        self.ranges = ranges or {}
        for c, p in facts:
            self.add_fact(c, p)

    def add_fact(self, c, p):
        if c.op == "and" and p:
            for x in c.args:
                self.add_fact(x, True)
            return
        if c.op == "or" and not p:
            for x in c.args:
                self.add_fact(x, False)
            return
        if c.op == "not":
            self.add_fact(c.args[0], not p)
            return
        if c.op in ("lt", "le", "gt", "ge", "eq") :
            a, b = c.args
            op = c.op
            if not p:
                if op == "eq":
                    return
                op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[op]
            for x, y, o in ((a, b, op), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq"}[op])):
                if y.op == "const" and isinstance(y.args[0], (int, float)) and x.op != "const":
                    v = y.args[0]
                    lo, hi = self.facts.get(x.id, TOP)
                    integer = x.kind == "int"
                    if o in ("lt", "le"):
                        hi = min(hi, v - 1 if (integer and o == "lt" and float(v).is_integer()) else v)
                    elif o in ("gt", "ge"):
                        lo = max(lo, v + 1 if (integer and o == "gt" and float(v).is_integer()) else v)
                    else:
                        lo, hi = max(lo, v), min(hi, v)
                    self.facts[x.id] = (lo, hi)

    def get(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        self.memo[n.id] = TOP
        r = self._get(n)
        f = self.facts.get(n.id)
        if f:
            r = (max(r[0], f[0]), min(r[1], f[1]))
        self.memo[n.id] = r
        return r

    def _get(self, n):
        op = n.op
        if op == "const":
            v = n.args[0]
            if isinstance(v, bool):
                return (int(v), int(v))
            if isinstance(v, (int, float)) and not (isinstance(v, float) and math.isnan(v)):
                return (v, v)
            return TOP
        if op == "sym":
            r = self.ranges.get(n.id) or SYMRANGE.get(n.id)
            return r or TOP
        if op == "ix" or (op == "bv" and n.kind == "int"):
            return (0, INF)
        if op in ("dim", "count", "len"):
            return (0, INF)
        if op == "linspace":
            a, b = self.get(n.args[0]), self.get(n.args[1])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op in ("values", "mkseries", "copy", "cast", "named", "astype", "reshape", "flatten", "T", "getitem", "shift", "diag0", "withname", "sorted", "tile", "repeat", "loopexit", "elem"):
            return self.get(n.args[0])
        if op == "phi" or op == "where":
            # path-sensitive: refine each side by the condition when it bounds a term
            a, b = n.args[1], n.args[2]
            ra, rb = self.refined(a, n.args[0], True), self.refined(b, n.args[0], False)
            return (min(ra[0], rb[0]), max(ra[1], rb[1]))
        if op == "swhere":
            ra, rb = self.refined(n.args[0], n.args[1], True), self.refined(n.args[2], n.args[1], False)
            return (min(ra[0], rb[0]), max(ra[1], rb[1]))
        if op in ("add", "sub"):
            d, c = lin(n) if n.kind == "int" else ({}, None)
            if c is not None and d and not (len(d) == 1 and n in d):
                lo = hi = c
                for k, v in d.items():
                    l, h = self.get(k)
                    if v > 0:
                        lo, hi = lo + v * l, hi + v * h
                    else:
                        lo, hi = lo + v * h, hi + v * l
                if lo != lo:
                    lo = -INF
                if hi != hi:
                    hi = INF
                return (lo, hi)
            a, b = self.get(n.args[0]), self.get(n.args[1])
            if n.op == "sub" and n.args[0] is n.args[1]:
                return (0, 0)
            if op == "sub":
                b = (-b[1], -b[0])
            return nn(a[0] + b[0], a[1] + b[1])
        if op == "neg":
            a = self.get(n.args[0])
            return (-a[1], -a[0])
        if op == "mul":
            if n.args[0] is n.args[1]:
                a = self.get(n.args[0])
                return powi(a, 2)
            return mulr(self.get(n.args[0]), self.get(n.args[1]))
        if op == "truediv":
            r = self._ratio(n.args[0], n.args[1])
            if r:
                return r
            b = self.get(n.args[1])
            if b[0] > 0 or b[1] < 0:
                return mulr(self.get(n.args[0]), (1 / b[1] if b[1] else INF, 1 / b[0]) if not math.isinf(b[0]) else (-INF, INF))
            if b[0] == 0:
                return mulr(self.get(n.args[0]), (1 / b[1] if b[1] not in (0, INF) else 0, INF))
            return TOP
        if op == "floordiv":
            a, b = self.get(n.args[0]), self.get(n.args[1])
            if b[0] > 0 and a[0] >= 0:
                return (math.floor(a[0] / b[1]) if b[1] != INF else 0, a[1] // b[0] if a[1] != INF else INF)
            return TOP
        if op == "pow":
            e = n.args[1]
            b = self.get(n.args[0])
            if e.op == "const" and isinstance(e.args[0], (int, float)) and not isinstance(e.args[0], bool):
                v = e.args[0]
                if float(v).is_integer():
                    return powi(b, int(v))
                if v > 0:
                    return (max(b[0], 0) ** v if b[0] != INF else INF, max(b[1], 0) ** v if b[1] != INF else INF)
                return (0, INF)
            if b[0] >= 0:
                return (0, INF)
            return TOP
        if op == "abs":
            a = self.get(n.args[0])
            if a[0] >= 0:
                return a
            if a[1] <= 0:
                return (-a[1], -a[0])
            return (0, max(-a[0], a[1]))
        if op == "exp":
            a = self.get(n.args[0])
            return (ex(a[0]), ex(a[1]))
        if op == "log":
            a = self.get(n.args[0])
            r = self._logratio(n.args[0])
            if r:
                return r
            return (lg(a[0]), lg(a[1]))
        if op == "sign":
            a = self.get(n.args[0])
            return (sg(a[0]), sg(a[1]))
        if op in ("maximum", "rowmax"):
            rs = [self.get(a) for a in n.args]
            return (max(r[0] for r in rs), max(r[1] for r in rs))
        if op in ("minimum", "rowmin"):
            rs = [self.get(a) for a in n.args]
            return (min(r[0] for r in rs), min(r[1] for r in rs))
        if op in ("lt", "le", "gt", "ge", "eq", "ne", "and", "or", "not", "band", "bor", "isnan", "tcdf", "binv", "isin"):
            return (0, 1)
        if op == "dtfield" and isinstance(n.args[0], str) and n.args[0].startswith("is_"):
            return (0, 1)
        if op == "splitsize":
            return (n.args[3].args[0], INF)
        if op == "red":
            name, x = n.args[0], n.args[1]
            a = self.get(x)
            if name in ("mean", "min", "max", "median", "nanmean", "nanmin", "nanmax"):
                return a
            if name in ("sum", "nansum"):
                return (0 if a[0] >= 0 else -INF, 0 if a[1] <= 0 else INF)
            if name in ("std", "var"):
                return (0, INF)
            if name in ("any", "all"):
                return (0, 1)
            if name in ("argmax", "argmin"):
                return (0, INF)
            return TOP
        if op in ("roll", "ewm", "expanding"):
            fn, x = n.args[0], n.args[1]
            a = self.get(x)
            if fn in ("mean", "min", "max", "median"):
                return a
            if fn == "sum":
                return (0 if a[0] >= 0 else -INF, 0 if a[1] <= 0 else INF)
            if fn in ("std", "var", "sem"):
                return (0, INF)
            if fn == "corr":
                return (-1, 1)
            return TOP
        if op == "cum":
            a = self.get(n.args[1])
            if n.args[0] in ("max", "min"):
                return a
            if n.args[0] == "sum":
                return (a[0] if a[0] >= 0 else -INF, a[1] if a[1] <= 0 else INF)
            return TOP
        if op in ("zeros", "zeros_like"):
            return (0, 0)
        if op in ("ones", "ones_like"):
            return (1, 1)
        if op == "fillna":
            a, b = self.get(n.args[0]), self.get(n.args[1])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == "nan_to_num":
            a = self.get(n.args[0])
            return (min(a[0], 0), max(a[1], 0))
        if op == "setdiag":
            a, b = self.get(n.args[0]), self.get(n.args[1])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == "store":
            a, b = self.get(n.args[0]), self.get(n.args[2])
            idx = n.args[1]
            if len(idx.args) == 1 and idx.args[0].op in ("lt", "le", "gt", "ge"):
                m = idx.args[0]
                # x[x < c] = v
                a = self.refined(n.args[0], m, False)
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == "assignall":
            return self.get(n.args[1])
        if op == "mu":
            d = ir.mu_defs.get(n.args[0])
            if d and isinstance(d.get("next"), Node):
                # widen: keep a bound if it is inductive
                init = self.get(d["init"]) if d["init"].op != "undef" else (INF, -INF)
                lo, hi = init
                for _ in range(3):
                    sub = Ivl(ranges=self.ranges)
                    sub.facts = dict(self.facts)
                    sub.memo = {n.id: (lo, hi)}
                    nx = sub.get(d["next"])
                    nlo = lo if nx[0] >= lo else (0 if lo >= 0 and nx[0] >= 0 else -INF)
                    nhi = hi if nx[1] <= hi else INF
                    if (nlo, nhi) == (lo, hi):
                        break
                    lo, hi = nlo, nhi
                else:
                    return TOP
                return (lo, hi)
            return TOP
        if op == "foldsum":
            a = self.get(n.args[0])
            b = self.get(n.args[1])
            return (a[0] if b[0] >= 0 else -INF, a[1] if b[1] <= 0 else INF)
        if op in ("mapstore", "maplist"):
            if op == "maplist":
                return self.get(n.args[0])
            a, b = self.get(n.args[0]), self.get(n.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == "f":
            name = n.args[0]
            if name in ("numpy.corrcoef", "corr", "scipy.stats.norm.cdf"):
                return (-1 - 1e-9, 1 + 1e-9) if name != "scipy.stats.norm.cdf" else (0, 1)
            if name in ("scipy.stats.entropy",):
                return (0, INF)
            if name in ("numpy.histogram", "numpy.histogram2d"):
                return TOP
            return TOP
        if op == "bool":
            return (0, 1)
        return TOP

    def refined(self, x, cond, pol):
        """interval of x given an elementwise bound condition on x itself"""
        base = self.get(x)
        c = cond
        p = pol
        while c.op in ("not", "binv"):
            c, p = c.args[0], not p
        lo, hi = base
        if c.op in ("lt", "le", "gt", "ge"):
            a, b = c.args
            op = c.op if p else {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[c.op]
            for y, z, o in ((a, b, op), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[op])):
                bz = self.get(z)
                if y is x:
                    if o in ("lt", "le"):
                        hi = min(hi, bz[1])
                    else:
                        lo = max(lo, bz[0])
                elif x.op == "neg" and x.args[0] is y:
                    if o in ("lt", "le"):
                        lo = max(lo, -bz[1])
                    else:
                        hi = min(hi, -bz[0])
        return (lo, hi)

    def _ratio(self, a, b):
        """x/(x+y) with x,y >= 0 lies in [0,1]"""
        parts = []

        def flat(t):
            if t.op == "add":
                flat(t.args[0])
                flat(t.args[1])
            else:
                parts.append(t)

        if b.op == "add":
            flat(b)
            if a in parts and all(self.get(p)[0] >= 0 for p in parts):
                return (0, 1)
        if a is b:
            return (1, 1)
        return None

    def _logratio(self, a):
        return None


def nn(lo, hi):
    return (-INF if lo != lo else lo, INF if hi != hi else hi)


def mulr(a, b):
    vs = []
    for x in a:
        for y in b:
            if (x == 0 and math.isinf(y)) or (y == 0 and math.isinf(x)):
                vs.append(0)
            else:
                vs.append(x * y)
    return (min(vs), max(vs))


def powi(b, k):
    lo, hi = b

    def p(x):
        try:
            return float(x) ** k
        except (OverflowError, ZeroDivisionError):
            return INF

    if k < 0:
        if lo > 0:
            return (p(hi) if hi != INF else 0, p(lo))
        return (0, INF) if k % 2 == 0 else TOP
    if k % 2 == 0:
        if lo >= 0:
            return (p(lo), p(hi))
        if hi <= 0:
            return (p(hi), p(lo))
        return (0, max(p(lo), p(hi)))
    return (p(lo), p(hi))


def ex(x):
    if x == -INF:
        return 0
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def lg(x):
    if x <= 0:
        return -INF
    if x == INF:
        return INF
    return math.log(x)


def sg(x):
    return (x > 0) - (x < 0)
