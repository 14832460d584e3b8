"""Sign analysis: proves a value term non-negative for all inputs in the declared ranges.

Two layers.  Structural rules on the term (sums, products, means and extremes of non-negative terms, squares, roots, choices), and for
what they leave over an algebraic layer on the normal form: window sums with a common window are merged into the sum of one pointwise
expression, numerator and denominator are bounded separately, every atom is replaced by a variable of its range (unit interval, half line,
the real line) and the resulting polynomial is shown non-negative by the Bernstein coefficients in the unit-interval variables of each of
its coefficients in the half-line variables.
"""
import itertools
import math

import sympy as sp
from sympy import Integer, Rational, Symbol

from . import ir, entry
from .ir import N, const, is_const
from .interval import Ivl, INF, SYMRANGE
from .nf import NF

PASS = {"values", "copy", "cast", "named", "withname", "mkseries", "array", "shift", "bfill", "ffill", "reindex", "astype", "getitem", "dropna", "elem"}


def proves_nonneg(n):
    try:
        return Prover().node(n, 0)
    except (RecursionError, sp.PolynomialError):
        return False


class Prover:
    def __init__(self):
        self.memo = {}
        self.nf = NF(positive=lambda x: Ivl().get(x)[0] > 0)
        self.iv = Ivl()
        self.ememo = {}

    # ------------------------------------------------------------------ terms
    def node(self, n, d=0):
        r = self.memo.get(n.id)
        if r is None:
            self.memo[n.id] = False
            r = self.memo[n.id] = self._node(n, d)
        return r

    def _node(self, n, d):
        if self.iv.get(n)[0] >= 0:
            return True
        op, a = n.op, n.args
        if op == "nan":
            return True
        if op in PASS and self.node(a[0], d):
            fill = a[2] if op in ("reindex", "shift") and len(a) > 2 else None
            return not isinstance(fill, ir.Node) or is_const(fill, None) or self.node(fill, d)
        if op == "maplist" and not a[2]:
            return self.node(a[0], d)
        if op == "add" and self.node(a[0], d) and self.node(a[1], d):
            return True
        if op == "sub" and is_const(a[1], 1) and a[0].op == "exp" and self.node(a[0].args[0], d):
            return True
        if op in ("mul", "truediv") and self.node(a[0], d) and self.node(a[1], d):
            return True
        if op in ("roll", "ewm", "expanding", "red", "cum"):
            if a[0] in ("std", "var", "sem"):
                return True
            if a[0] in ("mean", "sum", "max", "min", "median", "nanmean", "nansum") and self.node(a[1], d):
                return True
        if op in ("rowmax", "rowmin", "maximum", "minimum") and all(self.node(x, d) for x in a if isinstance(x, ir.Node)):
            return True
        if op == "phi" and self.node(a[1], d) and self.node(a[2], d):
            return True
        if op in ("where", "swhere"):
            c, x, y = (a[1], a[0], a[2]) if op == "swhere" else a[:3]
            if (self.node(x, d) or self.guarded(x, c, True)) and (self.node(y, d) or self.guarded(y, c, False)):
                return True
        try:
            return self.alg(self.nf.expr(n))
        except (RecursionError, sp.PolynomialError, NotImplementedError, ZeroDivisionError):
            return False

    def guarded(self, x, c, pol):
        """x >= 0 where the condition holds"""
        while c.op in ("not", "binv"):
            c, pol = c.args[0], not pol
        if c.op not in ("lt", "le", "gt", "ge"):
            return False
        a, b = c.args
        if (c.op in ("lt", "le")) == pol:
            a, b = b, a
        # a >= b holds here
        try:
            e = self.nf.expr(x)
            g = self.nf.expr(a) - self.nf.expr(b)
            r = self.nf.canon(e / g) if g != 0 else None
            return r is not None and self.alg(r) or self.alg(e - g)
        except (RecursionError, sp.PolynomialError):
            return False

    # ------------------------------------------------------------------ expressions
    def alg(self, e, depth=0):
        e = sp.sympify(e)
        if depth > 8:
            return False
        k = e
        if k in self.ememo:
            return self.ememo[k]
        self.ememo[k] = False
        r = self.ememo[k] = self._alg(e, depth)
        return r

    def _alg(self, e, depth):
        if e.is_Number:
            return e >= 0
        e = self.signs(e)
        n, d = sp.fraction(sp.cancel(sp.together(e)))
        if d != 1:
            s = self.definite(d, depth)
            if not s:
                return False
            if s < 0:
                n = -n
        return self.poly(sp.expand(n), depth)

    def definite(self, d, depth):
        """1 if d >= 0, -1 if d <= 0, 0 unknown (d != 0 where the quotient is defined)"""
        d = sp.factor(d)
        s = 1
        for f in sp.Mul.make_args(d):
            b, x = f.as_base_exp()
            if x.is_Integer and x % 2 == 0:
                continue
            if self.poly(sp.expand(b), depth):
                continue
            if self.poly(sp.expand(-b), depth):
                s = -s
                continue
            return 0
        return s

    def signs(self, e):
        """1/sign -> sign, and sign(A)*A*m -> |A|*m"""
        for s in sorted(e.free_symbols, key=str):
            if self.op(s)[0] != "sign":
                continue
            A = self.nf.info[s]["args"][0]
            e = sp.together(e)
            p = sp.cancel(e * s)
            if not p.has(s):
                p2 = sp.cancel(p / A)
                z = Symbol(f"abs_{s}", nonnegative=True)
                if not any(self.op(q)[0] == "sign" for q in p2.free_symbols):
                    self.nf.info[z] = dict(op=("absval",), args=[A], scalar=False)
                    e = p2 * z
                    continue
            p = sp.cancel(e / s)
            if not p.has(s):
                p2 = sp.cancel(p / A)
                z = Symbol(f"abs_{s}", nonnegative=True)
                self.nf.info[z] = dict(op=("absval",), args=[A], scalar=False)
                e = p2 * z
        return e

    def op(self, s):
        return self.nf.info.get(s, {}).get("op", ("?",))

    def scal(self, e):
        return all(self.nf.info.get(s, {}).get("scalar", False) for s in e.free_symbols)

    def windows(self, p, depth):
        """c0 + sum c_i * windowsum(x_i, w) with a common window as a sum of one pointwise expression"""
        groups = {}
        for s in p.free_symbols:
            o = self.op(s)
            if o[0] in ("rollsum", "ewmmean", "redsum", "sum"):
                groups.setdefault((o, tuple(self.nf.info[s]["args"][1:])), []).append(s)
        for (o, ex), ss in groups.items():
            P = sp.Poly(p, *ss)
            if P.total_degree() != 1:
                continue
            inner, rest = 0, 0
            for m, c in P.terms():
                if sum(m) == 0:
                    rest = c
                else:
                    x = self.nf.info[ss[m.index(1)]]["args"][0]
                    if not self.scal(c):
                        inner = None
                        break
                    inner += c * x
            if inner is None:
                continue
            if rest != 0 and o[0] == "rollsum" and self.scal(rest):
                inner, rest = inner + rest / ex[0], 0
            elif rest != 0 and o[0] == "ewmmean" and self.scal(rest):
                inner, rest = inner + rest, 0
            if self.alg(sp.factor(inner), depth + 1) and (rest == 0 or self.poly(sp.expand(rest), depth + 1)):
                return True
        return False

    def poly(self, p, depth):
        """p >= 0 for a polynomial over atoms"""
        if p.is_Number:
            return p >= 0
        f = sp.factor(p)
        if f.is_Mul or f.is_Pow:
            sgn = 1
            ok = True
            for g in sp.Mul.make_args(f):
                b, x = g.as_base_exp()
                if x.is_Integer and x % 2 == 0:
                    continue
                if b == p:
                    ok = False
                    break
                if b.is_Number:
                    sgn *= 1 if b >= 0 else -1
                elif self.poly1(sp.expand(b), depth):
                    pass
                elif self.poly1(sp.expand(-b), depth):
                    sgn = -sgn
                else:
                    ok = False
                    break
            if ok and sgn > 0:
                return True
        return self.poly1(p, depth)

    def poly1(self, p, depth):
        if p.is_Number:
            return p >= 0
        if depth > 8:
            return False
        for r in (p, self.shifted_exp(p), self.extremes(p)):
            if r is not None and self.bernstein(sp.expand(r), depth):
                return True
        return self.windows(p, depth)

    def shifted_exp(self, p):
        """exp(A) = 1 + E with E >= 0 when A >= 0; exp(A) = 1 - E, E in [0,1] when A <= 0"""
        sub = {}
        for s in p.free_symbols:
            if self.op(s)[0] == "exp":
                A = self.nf.info[s]["args"][0]
                if self.alg(A, 4):
                    sub[s] = 1 + self.fresh("E", s, (0, INF))
                elif self.alg(-A, 4):
                    sub[s] = 1 - self.fresh("E", s, (0, 1))
        return p.subs(sub) if sub else None

    def extremes(self, p):
        """max over a window = min over the same window + D, D >= 0; and both bound the current value"""
        mx = [s for s in p.free_symbols if self.op(s)[:2] == ("rollext", "max")]
        sub = {}
        for s in mx:
            for t in p.free_symbols:
                if self.op(t)[:2] == ("rollext", "min") and self.nf.info[t]["args"] == self.nf.info[s]["args"]:
                    sub[s] = t + self.fresh("D", s, (0, INF))
        return p.subs(sub) if sub else None

    def fresh(self, tag, s, rng):
        z = Symbol(f"{tag}_{s}", real=True)
        self.nf.info[z] = dict(op=("range", rng), args=[], scalar=self.nf.info[s]["scalar"])
        return z

    def range(self, s, depth):
        o = self.op(s)
        if o[0] == "range":
            return o[1]
        if o[0] == "sym":
            for nid, r in SYMRANGE.items():
                x = ir._nodes[nid]
                if x.op == "sym" and tuple(x.args) == tuple(o[1:]):
                    return r
        a = self.nf.info.get(s, {}).get("args", [])
        if o[0] in ("absval", "relu", "exp", "rollvar", "ewmvar", "redvar", "root", "count"):
            return (0, INF)
        if o[0] in ("ind", "truth", "bool", "isnan", "tcdf"):
            return (0, 1)
        if o[0] == "pi":
            return (math.pi, math.pi)
        if o[0] == "log" and a and a[0].is_Number and a[0] > 0:
            v = sp.N(sp.log(a[0]), 30)
            return (float(v), float(v))
        if s.is_positive:
            return (0, INF)
        if o[0] == "shift":
            return self.range(a[0], depth) if a[0].is_Symbol else (0, INF) if self.alg(a[0], depth + 1) else (-INF, INF)
        if o[0] in ("rollext", "lift", "redext") and self.alg(a[0], depth + 1):
            return (0, INF)
        if o[0] in ("rollsum", "ewmmean", "sum", "redsum") and self.alg(a[0], depth + 1):
            return (0, INF)
        if o[0] in ("rowmax", "rowmin", "maximum", "minimum") and all(self.alg(x, depth + 1) for x in a):
            return (0, INF)
        if o[0] == "ite":
            if all(self.branch(a[0], x, pol, depth) for x, pol in ((a[1], True), (a[2], False))):
                return (0, INF)
        return (-INF, INF)

    def branch(self, c, x, pol, depth):
        if self.alg(x, depth + 1):
            return True
        if pol and c.is_Symbol and self.op(c)[0] == "ind" and self.op(c)[1] in ("gt", "ge"):
            g = self.nf.info[c]["args"][0]
            r = self.nf.canon(x / g)
            return self.alg(r, depth + 1) or self.alg(sp.expand(x - g), depth + 1)
        return False

    def bernstein(self, p, depth):
        unit, half, free = [], [], []
        sub = {}
        absargs = []
        for s in sorted(p.free_symbols, key=str):
            lo, hi = self.range(s, depth)
            if lo == hi and abs(lo) != INF:
                # a known constant: kept inside a narrow rational interval
                r = Rational(repr(lo))
                eps = Rational(1, 10 ** 12)
                u = Symbol(f"u_{s}", real=True)
                sub[s] = r - eps + 2 * eps * u
                unit.append(u)
            elif lo > -INF and hi < INF:
                u = Symbol(f"u_{s}", real=True)
                sub[s] = Rational(repr(lo)) + (Rational(repr(hi)) - Rational(repr(lo))) * u
                unit.append(u)
                
            elif lo > -INF:
                z = Symbol(f"z_{s}", real=True)
                sub[s] = z + (Rational(repr(float(lo))) if lo > 1e-200 else 0)
                half.append(z)
            elif hi < INF:
                z = Symbol(f"z_{s}", real=True)
                sub[s] = Rational(repr(float(hi))) - z
                half.append(z)
            else:
                free.append(s)
            if self.op(s)[0] == "absval" and p.is_polynomial(s) and sp.degree(p, s) == 1 and self.nf.info[s]["args"][0].is_polynomial():
                absargs.append(s)
        if absargs and len(absargs) <= 3:
            # a linear occurrence of |A| lies between its two signs: p is linear in it, so test A and -A when its coefficient is negative
            s = absargs[0]
            A = self.nf.info[s]["args"][0]
            c = sp.Poly(p, s).coeff_monomial(s)
            if self.poly(sp.expand(-c), depth + 1):
                return self.poly(sp.expand(p.subs(s, A)), depth + 1) and self.poly(sp.expand(p.subs(s, -A)), depth + 1)
        if len(unit) > 6 or sp.count_ops(p) > 4000:
            return False
        q = sp.expand(p.subs(sub))
        vs = half + free
        P = sp.Poly(q, *vs) if vs else None
        terms = P.terms() if P is not None else [((), q)]
        for m, c in terms:
            odd = any(k % 2 for k, v in zip(m[len(half):], free))
            if odd:
                return self.squares(q, vs, half, free, unit)
            if not self.unitpoly(c, unit):
                return False
        return True

    def squares(self, q, vs, half, free, unit):
        return False

    def unitpoly(self, c, unit):
        us = [u for u in unit if c.has(u)]
        if not us:
            return c.is_Number and c >= 0
        P = sp.Poly(c, *us)
        deg = [P.degree(u) for u in us]
        if math.prod(d + 1 for d in deg) > 3000:
            return False
        co = {m: k for m, k in P.terms()}
        for idx in itertools.product(*[range(d + 1) for d in deg]):
            b = 0
            for m, k in co.items():
                if all(j <= i for j, i in zip(m, idx)):
                    w = Integer(1)
                    for j, i, d in zip(m, idx, deg):
                        w *= Rational(math.comb(i, j), math.comb(d, j))
                    b += k * w
            if b < 0:
                return False
        return True
