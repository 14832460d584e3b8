"""Algebraic normal form / congruence for value-graph terms (global value numbering).

`NF.expr(node)` maps a term to a rational expression (sympy) over *atoms*.  An atom
stands for one application of a non-rational operator (log, rolling mean, where ...);
two applications get the same atom iff their arguments are equal in the rational
normal form (congruence closure by deciding polynomial identities), after the
operator's algebraic laws (linearity, homogeneity, commutation with shift, parity)
were applied.  `same(a, b)` decides equality of two terms in this theory; nothing is
ever evaluated at sample points.
"""

from __future__ import annotations

import functools
import math

import sympy as sp
from sympy import Rational, Integer, Symbol

from . import ir
from .ir import Node, const, is_const, ARRAYISH, NUMERIC
from . import shape as sh
from .shape import shape, ndim, is_boolmask

CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
TRANSPARENT = {"values", "mkseries", "cast", "copy", "indexed", "asfloat"}
ELEMENTWISE = {"add", "sub", "mul", "truediv", "neg", "pow", "exp", "log", "abs", "sign", "maximum", "minimum", "where", "swhere", "lt", "le", "gt", "ge", "eq", "ne", "band", "bor", "binv", "isnan", "fillna"}
KNOWN = {"const", "sym", "pi", "nan", "add", "sub", "mul", "truediv", "neg", "pow", "exp", "log", "abs", "sign", "maximum", "minimum", "rowmax", "rowmin", "rowsum", "rowmean",
         "where", "swhere", "phi", "lt", "le", "gt", "ge", "eq", "ne", "band", "bor", "binv", "not", "and", "or", "isnan", "shift", "roll", "ewm", "red", "fillna",
         "values", "mkseries", "cast", "copy", "tuple", "list", "T", "diag", "matmul", "outer", "draw", "store", "slice", "idx", "getitem", "col", "dim", "zeros", "ones", "comp", "none", "tcdf", "bfill", "ffill", "redna", "bv", "scan", "scanpart", "vcat", "acc", "repeat", "any"}


class Budget(Exception):
    pass


class _NoRing(Exception):
    pass


def rowlike(x):
    """one row (or one number) that broadcasts over the rows of a matrix"""
    s = shape(x) if x.kind in ARRAYISH else ()
    return s is not None and all(is_const(d, 1) for d in s[:-1])


LAYOUT = {}


def layout(n):
    """layout operators (reshape to paths, tile, row selection, row stacking) pushed below elementwise operators"""
    r = LAYOUT.get(n.id)
    if r is None:
        r = _layout(n)
        LAYOUT[n.id] = r
    return r


def _layout(n):
    from .m_core import uniform, node_getitem, mkreshape, vcat
    op, a = n.op, n.args
    if n.kind != "ndarray":
        return n
    if op == "assignall" and rowlike(n) and shape(n) is not None and a[1].kind in ARRAYISH and rowlike(a[1]) and shape(a[1])[-1:] == shape(n)[-1:]:
        return a[1]
    if op == "repeat" and rowlike(a[0]) and shape(a[0]) is not None and (is_const(a[2], None) or len(shape(a[0])) == 1 or is_const(a[2], 1, -1)):
        if is_const(a[1], 1):
            return a[0]
        if is_const(shape(a[0])[-1], 1):
            return ir.N("tile", a[0], a[1], kind="ndarray")
    if op in ("array0", "tile", "repeat", "reshape", "flatten") or op == "assignall" and rowlike(n):
        u = uniform(n)
        if u is not None:
            return u
    if op == "getitem" and ndim(a[0]) == 2 and is_const(shape(a[0])[1], 1) and len(a[1].args) == 2 and ir.show(a[1].args[0]) == "slice(None,None,None)" and is_const(a[1].args[1], 0, -1):
        return layout(ir.N("flatten", a[0], kind="ndarray"))
    if op in ("reshape", "flatten") and a[0].op == "assignall" and ndim(n) == 1 and ndim(a[0]) == 2 and a[0].args[1].kind in ARRAYISH and rowlike(a[0].args[1]) and shape(a[0].args[1])[-1] is shape(a[0])[1]:
        # one row repeated down a matrix, read row by row
        return layout(ir.N("tile", ir.N("flatten", a[0].args[1], kind="ndarray"), shape(a[0])[0], kind="ndarray"))
    if op == "flatten" and shape(a[0]) is not None and rowlike(a[0]):
        return a[0]
    if op == "reshape" and shape(a[0]) is not None and rowlike(a[0]) and shape(n) is not None and rowlike(n):
        return a[0]
    if op == "getitem" and a[0].op == "arange" and is_const(a[0].args[2], 1) and ir.show(a[1]) == "idx(slice(None,None,-1))":
        lo, hi = a[0].args[:2]
        return ir.N("sub", sh.isub(hi, const(1)), ir.N("arange", const(0), sh.isub(hi, lo), const(1), kind="ndarray"), kind="ndarray")
    if op == "getitem" and ndim(a[0]) == 1 and len(a[1].args) in (1, 2) and is_const(a[1].args[0], None) and (len(a[1].args) == 1 or ir.show(a[1].args[1]) == "slice(None,None,None)"):
        return a[0]
    if op in ("tile", "repeat", "reshape", "getitem", "cum") and isinstance(a[0] if op != "cum" else a[1], Node):
        x = a[0] if op != "cum" else a[1]
        x2 = layout(x) if x.op in ("tile", "reshape", "getitem", "flatten", "cum") or x.op in ELEMENTWISE else x
        if op == "cum":
            if x2.op == "vcat" and a[0] == "sum" and is_const(a[2], 0):
                r, rest = x2.args
                return ir.N("vcat", r, ir.N("add", r, ir.N("cum", "sum", rest, a[2], kind="ndarray"), kind="ndarray"), kind="ndarray")
            return n if x2 is x else layout(ir.N("cum", a[0], x2, *a[2:], kind=n.kind))
        if op == "getitem" and x2.op == "vcat":
            return node_getitem(x2, a[1])
        s0, sn = shape(x2), shape(n)
        if x2.op in ELEMENTWISE and s0 is not None and sn is not None and x2.kind == "ndarray":
            new = []
            for y in x2.args:
                if not isinstance(y, Node):
                    return n
                if y.kind not in ARRAYISH or uniform(y) is not None:
                    new.append(y if y.kind not in ARRAYISH else uniform(y))
                    continue
                sy = shape(y)
                if sy is None:
                    return n
                if op in ("tile", "repeat") and rowlike(y) and rowlike(x2) and sy[-1] is s0[-1]:
                    new.append(ir.N(op, y, *a[1:], kind="ndarray"))
                elif op == "reshape" and len(s0) == 2 and len(sn) == 2:
                    k = sh.idiv(sn[1], s0[1])
                    if sh.imul(k, s0[1]) is not sn[1]:
                        return n
                    if sy == s0:
                        new.append(mkreshape(y, sn))
                    elif rowlike(y) and sy[-1] is s0[-1]:
                        new.append(y if is_const(k, 1) else ir.N("tile", y, k, kind="ndarray"))
                    else:
                        return n
                elif op == "getitem" and len(s0) == 2 and len(a[1].args) == 1 and (a[1].args[0].kind == "int" or a[1].args[0].op == "slice"):
                    if sy == s0:
                        new.append(node_getitem(y, a[1]))
                    elif rowlike(y) and sy[-1] is s0[-1]:
                        new.append(y)
                    else:
                        return n
                else:
                    return n
            return layout(ir.N(x2.op, *new, kind=n.kind))
        if x2 is not x:
            return layout(ir.N(op, x2, *a[1:], kind=n.kind))
        if op == "tile" and x.op == "flatten":
            return n
        return n
    if op in ELEMENTWISE:
        ys = [layout(y) if isinstance(y, Node) and (y.op == "cum" or y.op in ELEMENTWISE) else y for y in a]
        vs = [y for y in ys if isinstance(y, Node) and y.op == "vcat"]
        if vs:
            parts = []
            for i in (0, 1):
                new = []
                for y in ys:
                    if isinstance(y, Node) and y.op == "vcat":
                        new.append(y.args[i])
                    elif isinstance(y, Node) and rowlike(y):
                        new.append(y)
                    else:
                        return n
                parts.append(new)
            k0 = "ndarray" if any(isinstance(y, Node) and y.kind in ARRAYISH for y in parts[0]) else "float"
            return ir.N("vcat", ir.N(op, *parts[0], kind=k0), ir.N(op, *parts[1], kind="ndarray"), kind="ndarray")
    return n


FINITE = ("add", "sub", "mul", "neg", "abs", "maximum", "minimum", "T", "setdiag", "setdiag0", "values", "getitem", "exp", "red", "where", "triu", "tril", "flatten", "ravel", "reshape")


def total(x):
    """finite wherever its inputs are"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if not isinstance(y, ir.Node) or id(y) in seen:
            continue
        seen.add(id(y))
        if y.op in ("sym", "const", "draw", "zeros", "dim", "len", "idx", "slice", "tuple", "iter", "ix") or y.op in CMP or y.kind in ("int", "bool", "str", "none"):
            continue
        if y.op in FINITE or y.op == "f" and str(y.args[0]) in ("numpy.triu", "numpy.tril") or y.op == "pow" and y.args[1].op == "const" and isinstance(y.args[1].args[0], (int, float)) and y.args[1].args[0] > 0:
            todo.extend(y.args)
            continue
        return False
    return True


def single_column(x):
    s = shape(x)
    return s is not None and len(s) == 2 and is_const(s[1], 1)


class NF:
    def __init__(self, positive=None, expand_var=False, nanfree=False):
        self.expand_var = expand_var
        self.nanfree = nanfree     # scalars compared are numbers, so not(a <= b) is a > b
        self._ge = None
        self.memo = {}
        self.atoms = {}      # key -> list of (args exprs, Symbol)
        self.info = {}       # Symbol -> dict(op, args, scalar, key)
        self.rules = {}      # Symbol -> (q, expr): sym**q == expr
        self.expsyms = {}    # Symbol -> exponent expr
        self.order = {}
        self.positive = positive or (lambda n: False)
        self.unknown = set()
        self.eqmemo = {}

    # ------------------------------------------------------------ basics
    def num(self, v):
        if isinstance(v, bool):
            return Integer(int(v))
        if isinstance(v, int):
            return Integer(v)
        if math.isinf(v) or math.isnan(v):
            return self.atom(("const", repr(v)), [], scalar=True)
        return Rational(repr(v))

    def new_symbol(self, name, positive, scalar, op, args):
        s = Symbol(f"{name}_{len(self.info)}", positive=True) if positive else Symbol(f"{name}_{len(self.info)}", real=True)
        self.info[s] = dict(op=op, args=args, scalar=scalar)
        self.order[s] = len(self.order)
        return s

    def atom(self, key, args, scalar=False, positive=False, commutative=False):
        lst = self.atoms.setdefault(key, [])
        for a2, s in lst:
            if len(a2) != len(args):
                continue
            if all(self.eq(x, y) for x, y in zip(args, a2)):
                return s
            if commutative and len(args) == 2 and self.eq(args[0], a2[1]) and self.eq(args[1], a2[0]):
                return s
        nm = str(key[0] if isinstance(key, tuple) else key)
        s = self.new_symbol("".join(ch for ch in nm if ch.isalnum()) or "a", positive, scalar, key, list(args))
        lst.append((list(args), s))
        return s

    def scalar(self, e):
        return all(self.info[s]["scalar"] for s in e.free_symbols)

    def canon(self, e):
        """rational normal form p/q with radical and idempotent rules applied"""
        e = sp.sympify(e)
        if e.is_Symbol or e.is_Number:
            return e
        return self.reduce(e)

    def reduce(self, e):
        for _ in range(12):
            syms = [s for s in e.free_symbols if s in self.rules]
            if not syms:
                return sp.cancel(e) if not e.is_polynomial() else sp.expand(e)
            n, d = sp.fraction(sp.together(e))
            n2, d2 = self.reduce_poly(n), self.reduce_poly(d)
            e2 = sp.cancel(n2 / d2)
            if e2 == e:
                return e2
            e = e2
        return e

    def reduce_poly(self, p):
        p = sp.expand(p)
        for s in sorted((x for x in p.free_symbols if x in self.rules), key=lambda x: -self.order[x]):
            q, r = self.rules[s]
            P = sp.Poly(p, s)
            out = 0
            for (k,), c in P.terms():
                out += c * s ** (k % q) * r ** (k // q) if r.has(s) is False else c * self._idem(s, k, q, r)
            p = sp.expand(out)
            if not p.is_polynomial(*p.free_symbols) and p.free_symbols:
                break
        return p

    def _idem(self, s, k, q, r):
        # rule s**2 == s*u  (u free of s)
        if k < q:
            return s ** k
        u = sp.cancel(r / s)
        return s * u ** (k - 1)

    def is_zero(self, d):
        if d == 0:
            return True
        if d.is_number:
            return sp.simplify(d) == 0
        try:
            return self.ring_zero(d)
        except _NoRing:
            return self.is_zero_slow(d)

    def rule_closure(self, syms):
        out, todo = set(syms), list(syms)
        while todo:
            s = todo.pop()
            if s in self.rules:
                for t in self.rules[s][1].free_symbols:
                    if t not in out:
                        out.add(t)
                        todo.append(t)
        return out

    def ring_conv(self, d):
        syms = sorted(self.rule_closure(d.free_symbols), key=lambda s: self.order.get(s, -1))
        R = sp.polys.rings.ring([str(s) for s in syms], sp.QQ)[0]
        gen = dict(zip(syms, R.gens))
        memo = {}

        def conv(e):
            r = memo.get(e)
            if r is None:
                r = memo[e] = conv_(e)
            return r

        def mulden(x, y):
            z = dict(x)
            for k, v in y.items():
                z[k] = z.get(k, 0) + v
            return z

        def poly_of(den):
            p = R.one
            for k, v in den.items():
                p = p * k ** v
            return p

        def conv_(e):
            if e.is_Symbol:
                return gen[e], {}
            if e.is_Rational:
                return R(sp.QQ(int(e.p), int(e.q))), {}
            if e.is_Add:
                parts = [conv(x) for x in e.args]
                den = {}
                for _, dn in parts:
                    for k, v in dn.items():
                        den[k] = max(den.get(k, 0), v)
                num = R.zero
                for n_, dn in parts:
                    f = n_
                    for k, v in den.items():
                        m = v - dn.get(k, 0)
                        if m:
                            f = f * k ** m
                    num = num + f
                return num, den
            if e.is_Mul:
                num, den = R.one, {}
                for x in e.args:
                    n_, dn = conv(x)
                    num = num * n_
                    den = mulden(den, dn)
                return num, den
            if e.is_Pow and e.exp.is_Integer:
                k = int(e.exp)
                n_, dn = conv(e.base)
                if k >= 0:
                    return n_ ** k, {p: v * k for p, v in dn.items()}
                k = -k
                num = poly_of(dn) ** k
                if n_.is_ground:
                    return num * R(sp.QQ(1) / n_.coeff(1) ** k), {}
                # monomial content is split off so that common factors are recognised
                c, prim = n_.primitive()
                return num * R(sp.QQ(1) / c ** k), {prim: k}
            raise _NoRing(str(type(e)))

        return syms, R, gen, conv, poly_of

    def nterms(self, e):
        """number of terms of the reduced fraction: a representation-independent size"""
        if sp.count_ops(e) < 12:
            return 1
        try:
            syms, R, gen, conv, poly_of = self.ring_conv(e)
            n, dn = conv(e)
            n, _ = self.ring_reduce(n, syms, R, gen, conv, poly_of)
            if n == 0:
                return 1
            d = poly_of(dn)
            if len(d) > 1 or d != R.one:
                n, d = n.cancel(d)
            return len(n) + len(d)
        except _NoRing:
            return sp.count_ops(e)

    def ring_zero(self, d):
        """polynomial identity test in a sparse polynomial ring, radicals and 0/1 atoms reduced by their defining relations"""
        syms, R, gen, conv, poly_of = self.ring_conv(d)
        num, _ = conv(d)
        num, _ = self.ring_reduce(num, syms, R, gen, conv, poly_of)
        return num == 0

    def ring_reduce(self, num, syms, R, gen, conv, poly_of):
        for _ in range(60):
            if num == 0:
                return num, True
            ruled = [s for i, s in enumerate(syms) if s in self.rules and any(m[i] >= self.rules[s][0] for m in num.keys())]
            if not ruled:
                return num, True
            s = max(ruled, key=lambda x: self.order[x])
            q, r = self.rules[s]
            i = syms.index(s)
            g = gen[s]
            groups = {}
            for m, c in num.terms():
                k = m[i]
                m2 = m[:i] + (0,) + m[i + 1:]
                groups.setdefault(k, []).append((m2, c))
            if r.has(s):
                u, ud = conv(sp.cancel(r / s))
                if ud:
                    raise _NoRing("idempotent rule with denominator")
                new = R.zero
                for k, ts in groups.items():
                    p = R.from_terms(ts)
                    new = new + (p * g ** k if k < q else p * g * u ** (k - 1))
            else:
                rn, rd = conv(r)
                D = poly_of(rd)
                top = max(k // q for k in groups)
                new = R.zero
                for k, ts in groups.items():
                    p = R.from_terms(ts)
                    new = new + p * g ** (k % q) * rn ** (k // q) * D ** (top - k // q)
            num = new
            if len(num) > 60000:
                raise Budget("polynomial too large")
        return num, False

    def is_zero_slow(self, d):
        n, _ = sp.fraction(sp.together(d))
        for _ in range(8):
            n = sp.expand(n)
            if n == 0:
                return True
            syms = [s for s in n.free_symbols if s in self.rules]
            if not syms:
                return False
            m = self.reduce_poly(n)
            m, _ = sp.fraction(sp.together(m))
            m = sp.expand(m)
            if m == 0:
                return True
            if m == n:
                return False
            n = m
        return False

    def eq(self, a, b):
        if a is b or a == b:
            return True
        if a.is_Number and b.is_Number:
            return False
        k = (a, b)
        r = self.eqmemo.get(k)
        if r is None:
            if a.free_symbols != b.free_symbols and not any(s in self.rules for s in a.free_symbols | b.free_symbols):
                # atoms are algebraically independent: cancel, then compare supports
                a2, b2 = sp.cancel(a), sp.cancel(b)
                r = a2 == b2 if a2.free_symbols != b2.free_symbols else self.is_zero(a2 - b2)
            else:
                r = self.is_zero(a - b)
            self.eqmemo[k] = r
        return r

    def ratio(self, a, b):
        """rational number c with a == c*b, else None"""
        if b == 0 or a == 0:
            return None
        if a.free_symbols != b.free_symbols:
            return None
        r = self.canon(a / b)
        return r if r.is_Rational else None

    def nonneg(self, e):
        """e >= 0 syntactically (positive symbols, squares, non-negative coefficients)"""
        if e.is_Number:
            return e >= 0
        if e.is_Symbol:
            return bool(e.is_positive) or self.info.get(e, {}).get("nonneg", False)
        if e.is_Pow:
            if e.exp.is_Integer and e.exp % 2 == 0:
                return True
            return self.nonneg(e.base)
        if e.is_Add and all(self.nonneg(x) for x in e.args):
            return True
        if e.is_Add:
            v = self.relu_values(e)
            return self.affine_lo(e) >= 0 or v is not None and all(self.nonneg(x) for x in v)
        if e.is_Mul:
            return all(self.nonneg(x) for x in e.args)
        return False

    def relu_values(self, e):
        """the two values of r + c*relu(d): r, and r + c*d"""
        rs = [s for s in e.free_symbols if self.info.get(s, {}).get("op") == ("relu",)]
        if len(rs) != 1 or not e.is_polynomial(rs[0]) or sp.degree(e, rs[0]) != 1:
            return None
        c = e.coeff(rs[0])
        r = sp.expand(e - c * rs[0])
        if not c.is_Number or rs[0] in r.free_symbols:
            return None
        return [r, self.canon(r + c * self.info[rs[0]]["args"][0])]

    def affine_lo(self, e):
        """lower bound of an affine form in symbols with known integer lower bounds"""
        tot = 0
        for t in e.args:
            c, x = t.as_coeff_Mul()
            if x is sp.S.One:
                tot += c
            elif x.is_Symbol and c > 0 and "lo" in self.info.get(x, {}):
                tot += c * self.info[x]["lo"]
            else:
                return -1
        return tot

    # ------------------------------------------------------------ operators
    def f_root(self, e, q):
        """principal q-th root"""
        e = self.canon(e)
        if e == 0:
            return Integer(0)
        n, d = sp.fraction(sp.together(e))
        out, rem = Integer(1), Integer(1)
        for part, sgn in ((n, 1), (d, -1)):
            c, fl = sp.factor_list(part)
            fl = list(fl)
            if c < 0:
                rem *= 1 if self.nanfree and q == 2 else -1
                c = -c
            if c != 1:
                cn, cd = sp.fraction(sp.nsimplify(c))
                for pr, k in sp.factorint(int(cn)).items():
                    fl.append((Integer(pr), k))
                for pr, k in sp.factorint(int(cd)).items():
                    fl.append((Integer(pr), -k))
            for f, k in fl:
                k = k * sgn
                if self.nanfree and k % 2 and self.info.get(f, {}).get("op") == ("absval",):
                    f = self.info[f]["args"][0]
                if self.nonneg(f) or q % 2 == 1 and False:
                    a, b = divmod(k, q)
                    out *= f ** a
                    if b:
                        out *= self.root_atom(f, q) ** b
                elif self.nonneg(-f) and f.is_Number is False:
                    a, b = divmod(k, q)
                    if k % 2 == 0:
                        out *= (-f) ** a
                        if b:
                            out *= self.root_atom(-f, q) ** b
                    else:
                        rem *= f ** k
                elif k % q == 0:
                    m = k // q
                    out *= (self.f_abs(f) if m % 2 else f) ** m if q % 2 == 0 else f ** m
                elif self.nanfree and q == 2 and k % 2:
                    # where both sides are defined, sqrt(a/b) is sqrt|a|/sqrt|b|
                    f = next((y for y in (f, -f) if any(self.eq(a2[0], y) for a2, _ in self.atoms.get(("root", q), []))), f)
                    out *= self.root_atom(f, q) * self.f_abs(f) ** (k // 2) if k // 2 else self.root_atom(f, q)
                else:
                    rem *= f ** k
        rem = sp.cancel(rem)
        if rem != 1:
            out *= self.root_atom(rem, q)
        return out

    def root_atom(self, f, q):
        s = self.atom(("root", q), [f], scalar=self.scalar(f), positive=self.nonneg(f))
        if s not in self.rules:
            self.rules[s] = (q, self.f_abs(f) if self.nanfree and q == 2 and not self.nonneg(f) else f)
            self.info[s]["nonneg"] = True
        return s

    def f_pow(self, b, e):
        if e.is_Integer:
            if e < 0 and b == 0:
                return self.atom(("inf",), [], scalar=True)
            return b ** e
        if e.is_Rational:
            r = self.f_root(b, int(e.q))
            return r ** int(e.p)
        if b.is_Number and b > 0 or self.nonneg(b):
            return self.f_exp(e * self.f_log(b))
        return self.atom(("pow",), [b, e], scalar=self.scalar(b) and self.scalar(e))

    def f_exp(self, e):
        e = sp.expand(self.canon(e))
        out = Integer(1)
        for t in sp.Add.make_args(e):
            c, m = t.as_coeff_Mul()
            if m == 1:
                if c == 0:
                    continue
                if c.is_Integer:
                    out *= self.exp_atom(Integer(1)) ** c
                else:
                    out *= self.exp_atom(Integer(1) / c.q) ** c.p
                continue
            if m.is_Symbol and self.info[m]["op"] == ("log",) and c.is_Rational:
                out *= self.f_pow(self.info[m]["args"][0], c)
                continue
            if not c.is_Rational:
                c, m = Integer(1), t
            if c.is_Integer:
                out *= self.exp_frac(m, 1) ** c
            else:
                out *= self.exp_frac(m, c.q) ** c.p
        return out

    def exp_frac(self, m, q):
        """exp(m/q), tied to the powers exp(m/q') already in use"""
        known = [(int(a2[0].as_coeff_Mul()[0].q), s) for a2, s in self.atoms.get(("exp",), []) if a2[0].as_coeff_Mul()[1] == m and a2[0].as_coeff_Mul()[0].is_Rational and a2[0].as_coeff_Mul()[0].p == 1]
        for k, s in sorted(known, key=lambda t: t[0]):
            if k % q == 0:
                return s ** (k // q)
        new = self.exp_atom(m / q)
        below = [(k, s) for k, s in known if q % k == 0]
        if below:
            k, s = max(below, key=lambda t: t[0])
            self.rules[new] = (q // k, s)
        return new

    def exp_atom(self, m):
        s = self.atom(("exp",), [m], scalar=self.scalar(m), positive=True)
        self.expsyms[s] = m
        return s

    def f_log(self, e):
        e = self.canon(e)
        n, d = sp.fraction(sp.together(e))
        out, rem = Integer(0), Integer(1)
        for part, sgn in ((n, 1), (d, -1)):
            c, fl = sp.factor_list(part)
            if c < 0:
                rem = -rem
                c = -c
            if c != 1:
                cn, cd = sp.fraction(sp.nsimplify(c))
                for v, s2 in ((cn, 1), (cd, -1)):
                    for pr, k in sp.factorint(int(v)).items():
                        out += sgn * s2 * k * self.atom(("log",), [Integer(pr)], scalar=True, positive=True)
            for f, k in fl:
                k = k * sgn
                if f in self.expsyms:
                    out += k * self.expsyms[f]
                elif f in self.rules and self.info[f]["op"][0] == "root" and self.nonneg(self.rules[f][1]):
                    q, b = self.rules[f]
                    out += Rational(k, q) * self.f_log(b)
                elif self.nonneg(f):
                    out += k * self.atom(("log",), [f], scalar=self.scalar(f))
                else:
                    rem *= f ** k
        rem = sp.cancel(rem)
        if rem != 1:
            out += self.atom(("log",), [rem], scalar=self.scalar(rem))
        return out

    def f_relu(self, d):
        """max(d, 0) (NaN-propagating)"""
        d = self.canon(d)
        if d.is_Number:
            return d if d > 0 else Integer(0)
        if self.nonneg(d):
            return d
        if self.nonneg(-d):
            return Integer(0)
        for a2, s in self.atoms.get(("relu",), []):
            c = self.ratio(d, a2[0])
            if c is not None:
                return c * s if c > 0 else (-c) * (s - a2[0])
        s = self.atom(("relu",), [d], scalar=self.scalar(d))
        self.info[s]["nonneg"] = True
        self.rules[s] = (2, s * d)
        return s

    def f_abs(self, d):
        d = self.canon(d)
        if self.nonneg(d):
            return d
        if self.nonneg(-d):
            return -d
        # multiplicative: |a*b| = |a||b|
        n, dd = sp.fraction(sp.together(d))
        out = Integer(1)
        parts = []
        for part, sgn in ((n, 1), (dd, -1)):
            c, fl = sp.factor_list(part)
            out *= abs(c) ** sgn
            parts += [(f, k * sgn) for f, k in fl]
        for f, k in parts:
            if self.nonneg(f):
                out *= f ** k
            elif k % 2 == 0:
                out *= f ** k
            else:
                a = self.abs_atom(f)
                out *= f ** (k - 1) * a if k > 0 else f ** (k + 1) / a
        return out

    def abs_atom(self, f):
        for a2, s in self.atoms.get(("absval",), []):
            c = self.ratio(f, a2[0])
            if c is not None:
                return abs(c) * s
        s = self.atom(("absval",), [f], scalar=self.scalar(f))
        self.rules[s] = (2, sp.expand(f ** 2))
        self.info[s]["nonneg"] = True
        return s

    def f_sign(self, d):
        d = self.canon(d)
        if d.is_Number:
            return sp.sign(d)
        for a2, s in self.atoms.get(("sign",), []):
            c = self.ratio(d, a2[0])
            if c is not None:
                return s if c > 0 else -s
        return self.atom(("sign",), [d], scalar=self.scalar(d))

    def f_max(self, a, b):
        if self.eq(a, b):
            return a
        d = self.canon(b - a)
        r = self.f_relu(d)
        return a + r

    def f_min(self, a, b):
        return -self.f_max(-a, -b)

    def f_ind(self, kind, d):
        """truth of  d > 0 ('gt'), d >= 0 ('ge'), d == 0 ('eq') as a 0/1 atom"""
        d = self.canon(d)
        if d.is_Number:
            return Integer(int({"gt": d > 0, "ge": d >= 0, "eq": d == 0}[kind]))
        if kind == "eq" and self.scalar(d) and self.nterms(d) <= self.BIG:
            n, den = sp.fraction(sp.together(d))
            fl = sp.factor_list(n)[1]
            if len(fl) > 1 and self.positive_expr(den):
                # a product is zero when one of its factors is
                return self.canon(1 - sp.prod([1 - self.f_ind("eq", f) for f, k in fl]))
        for a2, s in self.atoms.get(("ind", kind), []):
            c = self.ratio(d, a2[0])
            if c is not None and (c > 0 or kind == "eq"):
                return s
        s = self.atom(("ind", kind), [d], scalar=self.scalar(d))
        self.rules[s] = (2, s * Integer(1))
        self.info[s]["nonneg"] = True
        return s

    def int_ind(self, d):
        """d > 0 for integer d, with one atom for d > 0 and its complement -d + 1 > 0"""
        d = self.canon(d)
        for a2, s in self.atoms.get(("ind", "gt"), []):
            if self.canon(a2[0] - d) == 0:
                return s
            if self.canon(a2[0] + d - 1) == 0:
                return 1 - s
        return self.f_ind("gt", d)

    def cond(self, n):
        """0/1 expression for a boolean term"""
        if n.op in ("values", "mkseries", "cast", "bool"):
            return self.cond(n.args[0])
        if n.op == "const":
            return Integer(1 if n.args[0] else 0)
        if n.op in CMP:
            a, b = self.expr(n.args[0]), self.expr(n.args[1])
            if n.op in ("gt", "lt", "ge", "le") and n.args[0].kind in ("int", "bool") and n.args[1].kind in ("int", "bool"):
                d = self.canon(a - b if n.op in ("gt", "ge") else b - a)
                return self.int_ind(d if n.op in ("gt", "lt") else d + 1)
            if self.nanfree and n.op in ("ge", "le") and n.kind not in ARRAYISH:
                return 1 - self.f_ind("gt", b - a if n.op == "ge" else a - b)
            if n.op == "gt":
                return self.f_ind("gt", a - b)
            if n.op == "lt":
                return self.f_ind("gt", b - a)
            if n.op == "ge":
                return self.f_ind("ge", a - b)
            if n.op == "le":
                return self.f_ind("ge", b - a)
            if n.op == "eq":
                return self.f_ind("eq", a - b)
            return 1 - self.f_ind("eq", a - b)
        if n.op in ("band", "and", "bor", "or", "binv", "not"):
            return self.from_bool(self.boolfn(n))
        if n.op == "isnan":
            s = self.atom(("isnan",), [self.expr(n.args[0])])
            self.rules[s] = (2, s)
            return s
        if n.op == "phi":
            c = self.cond(n.args[0])
            return self.canon(c * self.cond(n.args[1]) + (1 - c) * self.cond(n.args[2]))
        if n.op == "red" and n.args[0] in ("any", "all"):
            return self.quantified(n)
        return self.generic(n)

    def quantified(self, n):
        """any / all over an array: all(c) is not any(not c)"""
        name, x, ax = n.args[:3]
        if x.kind not in ARRAYISH or x.kind not in ("ndarray", "series"):
            return self.generic(n)
        c = self.cond(x) if is_boolmask(x) else 1 - self.f_ind("eq", self.expr(x))
        c = self.canon(c if name == "any" else 1 - c)
        if c.is_Number:
            r = Integer(0) if c == 0 else Integer(1)
        else:
            r = self.atom(("any", ir.show(ax)), [c], scalar=n.kind not in ARRAYISH)
            self.rules[r] = (2, r)
        return r if name == "any" else 1 - r

    # Boolean combinations: truth tables over 0/1 atoms
    def boolfn(self, n):
        """(vars, bits): bits[i] is the value under assignment i of vars"""
        if n.op in ("values", "mkseries", "cast", "bool"):
            return self.boolfn(n.args[0])
        if n.op in ("binv", "not"):
            v, t = self.boolfn(n.args[0])
            return v, tuple(not x for x in t)
        if n.op in ("band", "and", "bor", "or"):
            fs = [self.boolfn(x) for x in n.args]
            vs = []
            for v, _ in fs:
                for x in v:
                    if x not in vs:
                        vs.append(x)
            vs.sort(key=lambda x: self.order[x])
            if len(vs) > 10:
                raise Budget("boolean function of too many atoms")
            conj = n.op in ("band", "and")
            out = []
            for i in range(1 << len(vs)):
                val = {x: bool(i >> k & 1) for k, x in enumerate(vs)}
                rs = []
                for v, t in fs:
                    rs.append(t[sum(1 << k for k, x in enumerate(v) if val[x])])
                out.append(all(rs) if conj else any(rs))
            return self.bool_reduce(tuple(vs), tuple(out))
        e = self.canon(self.cond(n))
        if e.is_Number:
            return (), (bool(e != 0),)
        if e.is_Symbol:
            s, neg = e, False
        else:
            f = self.canon(1 - e)
            if f.is_Symbol:
                s, neg = f, True
            else:
                s, neg = self.atom(("truth",), [e], scalar=self.scalar(e)), False
                self.rules[s] = (2, s * Integer(1))
        op = self.info[s]["op"]
        if op[0] == "bool":
            v, t = tuple(self.info[s]["args"]), op[1]
            return v, tuple(x != neg for x in t)
        return (s,), ((False, True) if not neg else (True, False))

    def bool_reduce(self, vs, t):
        k = 0
        while k < len(vs):
            if all(t[i] == t[i ^ (1 << k)] for i in range(len(t))):
                idx = [i for i in range(len(t)) if not i >> k & 1]
                t = tuple(t[i] for i in idx)
                vs = vs[:k] + vs[k + 1:]
            else:
                k += 1
        return vs, t

    def from_bool(self, f):
        vs, t = f
        if not vs:
            return Integer(int(t[0]))
        if len(vs) == 1:
            return vs[0] if t[1] else 1 - vs[0]
        neg = t[0]
        if neg:
            t = tuple(not x for x in t)
        s = self.atom(("bool", t), list(vs), scalar=all(self.info[x]["scalar"] for x in vs))
        if s not in self.rules:
            self.rules[s] = (2, s * Integer(1))
            self.info[s]["nonneg"] = True
        return 1 - s if neg else s

    def f_ite(self, c, a, b):
        c = self.canon(c)
        if c == 1:
            return a
        if c == 0:
            return b
        if self.eq(a, b):
            return a
        # canonical polarity: the atom list remembers the first form seen
        a, b = self.abs_under(c, self.canon(a), self.canon(b))
        r = self.ite_laws(c, a, b)
        if r is not None:
            return r
        if r is None and self._ge is not None:
            c, self._ge = self._ge, None
        sc = self.scalar(c) and self.scalar(a) and self.scalar(b)
        for (c2, a2, b2), s in self.atoms.get(("ite",), []):
            for x, y, cc in ((a2, b2, c2), (b2, a2, 1 - c2)):
                if not self.eq(c, cc):
                    continue
                if self.eq(a, x) and self.eq(b, y):
                    return s
                # homogeneity: ite(c, k*a, k*b) == k*ite(c, a, b)
                k = self.ratio(a, x) if a != 0 and x != 0 else None
                k2 = self.ratio(b, y) if b != 0 and y != 0 else None
                if a == 0 and x == 0 and k2 is not None:
                    return k2 * s
                if b == 0 and y == 0 and k is not None:
                    return k * s
                if k is not None and k == k2:
                    return k * s
        s = self.atom(("ite",), [c, a, b], scalar=sc)
        if self.nonneg(a) and self.nonneg(b):
            self.info[s]["nonneg"] = True
        return s

    def abs_under(self, c, a, b):
        """|x| in a branch whose guard fixes the sign of x"""
        for cc, flip in ((c, False), (self.canon(1 - c), True)):
            if not cc.is_Symbol or self.info[cc]["op"][0] != "ind" or self.info[cc]["op"][1] not in ("gt", "ge"):
                continue
            D = self.info[cc]["args"][0]
            t, f = (b, a) if flip else (a, b)
            for s in (t.free_symbols | f.free_symbols):
                if self.info.get(s, {}).get("op") == ("absval",):
                    x = self.info[s]["args"][0]
                    k = self.ratio(x, D)
                    if k is not None and k.is_number and k != 0:
                        x = x if k > 0 else -x
                        t, f = self.canon(t.subs(s, x)), self.canon(f.subs(s, -x))
            return (f, t) if flip else (t, f)
        return a, b

    def ite_laws(self, c, a, b):
        """branches that agree on the boundary of the guard"""
        self._ge = None
        for cc, t, f, flip in ((c, a, b, False), (self.canon(1 - c), b, a, True)):
            if not cc.is_Symbol or self.info[cc]["op"][0] != "ind" or self.info[cc]["op"][1] not in ("gt", "ge"):
                continue
            D = self.info[cc]["args"][0]
            q = self.canon((t - f) / D)
            if not self.scalar(q) or not sp.gcd(sp.fraction(sp.together(q))[1], sp.fraction(sp.together(D))[0]).is_number:
                continue
            # t == f where D == 0, so the strictness of the guard does not matter
            if self.info[cc]["op"][1] == "ge":
                cc = self.f_ind("gt", D)
                self._ge = cc if not flip else self.canon(1 - cc)
            nanb = not self.scalar(b) and {s for s in D.free_symbols if not self.info[s]["scalar"]} <= set(b.free_symbols)
            if nanb:
                # value b wherever the guard is NaN, and b is NaN there too
                return f + q * self.f_relu(D)
            return None
        return None

    def linear(self, key, e, one=None, extra=(), nonneg_ok=False, split=True):
        """apply a linear time-operator: pull scalar factors out, split sums"""
        if self.nterms(e) > self.BIG:
            for a2, s in self.atoms.get(key, []):
                if a2[0].free_symbols == e.free_symbols and all(self.eq(x, y) for x, y in zip(a2[1:], extra)):
                    if self.eq(a2[0], e):
                        return s
                    if self.eq(a2[0], -e):
                        return -s
            return self.atom(key, [e] + list(extra), scalar=key[0] in ("sum",))
        e = self.canon(e)
        n, d = sp.fraction(sp.together(e))
        n = sp.expand(n)
        terms = sp.Add.make_args(n)
        if len(terms) > 14 or not split:
            terms = [n]
        out = Integer(0)
        for t in terms:
            t = sp.cancel(t / d)
            tn, td = sp.fraction(t)
            c, m = Integer(1), Integer(1)
            for part, sg in ((tn, 1), (td, -1)):
                for f in sp.Mul.make_args(sp.factor_terms(part) if part.is_Add else part):
                    b, k = f.as_base_exp()
                    if self.scalar(f):
                        c *= f ** sg
                    else:
                        m *= f ** sg
            if m == 1:
                if one is not None:
                    out += c * one
                    continue
            found = None
            for a2, s in self.atoms.get(key, []):
                if self.eq(a2[0], m) and all(self.eq(x, y) for x, y in zip(a2[1:], extra)):
                    found = s
                    break
                if self.eq(a2[0], -m) and all(self.eq(x, y) for x, y in zip(a2[1:], extra)):
                    found = -s
                    break
            if found is None and key == ("setdiag0",) and m.is_Symbol and self.info[m]["op"] == key:
                found = m
            if found is None:
                found = self.atom(key, [m] + list(extra), scalar=key[0] in ("sum",), positive=self.positive_expr(m))
                if self.nonneg(m):
                    self.info[found]["nonneg"] = True
            out += c * found
        return out

    def positive_expr(self, e):
        if e.is_Symbol:
            return bool(e.is_positive)
        if e.is_Number:
            return e > 0
        if e.is_Mul:
            return all(self.positive_expr(x) for x in e.args)
        if e.is_Add:
            return all(self.nonneg(x) for x in e.args) and any(self.positive_expr(x) for x in e.args) or self.affine_lo(e) > 0 or self.relu_values(e) is not None and all(self.positive_expr(x) for x in self.relu_values(e))
        if e.is_Pow:
            return self.positive_expr(e.base)
        return False

    def f_shift(self, e, k):
        """shift by k periods: commutes with every element-wise operator"""
        e = self.canon(e)
        if k == 0:
            return e
        sub = {}
        for s in e.free_symbols:
            sub[s] = self.shift_sym(s, k)
        return e.xreplace(sub) if sub else e

    def shift_sym(self, s, k):
        inf = self.info[s]
        if inf["scalar"]:
            return s
        op = inf["op"]
        a = inf["args"]
        if op == ("shift",):
            return self.f_shift(a[0], self.canon(a[1] + k)) if not a[0].is_Symbol else self._shift_atom(a[0], self.canon(a[1] + k))
        if op == ("log",):
            return self.f_log(self.f_shift(a[0], k))
        if op == ("exp",):
            return self.f_exp(self.f_shift(a[0], k))
        if op == ("relu",):
            return self.f_relu(self.f_shift(a[0], k))
        if op == ("absval",):
            return self.f_abs(self.f_shift(a[0], k))
        if op == ("sign",):
            return self.f_sign(self.f_shift(a[0], k))
        if op == ("ite",):
            return self.f_ite(self.f_shift(a[0], k), self.f_shift(a[1], k), self.f_shift(a[2], k))
        if op[0] == "ind":
            return self.f_ind(op[1], self.f_shift(a[0], k))
        if op[0] == "bool":
            return self._shift_atom(s, k)
        if op[0] == "root":
            return self.f_root(self.f_shift(a[0], k), op[1])
        if op[0] in ("rollsum", "rollmax", "rollmin") and len(a) >= 1:
            return self.linear(op, self.f_shift(a[0], k), extra=a[1:], split=False) if op[0] == "rollsum" else self.atom(op, [self.f_shift(a[0], k)] + list(a[1:]), positive=bool(s.is_positive))
        return self._shift_atom(s, k)

    def _shift_atom(self, s, k):
        if k == 0:
            return s
        r = self.atom(("shift",), [s, k], positive=bool(s.is_positive))
        if self.info[s].get("nonneg"):
            self.info[r]["nonneg"] = True
        return r

    def f_rollsum(self, x, w, tag):
        """tag: (minp, center, closed) canonical"""
        if w.is_Integer and 1 <= w <= 4 and tag == ("std",):
            out = x
            for i in range(1, int(w)):
                out += self.f_shift(x, Integer(i))
            return out
        return self.linear(("rollsum",) + tag, x, one=w if tag == ("std",) else None, extra=[w])

    def f_rollext(self, name, x, w, tag):
        if w.is_Integer and 1 <= w <= 3 and tag == ("std",):
            out = x
            for i in range(1, int(w)):
                y = self.f_shift(x, Integer(i))
                out = self.f_max(out, y) if name == "max" else self.f_min(out, y)
            return out
        x = self.canon(x)
        for nm, sg in ((name, 1), ({"max": "min", "min": "max"}[name], -1)):
            for a2, s in self.atoms.get(("rollext", nm) + tag, []):
                if self.eq(a2[1], w):
                    c = self.ratio(x, a2[0])
                    if c is not None and (c > 0) == (sg > 0):
                        return c * s
        return self.atom(("rollext", name) + tag, [x, w], positive=self.positive_expr(x))

    BIG = 30

    def f_var(self, key, x, n, extra):
        """population variance (ddof 0) atom: translation-invariant, quadratic scaling"""
        if self.nterms(x) > self.BIG:
            for a2, s in self.atoms.get(key, []):
                if all(self.eq(p, q) for p, q in zip(a2[1:], extra)) and a2[0].free_symbols == x.free_symbols and (self.eq(a2[0], x) or self.eq(a2[0], -x)):
                    return s
            s = self.atom(key, [x] + list(extra), scalar=key[0] == "var")
            self.info[s]["nonneg"] = True
            return s
        x = sp.expand(self.canon(x))
        terms = [t for t in sp.Add.make_args(x) if not self.scalar(t)] if x.is_Add else ([] if self.scalar(x) else [x])
        x = sum(terms, Integer(0))
        if x == 0:
            return Integer(0)
        xn, xd = sp.fraction(sp.together(x))
        c, m = Integer(1), Integer(1)
        for part, sg in ((xn, 1), (xd, -1)):
            cc, fl = sp.factor_list(part)
            c *= cc ** sg
            for f, k in fl:
                if self.scalar(f):
                    c *= f ** (k * sg)
                else:
                    m *= f ** (k * sg)
        for a2, s in self.atoms.get(key, []):
            if all(self.eq(p, q) for p, q in zip(a2[1:], extra)) and (self.eq(a2[0], m) or self.eq(a2[0], -m)):
                return c ** 2 * s
        s = self.atom(key, [m] + list(extra), scalar=key[0] == "var")
        self.info[s]["nonneg"] = True
        return c ** 2 * s

    # ------------------------------------------------------------ terms
    def expr(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self._expr(n)
            self.memo[n.id] = r
        return r

    def _expr(self, n):
        op, a = n.op, n.args
        if op == "const":
            v = a[0]
            if isinstance(v, (bool, int, float)):
                return self.num(v)
            return self.atom(("const", repr(v)), [], scalar=True)
        if op == "sym":
            r = self.atom(("sym",) + tuple(a), [], scalar=n.kind not in ARRAYISH, positive=self.positive(n))
            if n.kind == "int":
                from .interval import Ivl
                lo = Ivl().get(n)[0]
                if lo == int(lo) if abs(lo) < 1e9 else False:
                    self.info[r]["lo"] = int(lo)
            return r
        if op == "pi":
            return self.atom(("pi",), [], scalar=True, positive=True)
        if op == "nan":
            return self.atom(("nan",), [], scalar=True)
        if op in TRANSPARENT:
            return self.expr(a[0])
        if op in ("array0", "tile", "repeat", "reshape", "flatten", "getitem", "cum", "assignall") or op in ELEMENTWISE and n.kind == "ndarray":
            n2 = layout(n)
            if n2 is not n:
                return self.expr(n2)
        if op == "add":
            return self.expr(a[0]) + self.expr(a[1])
        if op == "sub":
            return self.expr(a[0]) - self.expr(a[1])
        if op == "mul":
            from .shape import is_boolmask
            if is_boolmask(a[0]) and is_boolmask(a[1]):
                return self.cond(ir.N("band", a[0], a[1], kind=n.kind))
            return self.expr(a[0]) * self.expr(a[1])
        if op == "truediv":
            d = self.canon(self.expr(a[1]))
            if d == 0:
                return self.atom(("div0",), [self.expr(a[0])])
            return self.expr(a[0]) / d
        if op == "neg":
            return -self.expr(a[0])
        if op == "pow":
            return self.f_pow(self.canon(self.expr(a[0])), self.canon(self.expr(a[1])))
        if op == "exp":
            return self.f_exp(self.expr(a[0]))
        if op == "log":
            return self.f_log(self.expr(a[0]))
        if op == "abs":
            return self.f_abs(self.expr(a[0]))
        if op == "sign":
            return self.f_sign(self.expr(a[0]))
        if op in ("maximum", "minimum") and len(a) == 2:
            return (self.f_max if op == "maximum" else self.f_min)(self.expr(a[0]), self.expr(a[1]))
        if op in ("rowmax", "rowmin", "rowsum", "rowmean"):
            return self.rowop(op, [self.expr(x) for x in a])
        if op in ("where",):
            return self.f_ite(self.cond(a[0]), self.expr(a[1]), self.expr(a[2]))
        if op == "swhere":
            return self.f_ite(self.cond(a[1]), self.expr(a[0]), self.expr(a[2]))
        if op == "phi":
            return self.f_ite(self.cond(a[0]), self.expr(a[1]), self.expr(a[2]))
        if op in CMP or op in ("band", "bor", "binv", "and", "or", "not", "isnan"):
            return self.cond(n)
        if op == "fillna":
            x = self.expr(a[0])
            return self.atom(("fillna",), [self.canon(x), self.expr(a[1])])
        if op == "shift":
            if not is_const(a[2], None):
                return self.atom(("shiftfill",), [self.expr(a[0]), self.expr(a[1]), self.expr(a[2])])
            return self.f_shift(self.expr(a[0]), self.canon(self.expr(a[1])))
        if op == "roll":
            return self.roll(n)
        if op == "ewm":
            return self.ewm(n)
        if op == "red":
            return self.red(n)
        if op == "foldsum" and a[1].kind in NUMERIC:
            L = self.expr(a[2])
            return self.expr(a[0]) + self.linear(("sum", "bv", a[3].args[0]), self.lift(self.expr(a[1]), a[3]), one=L, extra=[L])
        if op == "f" and a[0] == "numpy.trace" and (len(a) < 3 or is_const(a[2], 0)):
            return self.linear(("sum", "trace"), self.expr(a[1]))
        if op == "setdiag" and is_const(a[1], 0) and ndim(a[0]) == 2:
            return self.linear(("setdiag0",), self.expr(a[0]))
        if op == "getitem" and len(a[1].args) == 2 and a[1].args[0].op == "slice" and all(is_const(q, None) for q in a[1].args[0].args) and is_const(a[1].args[1], 0) and single_column(a[0]):
            return self.expr(ir.N("flatten", a[0], kind="ndarray"))
        if op == "matmul":
            return self.f_matmul(a[0], a[1])
        if op == "tcdf":
            return self.atom(("tcdf",), [self.expr(x) for x in a])
        if op == "dim" and a[0].op == "reshape" and any(y.op == "array" for y in ir.reachable(a[0])):
            self.unknown.add("dim")
        if op == "sizeof" or op == "dim":
            return self.generic(n, scalar=True)
        if op == "getitem" and a[0].op in ELEMENTWISE and (n.kind in ARRAYISH or n.kind in NUMERIC and ndim(a[0]) == 1 and len(a[1].args) == 1 and a[1].args[0].kind == "int"):
            s0 = shape(a[0])
            ks = [x for x in a[0].args if isinstance(x, Node) and x.kind in ARRAYISH]
            if all(shape(x) is not None and shape(x) == s0 for x in ks):
                from .m_core import node_getitem
                new = [node_getitem(x, a[1]) if isinstance(x, Node) and x.kind in ARRAYISH else x for x in a[0].args]
                return self.expr(ir.N(a[0].op, *new, kind=n.kind))
        return self.generic(n)

    def f_matmul(self, x, y):
        """bilinear: sums are split and scalar factors pulled out of both operands"""
        X, Y = self.canon(self.expr(x)), self.canon(self.expr(y))
        def parts(e):
            n, d = sp.fraction(sp.together(e))
            out = []
            for t in sp.Add.make_args(sp.expand(n)):
                c, m = self.split_scalar_term(t / d)
                out.append((c, m))
            return out
        px, py = parts(X), parts(Y)
        if len(px) * len(py) > 36:
            return self.atom(("matmul",), [X, Y])
        r = Integer(0)
        for c, m in px:
            for d, k in py:
                r += c * d * self.atom(("matmul",), [m, k])
        return r

    def split_scalar_term(self, t):
        n, d = sp.fraction(sp.together(t))
        c, m = Integer(1), Integer(1)
        for part, sg in ((n, 1), (d, -1)):
            cc, fl = sp.factor_list(part)
            c *= cc ** sg
            for f, k in fl:
                if self.scalar(f):
                    c *= f ** (k * sg)
                else:
                    m *= f ** (k * sg)
        return c, m

    def rowop(self, op, es):
        if op in ("rowsum", "rowmean"):
            return self.atom((op,), es)
        # set semantics, NaN-skipping
        uniq = []
        for e in es:
            e = self.canon(e)
            if not any(self.eq(e, u) for u in uniq):
                uniq.append(e)
        for a2, s in self.atoms.get((op,), []):
            if len(a2) == len(uniq) and all(any(self.eq(u, v) for v in a2) for u in uniq):
                return s
        s = self.atom((op,), uniq)
        if any(self.nonneg(u) for u in uniq) and op == "rowmax" or all(self.nonneg(u) for u in uniq):
            self.info[s]["nonneg"] = True
        return s

    def roll(self, n):
        name, x, w, mp, ce, cl, dd, other = n.args
        X, W = self.expr(x), self.expr(w)
        if is_const(mp, None) and is_const(ce, False) and is_const(cl, None, "right"):
            tag = ("std",)
        else:
            tag = ("mp", ir.show(mp), ir.show(ce), ir.show(cl))
            if isinstance(mp, Node) and mp.op == "const" and w.op == "const" and mp.args[0] == w.args[0] and is_const(ce, False):
                tag = ("std",)
        if name == "sum":
            return self.f_rollsum(X, W, tag)
        if name == "mean":
            if tag == ("std",):
                return self.f_rollsum(X, W, tag) / W
            return self.linear(("rollmean",) + tag, X, one=Integer(1), extra=[W])
        if name in ("max", "min"):
            return self.f_rollext(name, X, W, tag)
        if name in ("std", "var"):
            D = self.expr(dd)
            if tag == ("std",) and self.expand_var:
                v = (self.f_rollsum(X ** 2, W, tag) - self.f_rollsum(X, W, tag) ** 2 / W) / (W - D)
            elif tag == ("std",):
                v = self.f_var(("rollvar",) + tag, X, W, [W]) * W / (W - D)
            else:
                v = self.f_var(("rollvar",) + tag, X, W, [W, D])
            return v if name == "var" else self.f_root(v, 2)
        if name in ("cov", "corr"):
            Y = self.expr(other)
            if self.eq(X, Y) and name == "cov":
                return self.roll(ir.N("roll", "var", x, w, mp, ce, cl, dd, const(None), kind=n.kind))
            # bilinear in scalar factors
            (cx, mx), (cy, my) = self.split_scalar(X), self.split_scalar(Y)
            if name == "corr":
                return self.sgn_scalar(cx) * self.sgn_scalar(cy) * self.atom(("rollcorr",) + tag, [mx, my, W], commutative=False) if not self._swapped(("rollcorr",) + tag, mx, my, W) else self.sgn_scalar(cx) * self.sgn_scalar(cy) * self._swapped(("rollcorr",) + tag, mx, my, W)
            D = self.expr(dd)
            if self.expand_var and tag == ("std",):
                # pairwise-complete windows: both series observed on the whole window
                return (self.f_rollsum(X * Y, W, tag) - self.f_rollsum(X, W, tag) * self.f_rollsum(Y, W, tag) / W) / (W - D)
            key = ("rollcov",) + tag
            s = self._swapped(key, mx, my, W) or self.atom(key, [mx, my, W])
            return cx * cy * s * (W - 1) / (W - D) if D != 1 else cx * cy * s
        return self.generic(n)

    def _swapped(self, key, x, y, w):
        for a2, s in self.atoms.get(key, []):
            if self.eq(a2[2], w) and (self.eq(a2[0], x) and self.eq(a2[1], y) or self.eq(a2[0], y) and self.eq(a2[1], x)):
                return s
            # sign: cov(-x, y) = -cov(x, y)
        return None

    def sgn_scalar(self, c):
        if c.is_Number:
            return sp.sign(c)
        return Integer(1) if self.nonneg(c) else self.f_sign(c)

    def split_scalar(self, e):
        e = sp.expand(self.canon(e)) if e.is_polynomial() else self.canon(e)
        if e.is_Add:
            ts = [t for t in e.args if not self.scalar(t)]
            if ts:
                e = sum(ts, Integer(0))
        n, d = sp.fraction(sp.together(e))
        c, m = Integer(1), Integer(1)
        for part, sg in ((n, 1), (d, -1)):
            cc, fl = sp.factor_list(part)
            c *= cc ** sg
            for f, k in fl:
                if self.scalar(f):
                    c *= f ** (k * sg)
                else:
                    m *= f ** (k * sg)
        return c, m

    def ewm(self, n):
        name, x, al, adj, ign, mp, dd = n.args
        X, A = self.expr(x), self.expr(al)
        key = (ir.show(adj), ir.show(ign))
        M = self.expr(mp)
        if M == 1:
            M = Integer(0)
        if name == "mean":
            return self.linear(("ewmmean",) + key, X, one=Integer(1), extra=[A, M])
        if name in ("std", "var"):
            v = self.f_var(("ewmvar", ir.show(dd)) + key, X, None, [A, M])
            return v if name == "var" else self.f_root(v, 2)
        return self.generic(n)

    def depends(self, s, b, memo):
        r = memo.get(s)
        if r is None:
            memo[s] = False
            r = s == b or any(self.depends(t, b, memo) for e in self.info.get(s, {}).get("args", ()) for t in getattr(e, "free_symbols", ()))
            memo[s] = r
        return r

    def lift(self, e, bv):
        """the sequence of the values of e as the bound index runs: index-dependent atoms become array atoms"""
        e = self.canon(e)
        b = self.expr(bv)
        memo = {}
        sub = {}
        for s in e.free_symbols:
            if self.depends(s, b, memo):
                t = self.atom(("lift", bv.args[0]), [s], positive=bool(s.is_positive))
                if self.info.get(s, {}).get("nonneg"):
                    self.info[t]["nonneg"] = True
                sub[s] = t
        return e.xreplace(sub)

    def mapped(self, x):
        """(body, length, bound index) of a list / array made by mapping a scalar over an index"""
        if x.op == "array" and x.args[0].op == "maplist":
            x = x.args[0]
        if x.op == "maplist" and not x.args[2] and x.args[0].kind in NUMERIC:
            return x.args[0], x.args[1], x.args[3]
        return None

    def red(self, n):
        name, x, ax, dd, kd = n.args
        if name in ("any", "all"):
            return self.quantified(n)
        mp = self.mapped(x)
        if mp and name in ("sum", "mean", "std", "var") and (is_const(ax, None) or is_const(ax, 0) or is_const(ax, -1)):
            body, L, bv = mp
            L = self.expr(L)
            X, key = self.lift(self.expr(body), bv), ("sum", "bv", bv.args[0])
            tot = lambda e: self.linear(key, e, one=L, extra=[L])
            if name in ("sum", "mean"):
                return tot(X) / (L if name == "mean" else 1)
            D = self.expr(dd)
            v = (tot(X ** 2) - tot(X) ** 2 / L) / (L - D) if self.expand_var else self.f_var(("var", "bv", bv.args[0]), X, L, [L]) * L / (L - D)
            return v if name == "var" else self.f_root(v, 2)
        items = x.args[0] if x.op == "array" and x.args[0].op in ("list", "tuple") else x if x.op in ("list", "tuple") else None
        if items is not None and items.args and all(y.kind in NUMERIC for y in items.args) and name in ("sum", "mean", "std", "var") and (is_const(ax, None) or is_const(ax, 0) or is_const(ax, -1)):
            xs = [self.expr(y) for y in items.args]
            k = len(xs)
            m = self.canon(sum(xs, Integer(0)))
            if name in ("sum", "mean"):
                return m / (k if name == "mean" else 1)
            v = sum(((e - m / k) ** 2 for e in xs), Integer(0)) / (k - self.expr(dd))
            return v if name == "var" else self.f_root(self.canon(v), 2)
        if x.op == "getitem" or x.op in ELEMENTWISE:
            # a sum over the selected entries is the masked sum over all of them
            masks = {y.args[1] for y in ir.reachable(x) if y.op == "getitem" and len(y.args[1].args) == 1 and y.args[1].args[0].kind == "ndarray" and is_boolmask(y.args[1].args[0])}
            if name in ("sum", "mean") and is_const(ax, None) and len(masks) == 1:
                from .m_core import unmask
                idx = masks.pop()
                f = unmask(x, idx)
                if f is not None and f.kind == "ndarray" and shape(f) is not None and shape(idx.args[0]) is not None and len(shape(f)) == len(shape(idx.args[0])):
                    full = lambda y: self.red(ir.N("red", "sum", y, ax, dd, kd, kind=n.kind))
                    tot = full(ir.N("mul", idx.args[0], f, kind="ndarray") if self.nanfree or total(f) else ir.N("where", idx.args[0], f, const(0), kind="ndarray"))
                    return tot if name == "sum" else tot / full(ir.N("where", idx.args[0], const(1), const(0), kind="ndarray"))
        if name == "sum" and x.op == "where" and x.kind == "ndarray":
            for v, z, c in ((x.args[1], x.args[2], x.args[0]), (x.args[2], x.args[1], ir.N("binv", x.args[0], kind=x.args[0].kind))):
                if is_const(z, 0) and (self.nanfree or total(v)):
                    return self.red(ir.N("red", "sum", ir.N("mul", c, v, kind="ndarray"), ax, dd, kd, kind=n.kind))
        if name == "sum" and is_const(ax, None):
            if x.op == "diag" and ndim(x.args[0]) == 2:
                return self.linear(("sum", "trace"), self.expr(x.args[0]))
            if ndim(x) == 2 and x.op == "mul" and any(y.op == "T" for y in ir.reachable(x)):
                self.unknown.add("sum of a product with a transpose")
        X = self.expr(x)
        if x.kind not in ARRAYISH and x.kind in NUMERIC:
            return X if name in ("mean", "sum", "min", "max") else self.generic(n)
        axk = ir.show(ax)
        s = shape(x)
        N_ = None
        if is_const(ax, None):
            if s is not None:
                N_ = Integer(1)
                for d in s:
                    N_ *= self.expr(d)
        elif s is not None and ax.op == "const" and -len(s) <= ax.args[0] < len(s):
            N_ = self.expr(s[ax.args[0]])
        if N_ is None:
            N_ = self.atom(("count", axk, x.id), [], scalar=True, positive=True)
        pandas = x.kind in ("series", "frame")
        key = ("sum", axk)
        if name == "sum":
            return self.linear(key, X, one=N_ if not pandas else None)
        if name == "mean":
            return self.linear(key, X, one=N_ if not pandas else None) / N_
        if name in ("std", "var"):
            D = self.expr(dd)
            if self.expand_var and not pandas:
                v = (self.linear(key, X ** 2, one=N_) - self.linear(key, X, one=N_) ** 2 / N_) / (N_ - D)
            else:
                v = self.f_var(("var", axk), X, N_, []) * N_ / (N_ - D)
            return v if name == "var" else self.f_root(v, 2)
        if name in ("max", "min"):
            for nm, sg in ((name, 1), ({"max": "min", "min": "max"}[name], -1)):
                for a2, sy in self.atoms.get(("redext", nm, axk), []):
                    c = self.ratio(X, a2[0])
                    if c is not None and (c > 0) == (sg > 0):
                        return c * sy
            return self.atom(("redext", name, axk), [self.canon(X)], scalar=True, positive=self.positive_expr(X))
        if name in ("argmax", "argmin"):
            self.unknown.add("red:argmax")
            return self.atom(("red", "argmax", axk), [self.canon(X if name == "argmax" else -X)], scalar=True)
        self.unknown.add(f"red:{name}")
        return self.atom(("red", name, axk, ir.show(dd)), [self.canon(X)], scalar=True)

    # generic congruence atom ------------------------------------------------
    def generic(self, n, scalar=None):
        op, a = n.op, n.args
        if op in ("tile", "reshape", "repeat"):
            if op == "reshape":
                self.unknown.add(op)
            X = self.expr(a[0])
            sk, exprs = self.skeleton(a[1:])
            return self.atom((op,) + sk, [self.canon(X)] + exprs, scalar=False, positive=self.positive_expr(X))
        if op in ("mu", "loopexit"):
            self.unknown.add(f"{op}#{n.id}")
        elif op in ("mapstore", "mapstore2") and all(p.op in ("combix", "bv") for ix in ((a[1],) if op == "mapstore" else (a[1], a[3])) for p in ix.args):
            pass  # distinct cells: the stored set is determined by the index / value terms
        elif op == "store" and len(a[1].args) == 1 and a[1].args[0].kind in ARRAYISH:
            self.unknown.add(f"store by mask or index array#{n.id}")
        elif op == "red" and a[0] not in ("sum", "mean", "std", "var", "max", "min"):
            self.unknown.add(f"red:{a[0]}")
        elif op not in KNOWN:
            self.unknown.add(op if op != "f" else f"f:{a[0]}")
        if scalar is None:
            scalar = n.kind not in ARRAYISH and n.kind != "any"
        sk, exprs = self.skeleton(a)
        return self.atom((op,) + sk, exprs, scalar=scalar, positive=op == "getitem" and bool(self.positive(n)))

    def skeleton(self, args):
        key, exprs = [], []

        def rec(x):
            if isinstance(x, Node):
                if x.op == "const" and not isinstance(x.args[0], (int, float)):
                    key.append(("c", repr(x.args[0])))
                elif x.op in ("list", "tuple", "idx", "slice"):
                    key.append((x.op, len(x.args)))
                    for y in x.args:
                        rec(y)
                elif x.op in ("fstr", "fmt"):
                    key.append((x.op, len(x.args)))
                    for y in x.args:
                        rec(y)
                elif x.kind in ("str", "none", "func", "type", "ext", "inst", "path"):
                    if x.op in ("strmeth", "strjoin", "add", "mod", "strof", "f", "builtin"):
                        self.unknown.add(x.op)
                    key.append(("s", ir.show(x)))
                else:
                    key.append("#")
                    exprs.append(self.expr(x))
            elif isinstance(x, tuple):
                key.append(("t", len(x)))
                for y in x:
                    rec(y)
            else:
                key.append(("v", repr(x)))

        for x in args:
            rec(x)
        return tuple(key), exprs

    # ------------------------------------------------------------ queries
    def same(self, a, b):
        return self.eq(self.expr(a), self.expr(b))

    def show(self, e, depth=4):
        """readable rendering of an expression"""
        e = self.canon(e)

        def rs(s, d):
            inf = self.info.get(s)
            if inf is None:
                return str(s)
            op = inf["op"]
            if op[0] == "sym":
                return str(op[1])
            nm = op[0] if op[0] not in ("rollext", "ind", "f", "red", "redext") else "_".join(str(x) for x in op[:2])
            if d <= 0:
                return f"{nm}#{self.order.get(s, 0)}"
            return f"{nm}({', '.join(rexp(x, d - 1) for x in inf['args'])})"

        def rexp(x, d):
            return str(x.xreplace({s: Symbol(rs(s, d)) for s in x.free_symbols}))

        return rexp(e, depth)[:700]
