"""Homogeneity-degree inference over value terms.

When the price inputs are multiplied by c > 0 a term of type ("mul", k) is multiplied by c**k, a term of type ("log", a) grows by
a*log(c), and ANY is a term that is zero or NaN (every degree).  Mixed = the two sides scale differently (the sum or comparison is not
homogeneous); Unknown = no rule.
"""
from fractions import Fraction

from . import ir
from .ir import Node, is_const

ANY = ("any", None)


class Unknown(Exception):
    pass


class Mixed(Exception):
    pass


def mul(k):
    return ("mul", Fraction(k))


def log(a):
    return ("log", Fraction(a)) if a else mul(0)


ZERO = mul(0)
SAME = {"neg", "values", "copy", "cast", "named", "astype", "withname", "mkseries", "array", "shift", "bfill", "ffill", "interpolate", "T", "flatten", "reshape", "reindex",
        "sorted", "elem", "float", "withvalues", "dropna", "iat"}
BOOLEAN = {"isnan", "isfinite", "isinf", "len", "dim", "count", "sizeof", "isempty", "indexof", "bool"}


class Degree:
    def __init__(self, price):
        self.price = {n.id for n in price}
        self.memo = {}

    def of(self, n):
        r = self.memo.get(n.id)
        if r is None:
            if n.id in self.memo:
                raise Unknown("cyclic value")
            self.memo[n.id] = None
            try:
                r = self._of(n)
            except (Unknown, Mixed) as e:
                r = e
            self.memo[n.id] = r
        if isinstance(r, Exception):
            raise r
        return r

    def same(self, ns, what):
        ds = [(x, self.of(x)) for x in ns]
        ds = [(x, d) for x, d in ds if d != ANY]
        if not ds:
            return ANY
        for x, d in ds[1:]:
            if d != ds[0][1]:
                raise Mixed(f"{what} of terms scaling as {fmt(ds[0][1])} ({ir.show(ds[0][0], 2)}) and {fmt(d)} ({ir.show(x, 2)})")
        return ds[0][1]

    def flat(self, n, why):
        d = self.of(n)
        if d == ANY or d == ZERO:
            return
        raise Mixed(f"{why} of a term scaling as {fmt(d)}: {ir.show(n, 2)}")

    def _of(self, n):
        op, a = n.op, n.args
        if n.id in self.price:
            return mul(1)
        if op == "const":
            return ANY if a[0] is None or (isinstance(a[0], (int, float)) and not isinstance(a[0], bool) and (a[0] == 0 or a[0] != a[0])) else ZERO
        if op == "nan":
            return ANY
        if not any(x.id in self.price for x in ir.reachable(n)):
            return ZERO
        if op in BOOLEAN:
            return ZERO
        if op in ("add", "sub"):
            x, y = self.of(a[0]), self.of(a[1])
            if x == ANY:
                return y
            if y == ANY:
                return x
            if "log" in (x[0], y[0]):
                p = x[1] if x[0] == "log" else 0
                q = y[1] if y[0] == "log" else 0
                if any(d[0] == "mul" and d[1] != 0 for d in (x, y)):
                    raise Mixed(f"sum of terms scaling as {fmt(x)} and {fmt(y)}")
                return log(p + q if op == "add" else p - q)
            return self.same(a, "sum")
        if op in ("mul", "truediv"):
            x, y = self.of(a[0]), self.of(a[1])
            if x == ANY or y == ANY:
                if op == "truediv" and x != ANY:
                    raise Unknown("division by zero")
                return ANY
            if x[0] == "log" or y[0] == "log":
                c = a[1] if x[0] == "log" else a[0]
                if x[0] == y[0] or not (op == "mul" or x[0] == "log") or c.op != "const":
                    raise Unknown("product of log prices")
                v = Fraction(c.args[0])
                d = x if x[0] == "log" else y
                return log(d[1] * v if op == "mul" else d[1] / v)
            return mul(x[1] + y[1] if op == "mul" else x[1] - y[1])
        if op == "pow":
            x, e = self.of(a[0]), a[1]
            if x == ANY or (x == ZERO and self.of(e) in (ZERO, ANY)):
                return x
            if x[0] == "log":
                raise Unknown("power of log prices")
            if e.op == "const" and isinstance(e.args[0], (int, float)):
                return mul(x[1] * Fraction(e.args[0]))
            raise Unknown("symbolic power")
        if op in ("reindex", "shift") and isinstance(a[2], Node) and not is_const(a[2], None):
            return self.same([a[0], a[2]], "fill")
        if op in SAME:
            return self.of(a[0])
        if op == "fillna":
            return self.same(a[:2], "fill")
        if op == "abs":
            return self.nolog(a[0], "absolute value")
        if op == "sign":
            self.nolog(a[0], "sign")
            return ZERO
        if op in ("rowmax", "rowmin", "maximum", "minimum"):
            return self.same(a, "maximum")
        if op == "clip":
            return self.same([x for x in a if isinstance(x, Node)], "clip")
        if op == "exp":
            x = self.of(a[0])
            if x == ANY or x == ZERO:
                return ZERO
            if x[0] == "log":
                return mul(x[1])
            raise Mixed(f"exponential of a term scaling as {fmt(x)}: {ir.show(a[0], 2)}")
        if op == "log":
            x = self.of(a[0])
            if x == ANY:
                raise Unknown("log of zero")
            if x[0] == "log":
                raise Mixed("log of a log price")
            return log(x[1])
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            self.same(a, "comparison")
            return ZERO
        if op in ("and", "or", "not", "band", "bor", "bxor", "binv"):
            for x in a:
                self.of(x)
            return ZERO
        if op in ("swhere", "where", "phi"):
            c, x, y = (a[1], a[0], a[2]) if op == "swhere" else a[:3]
            self.flat(c, "condition")
            return self.same([x, y], "choice")
        if op in ("roll", "ewm", "expanding", "red", "cum"):
            return self.window(n)
        if op in ("tcdf", "ncdf"):
            self.flat(a[0], "distribution function")
            return ZERO
        if op == "getitem":
            if any(x.kind not in ("slice",) and x.op not in ("slice",) for x in a[1].args):
                for x in a[1].args:
                    if x.op != "slice":
                        self.flat(x, "index")
            return self.of(a[0])
        if op == "maplist":
            return self.of(a[0])
        if op in ("list", "tuple"):
            return self.same(ir.children(n), "list")
        raise Unknown(op + (":" + str(a[0]) if op == "f" else ""))

    def nolog(self, x, what):
        d = self.of(x)
        if d != ANY and d[0] == "log":
            raise Mixed(f"{what} of a log price: {ir.show(x, 2)}")
        return d

    def window(self, n):
        fn, x = n.args[0], n.args[1]
        for r in n.args[2:]:
            if isinstance(r, Node) and not (n.op == "roll" and r is n.args[-1] and fn in ("cov", "corr")):
                if r.op != "const":
                    self.flat(r, "window setting")
        d = self.of(x)
        if fn in ("argmax", "argmin", "count", "any", "all", "rank"):
            return ZERO
        if d == ANY:
            return ZERO if fn == "corr" else ANY
        if fn in ("mean", "max", "min", "median", "nanmean", "nanmax", "nanmin", "nanmedian"):
            return d
        if fn in ("sum", "nansum"):
            if d[0] == "log":
                raise Unknown("sum of log prices")
            return d
        if fn in ("var", "std", "nanvar", "nanstd", "sem"):
            k = 0 if d[0] == "log" else d[1]
            return mul(2 * k if fn.endswith("var") else k)
        if fn in ("cov", "corr"):
            y = self.of(n.args[-1])
            if fn == "corr":
                return ZERO
            kx, ky = (0 if t[0] != "mul" else t[1] for t in (d, y))
            return mul(kx + ky)
        raise Unknown(f"{n.op}:{fn}")


def fmt(d):
    return "a constant" if d == ANY else ("unchanged" if d == ZERO else f"price^{d[1]}" if d[0] == "mul" else f"{d[1]}*log(price)")


def decide(n, price, want):
    """(True/False/None, detail)"""
    try:
        d = Degree(price).of(n)
    except Mixed as e:
        return False, f"not homogeneous: {e}"
    except Unknown as e:
        return None, f"no scaling rule for {e}"
    except RecursionError:
        return None, "term too deep"
    if d == ANY:
        return None, "the value is constantly zero or NaN"
    if d == mul(Fraction(want)):
        return True, f"scales as {fmt(d)}"
    return False, f"scales as {fmt(d)}, documented {fmt(mul(Fraction(want)))}"
