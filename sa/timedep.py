"""Time-dependence of value terms: how late an input row an output row can read.

`reads(n)` maps an array-valued term to a set of integer-linear terms over the row position POS (and size symbols): the
element at row POS depends on input rows up to each of these rows.  Scalars have the same without POS.  Terms are combined
by each modelled operator (shift, windows, slices, reductions, mapped loops); Unknown marks operators without a rule.
"""
import itertools

from . import ir, shape as sh
from .ir import N, Node, const, is_const
from .interval import Ivl, INF

POS = N("sym", "POS", kind="int")
ELEMENTWISE = sh.EW | {"values", "copy", "cast", "named", "astype", "withname", "fillna", "ffill", "swhere", "rowmax", "rowmin", "rowsum", "rowmean", "sqrt", "withvalues", "array",
                       "clip", "mask", "tcdf", "ncdf", "assignall", "nan_to_num", "isinf", "setcol", "col", "float", "int", "bool", "lin"}
SCALARS = {"const", "nan", "pi", "inf", "str", "fstr"}


class Unknown(Exception):
    pass


class Reads:
    def __init__(self, inputs, T):
        self.inputs = {n.id for n in inputs}
        self.T = T
        self.memo = {}

    def of(self, n):
        if n.id not in self.memo:
            self.memo[n.id] = None
            try:
                self.memo[n.id] = self._of(n)
            except Unknown as e:
                self.memo[n.id] = e
        r = self.memo[n.id]
        if isinstance(r, Unknown):
            raise r
        if r is None:
            raise Unknown("cyclic value")
        return r

    def depends(self, n):
        return any(x.id in self.inputs for x in ir.reachable(n))

    def subst(self, terms, old, new):
        if old is new:
            return terms
        return frozenset(sh.ilin(ir.subst(t, {old: new})) for t in terms)

    def shifted(self, terms, k):
        return self.subst(terms, POS, sh.ilin(N("add", POS, k, kind="int")))

    def union(self, *ns):
        out = frozenset()
        for n in ns:
            if isinstance(n, Node):
                out |= self.of(n)
            elif isinstance(n, tuple):
                out |= self.union(*n)
        return out

    def back(self, terms, window=None):
        """rows read by a trailing window over an array with these row terms"""
        out = set(terms)
        for t in terms:
            if sh.lin(t)[0].get(POS, 0) < 0:
                lo = const(0) if not isinstance(window, Node) or window.kind != "int" else sh.isub(POS, sh.isub(window, const(1)))
                out |= self.subst([t], POS, lo)
        return frozenset(out)

    def whole(self, x):
        """rows read by an operator over the whole array"""
        terms = self.of(x)
        out = set()
        for t in terms:
            out |= self.subst([t], POS, const(0) if sh.lin(t)[0].get(POS, 0) < 0 else sh.isub(self.length(x), const(1)))
        return frozenset(out)

    def length(self, n):
        s = sh.shape(n)
        if s:
            return s[0]
        raise Unknown("length of " + n.op)

    def _of(self, n):
        op = n.op
        if n.id in self.inputs:
            return frozenset([POS])
        if n is self.T or (op in ("dim", "len", "count", "sizeof") and self.depends(n)):
            return frozenset([sh.isub(self.T, const(1))])
        if op in ("sym", "bv", "ix") or op in SCALARS:
            return frozenset()
        if not self.depends(n) and not ir.contains(n, lambda x: x is self.T):
            return frozenset()
        if op == "phi":
            c = n.args[0]
            if not self.depends(c) or (self.scalar(c) and not any(x.id in self.inputs and not self.onlylen(c) for x in ir.reachable(c))):
                return self.union(n.args[1], n.args[2])
            return self.union(*n.args)
        if op in ("mkseries", "named", "withname", "withvalues"):
            return self.of(n.args[0])
        if op in ("mkframe",):
            d = n.args[0]
            return self.union(*[x for x in ir.children(d)])
        if op in ELEMENTWISE:
            self.aligned(n)
            return self.union(*n.args)
        if op == "shift":
            self.fills(n)
            return self.shifted(self.of(n.args[0]), N("neg", n.args[1], kind="int")) | (self.union(n.args[2]) if isinstance(n.args[2], Node) else frozenset())
        if op in ("roll", "expanding", "ewm"):
            out = self.back(self.of(n.args[1]), n.args[2] if op == "roll" else None)
            rest = [a for a in n.args[2:] if isinstance(a, Node)]
            if op == "roll":
                c = n.args[4]
                if is_const(c, True):
                    out = out | self.shifted(out, N("floordiv", n.args[2], const(2), kind="int")) if not isinstance(n.args[2], Node) or n.args[2].kind == "int" else out
                    out = out | self.shifted(self.of(n.args[1]), const(1))
                elif not is_const(c, False):
                    raise Unknown("rolling center")
                if len(n.args) > 7 and isinstance(n.args[7], Node):
                    out = out | self.back(self.of(n.args[7]), n.args[2])
                    rest = [a for a in rest if a is not n.args[7]]
            for a in rest:
                out = out | self.of(a)
            return out
        if op == "cum":
            return self.back(self.of(n.args[1]))
        if op in ("bfill", "interp", "interpolate"):
            r = self.of(n.args[0])
            return r | self.shifted(r, const(1))
        if op == "red":
            x = n.args[1]
            s = sh.shape(x)
            ax = n.args[2]
            if s is not None and len(s) >= 2 and is_const(ax, 1, -1):
                return self.of(x)
            return self.whole(x)
        if op in ("sorted", "rank", "median", "quantile"):
            return self.whole(n.args[0])
        if op == "getitem":
            return self.item(n)
        if op == "maplist":
            if n.args[2]:
                raise Unknown("filtered comprehension")
            return self.subst(self.of(n.args[0]), n.args[3], POS)
        if op == "reindex":
            k = self.label_offset(n.args[0], n.args[1])
            r = self.shifted(self.of(n.args[0]), N("neg", k, kind="int"))
            if isinstance(n.args[2], Node):
                r = r | self.of(n.args[2])
            if len(n.args) > 3:
                if not is_const(n.args[3], "ffill", "pad"):
                    r = r | self.shifted(r, const(1))
            return r
        if op in ("list", "tuple", "dict", "f2"):
            return self.union(*ir.children(n))
        if op == "f" and n.args[0] in ("numpy.diff", "numpy.gradient", "numpy.ediff1d"):
            return self.shifted(self.of(n.args[1]), const(1)) | self.of(n.args[1])
        if op == "f" and n.args[0] in ("numpy.roll", "numpy.sort", "numpy.argsort", "numpy.fft.fft", "scipy.signal.detrend", "numpy.unwrap", "numpy.quantile", "numpy.percentile", "numpy.nanmedian", "numpy.median"):
            return self.whole(n.args[1])
        raise Unknown(op + (":" + str(n.args[0]) if n.op == "f" else ""))

    def scalar(self, c):
        return c.kind not in ir.ARRAYISH

    def onlylen(self, c):
        """the inputs are read only through their length"""
        def rec(x):
            if x.op in ("len", "dim", "count", "sizeof", "isempty", "indexof"):
                return True
            if x.id in self.inputs:
                return False
            return all(rec(y) for y in ir.children(x))
        return rec(c)

    def fills(self, n):
        k = n.args[1]
        if not isinstance(k, Node) or k.kind not in ("int", "num", "any"):
            raise Unknown("shift by a frequency")

    def aligned(self, n):
        """pandas operands must share their index for a positional reading"""
        if n.kind in ("series", "frame") and label_base(n) is None:
            raise Unknown("combination of series with different indexes")

    def label_offset(self, src, tgt):
        sb, tb = label_base(src), base_index(tgt)
        if sb is None or tb is None or sb[0] != tb[0]:
            raise Unknown("reindex to another index")
        return sh.isub(sb[1], tb[1])

    def item(self, n):
        x, ix = n.args[0], n.args[1]
        r = self.of(x)
        p = ix.args[0]
        if p.op == "slice":
            a, b, c = p.args
            L = None
            if is_const(c, -1) and is_const(a, None) and is_const(b, None):
                return self.subst(r, POS, sh.isub(sh.isub(self.length(x), const(1)), POS))
            if not is_const(c, None, 1):
                raise Unknown("strided slice")
            if is_const(a, None):
                return r
            s = sh.isign(a)
            if s < 0:
                a = sh.iadd(self.length(x), a)
            return self.shifted(r, a)
        if p.kind == "int":
            if sh.isign(p) < 0:
                p = sh.iadd(self.length(x), p)
            return self.subst(r, POS, p)
        if is_const(p, None):
            raise Unknown("new axis")
        if p.kind == "str":
            return r
        raise Unknown("index by " + p.op)


def base_index(n):
    """(base label array, offset into it) of a row index term"""
    if n.op == "getitem":
        return sliced(base_index(n.args[0]), n.args[1].args[0])
    if n.op in ("indexof", "rangeindex"):
        return label_base(n.args[0]) if n.op == "indexof" else rows(n.args[0], "default index")
    if n.op == "phi":
        a, b = base_index(n.args[1]), base_index(n.args[2])
        return a if a == b else None
    return None


def sliced(b, p):
    if b is not None and p.op == "slice" and is_const(p.args[2], -1) and is_const(p.args[0], None) and is_const(p.args[1], None):
        return (b[0][1:], b[1]) if b[0][0] == "reversed" else (("reversed",) + b[0], b[1])
    if b is None or p.op != "slice" or not is_const(p.args[2], None, 1):
        return None
    if is_const(p.args[0], None):
        return b
    if sh.isign(p.args[0]) < 1:
        return None
    return b[0], sh.iadd(b[1], p.args[0])


def rows(x, tag="input index"):
    s = sh.shape(x)
    return (tag, s[0].id if s else x.id), const(0)


_lab = {}


def label_base(n):
    """(base label array, offset of row 0 in it) of a pandas value; all input series share one index"""
    if n.id not in _lab:
        _lab[n.id] = None
        _lab[n.id] = _label_base(n)
    return _lab[n.id]


def _label_base(n):
    if n.op == "sym":
        return rows(n)
    if n.op == "mkseries":
        return rows(n, "default index") if is_const(n.args[1], None) else base_index(n.args[1])
    if n.op == "reindex":
        return base_index(n.args[1])
    if n.op == "mkframe":
        if not is_const(n.args[1], None):
            return base_index(n.args[1])
        return same([y for y in ir.children(n.args[0]) if y.kind == "series"])
    if n.op == "getitem":
        if n.args[1].args[0].kind == "str":
            return label_base(n.args[0])
        if sh.is_boolmask(n.args[1].args[0]):
            return tagged(n, "rows selected from", n.id)
        return sliced(label_base(n.args[0]), n.args[1].args[0])
    if n.op == "dropna":
        return tagged(n, "rows selected from", n.id)
    if n.op in ("sort_values", "sort_index"):
        return tagged(n, "reordered", n.id)
    if n.op == "resetindex":
        return rows(n, "default index")
    if n.op in ("roll", "ewm", "cum", "expanding"):
        return same([y for y in n.args[1:] if isinstance(y, Node) and y.kind in ("series", "frame")])
    if n.op in ELEMENTWISE or n.op in ("shift", "phi", "col", "store", "bfill", "interp", "interpolate", "sorted", "rank"):
        return same([y for y in ir.children(n) if y.kind in ("series", "frame")])
    return None


def tagged(n, what, key):
    b = label_base(n.args[0])
    return b and ((what,) + b[0] + (key,), b[1])


def same(ps):
    bs = [label_base(p) for p in ps]
    if not bs or any(b is None or b != bs[0] for b in bs):
        return None
    return bs[0]


def witness(term, bounds):
    """small sizes for which the linear row term exceeds the row POS, or None"""
    d, c = sh.lin(sh.isub(term, POS))
    atoms = list(d)
    if not all(a.op == "sym" for a in atoms):
        return None
    cands = []
    for a in atoms:
        lo, hi = Ivl().get(a)
        lo = int(lo) if lo > -INF else 0
        if a is POS:
            cands.append([0, 1, 3, 20])
        elif a is bounds:
            cands.append([max(lo, 2), 50])
        else:
            cands.append(list(range(lo, lo + 3)) + [lo + 7])
    for vals in itertools.product(*cands):
        env = dict(zip(atoms, vals))
        if bounds in env and POS in env and env[POS] >= env[bounds]:
            continue
        v = c + sum(k * env[a] for a, k in d.items())
        if v > 0:
            return ", ".join(f"{ir.show(a)}={x}" for a, x in env.items()) or "every row", v
    return None


def causal(n, inputs, T):
    """(True/False/None, detail)"""
    R = Reads(inputs, T)
    try:
        terms = R.of(n)
    except Unknown as e:
        return None, f"no time-dependence rule for {e}"
    iv = Ivl(ranges={POS.id: (0, INF)})
    bad = []
    for t in terms:
        if iv.get(sh.isub(t, POS))[1] <= 0:
            continue
        w = witness(t, T)
        if w:
            return False, f"row POS reads input row {ir.show(t)}, {w[1]} row(s) later when {w[0]}"
        bad.append(t)
    if bad:
        return None, f"cannot bound {ir.show(bad[0])} by POS"
    return True, "latest rows read: " + (", ".join(sorted(ir.show(t) for t in terms)) or "none")
