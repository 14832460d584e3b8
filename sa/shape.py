"""Shape domain: array rank and dimensions as terms; integer-linear normal form."""
from .ir import N, Node, const, NONE, is_const, cval

SYMSHAPE = {}  # sym node id -> tuple of dim nodes


def lin(n):
    """integer-linear view: ({atom: coeff}, const)"""
    if n.op == "const" and isinstance(n.args[0], int) and not isinstance(n.args[0], bool):
        return {}, n.args[0]
    if n.op in ("add", "sub") and n.kind == "int":
        a, ca = lin(n.args[0])
        b, cb = lin(n.args[1])
        s = 1 if n.op == "add" else -1
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + s * v
            if d[k] == 0:
                del d[k]
        return d, ca + s * cb
    if n.op == "neg" and n.kind == "int":
        a, ca = lin(n.args[0])
        return {k: -v for k, v in a.items()}, -ca
    if n.op == "mul" and n.kind == "int":
        a, ca = lin(n.args[0])
        b, cb = lin(n.args[1])
        if not a:
            return {k: v * ca for k, v in b.items() if v * ca}, cb * ca
        if not b:
            return {k: v * cb for k, v in a.items() if v * cb}, ca * cb
        if len(a) == 1 and not ca and len(b) == 1 and not cb:
            (x, u), (y, v) = *a.items(), *b.items()
            m = monomial(x, y)
            return {m: u * v}, 0
        return {n: 1}, 0
    return {n: 1}, 0


def monomial(x, y):
    fs = []
    st = [x, y]
    while st:
        t = st.pop()
        if t.op == "mul" and t.kind == "int":
            st.extend(t.args)
        else:
            fs.append(t)
    fs.sort(key=lambda t: t.id)
    out = fs[0]
    for t in fs[1:]:
        out = N("mul", out, t, kind="int")
    return out


def unlin(d, c):
    terms = sorted(d.items(), key=lambda t: t[0].id)
    out = None
    for k, v in terms:
        t = k if v == 1 else N("mul", const(v), k, kind="int")
        out = t if out is None else N("add", out, t, kind="int")
    if out is None:
        return const(c)
    if c:
        out = N("add", out, const(c), kind="int")
    return out


def iadd(a, b):
    return ilin(N("add", a, b, kind="int"))


def isub(a, b):
    return ilin(N("sub", a, b, kind="int"))


def ilin(n):
    return unlin(*lin(n))


def imul(a, b):
    n = N("mul", *sorted((a, b), key=lambda x: x.id), kind="int")
    d, c = lin(n)
    return unlin(d, c)


_memo = {}


def shape(n):
    """tuple of dims, or None"""
    if n.id in _memo:
        return _memo[n.id]
    _memo[n.id] = None
    r = _shape(n)
    _memo[n.id] = r
    return r


ONE = const(1)


def bcast(*shapes):
    if any(s is None for s in shapes):
        return None
    r = max(len(s) for s in shapes)
    out = []
    for i in range(r):
        ds = []
        for s in shapes:
            j = i - (r - len(s))
            if j >= 0:
                ds.append(s[j])
        ds = [d for d in ds if not is_const(d, 1)]
        if not ds:
            out.append(ONE)
        else:
            out.append(ds[0])
    return tuple(out)


EW = {
    "add", "sub", "mul", "truediv", "pow", "neg", "abs", "exp", "log", "sign", "maximum", "minimum", "where",
    "lt", "le", "gt", "ge", "eq", "ne", "band", "bor", "bxor", "binv", "floordiv", "mod", "isnan", "nan_to_num", "round", "floor", "ceil",
    "tcdf", "swhere", "not", "and", "or", "isfinite", "isinf", "ew",
}


def _scalar(n):
    return n.kind in ("int", "float", "num", "bool", "str", "none", "timedelta", "timestamp")


def slice_len(s, d):
    a, b, c = s.args
    if not is_const(c, None):
        if is_const(c, -1) and is_const(a, None) and is_const(b, None):
            return d
        return None
    if d is None:
        return None

    def norm(x, default):
        if is_const(x, None):
            return default
        s = isign(x)
        if s < 0:
            return iadd(d, x)
        return x if s > 0 else None

    lo = norm(a, const(0))
    hi = norm(b, d)
    if lo is None or hi is None:
        return None
    return isub(hi, lo)


def isign(x):
    """1: provably >= 0, -1: provably < 0, 0: unknown"""
    if x.op == "const" and isinstance(x.args[0], int):
        return 1 if x.args[0] >= 0 else -1
    from .interval import Ivl
    lo, hi = Ivl().get(x)
    return 1 if lo >= 0 else -1 if hi < 0 else 0


def idx_shape(sh, parts):
    if sh is None:
        return None
    out = []
    pos = 0
    nix = sum(1 for p in parts if not is_const(p, None) and p.kind != "ellipsis")
    adv = None
    for p in parts:
        if is_const(p, None):
            out.append(ONE)
            continue
        if p.kind == "ellipsis":
            k = len(sh) - nix
            out.extend(sh[pos:pos + k])
            pos += k
            continue
        if pos >= len(sh):
            return None
        if p.op == "slice":
            l = slice_len(p, sh[pos])
            if l is None:
                l = N("dim", p, sh[pos] if sh[pos] is not None else NONE, kind="int")
            out.append(l)
            pos += 1
        elif p.kind == "int":
            pos += 1
        else:
            ps = shape(p)
            if is_boolmask(p):
                if ps is None:
                    return None
                out.append(N("count", p, kind="int"))
                pos += len(ps)
            elif ps is None:
                return None
            else:
                if adv is None:
                    out.extend(ps)
                    adv = ps
                pos += 1
    out.extend(sh[pos:])
    return tuple(out)


BOOLOPS = {"lt", "le", "gt", "ge", "eq", "ne", "band", "bor", "bxor", "binv", "isnan", "not", "isfinite", "isinf", "and", "or"}


def is_boolmask(n):
    if n.op in ("band", "bor", "bxor", "binv"):
        return any(is_boolmask(a) for a in n.args)
    if n.op in ("phi",):
        return is_boolmask(n.args[1])
    if n.op == "where":
        return is_boolmask(n.args[1])
    return n.op in BOOLOPS


def _shape(n):
    if _scalar(n):
        return ()
    op = n.op
    if op == "sym":
        return SYMSHAPE.get(n.id)
    if op in EW:
        return bcast(*[shape(a) for a in n.args if isinstance(a, Node)])
    if op == "list":
        if n.args and all(isinstance(a, Node) for a in n.args):
            s0 = shape(n.args[0])
            if s0 is not None:
                return (const(len(n.args)),) + s0
        return (const(len(n.args)),)
    if op == "tuple":
        return (const(len(n.args)),)
    if op == "maplist":
        return (n.args[1],) + (shape(n.args[0]) or ()) if not n.args[2] else None
    if op in ("zeros", "ones", "empty", "full"):
        s = n.args[0]
        if s.op == "tuple":
            return tuple(s.args)
        if s.op == "list":
            return tuple(s.args)
        if s.kind == "int":
            return (s,)
        return None
    if op in ("zeros_like", "ones_like", "full_like", "empty_like", "store", "assignall", "shift", "cum", "ewm", "roll", "expanding",
              "values", "mkseries", "copy", "withvalues", "rank", "fillna", "ffill", "bfill", "cast", "named", "sorted", "logm", "mapstore", "setdiag", "interp", "astype", "reindex_same", "loopstore"):
        return shape(n.args[1] if op in ("cum", "ewm", "roll", "expanding") else n.args[0])
    if op == "mu":
        from . import ir
        d = ir.mu_defs.get(n.args[0])
        if d and isinstance(d["init"], Node) and d["init"].op != "undef":
            return shape(d["init"])
        return None
    if op == "loopexit":
        return shape(n.args[0])
    if op == "phi":
        a, b = shape(n.args[1]), shape(n.args[2])
        if a is None or b is None:
            return None
        if a == b:
            return a
        if len(a) == len(b):
            return tuple(x if x is y else N("phi", n.args[0], x, y, kind="int") for x, y in zip(a, b))
        return None
    if op == "arange":
        a, b, c = n.args
        if is_const(c, 1):
            return (isub(b, a),)
        return (N("dim", n, 0, kind="int"),)
    if op == "linspace":
        return (n.args[2],)
    if op == "getitem":
        return idx_shape(shape(n.args[0]), n.args[1].args)
    if op == "reshape":
        src = shape(n.args[0])
        dims = list(n.args[1])
        if any(is_const(d, -1) for d in dims):
            if src is None:
                k = [N("dim", n, i, kind="int") if is_const(d, -1) else d for i, d in enumerate(dims)]
                return tuple(k)
            tot = const(1)
            for d in src:
                tot = imul(tot, d)
            others = const(1)
            for d in dims:
                if not is_const(d, -1):
                    others = imul(others, d)
            q = idiv(tot, others)
            return tuple(q if is_const(d, -1) else d for d in dims)
        return tuple(dims)
    if op == "flatten":
        s = shape(n.args[0])
        if s is None:
            return (N("dim", n, 0, kind="int"),)
        t = const(1)
        for d in s:
            t = imul(t, d)
        return (t,)
    if op == "T":
        s = shape(n.args[0])
        return tuple(reversed(s)) if s is not None else None
    if op == "red":
        name, x, axis, ddof, kd = n.args[:5]
        s = shape(x)
        if is_const(axis, None):
            return () if not is_const(kd, True) else (tuple(ONE for _ in s) if s is not None else None)
        if s is None or axis.op != "const":
            return None
        ax = axis.args[0]
        if not isinstance(ax, int):
            return None
        if ax < 0:
            ax += len(s)
        if ax >= len(s):
            return None
        if is_const(kd, True):
            return s[:ax] + (ONE,) + s[ax + 1:]
        return s[:ax] + s[ax + 1:]
    if op == "matmul":
        a, b = shape(n.args[0]), shape(n.args[1])
        if a is None or b is None or not a or not b:
            return None
        if len(b) == 1:
            return a[:-1]
        return a[:-1] + b[1:]
    if op == "array0":
        return ()
    if op == "acc":
        return tuple(n.args[1:])
    if op == "vcat":
        s = shape(n.args[1])
        return None if s is None else (iadd(s[0], ONE),) + s[1:]
    if op == "scanpart":
        return shape(n.args[0])
    if op == "scan":
        return (iadd(n.args[2], ONE),) + tuple(n.args[4].args[1:])
    if op == "tile":
        s = shape(n.args[0])
        r = n.args[1]
        if s is None:
            return None
        reps = list(r.args) if r.op in ("tuple", "list") else [r]
        k = max(len(s), len(reps))
        s2 = (ONE,) * (k - len(s)) + tuple(s)
        reps = [ONE] * (k - len(reps)) + reps
        return tuple(imul(a, b) for a, b in zip(s2, reps))
    if op == "repeat":
        s = shape(n.args[0])
        if s is None:
            return None
        ax = n.args[2]
        if is_const(ax, None):
            t = n.args[1]
            for d in s:
                t = imul(t, d)
            return (t,)
        a = ax.args[0]
        return s[:a] + (imul(s[a], n.args[1]),) + s[a + 1:]
    if op == "draw":
        sz = n.args[4]
        if is_const(sz, None):
            return ()
        if sz.op in ("tuple", "list"):
            return tuple(sz.args)
        if sz.kind == "int":
            return (sz,)
        return None
    if op in ("rowmax", "rowmin", "rowsum", "rowmean"):
        s = shape(n.args[0])
        return s[:1] if s else None
    if op == "reindex":
        return shape(n.args[1])
    if op == "rangeindex":
        s = shape(n.args[0])
        return (s[0],) if s else None
    if op == "array" and n.args[0].op == "maplist" and not n.args[0].args[2] and n.args[0].args[0].kind in ("int", "float", "num", "bool"):
        return (n.args[0].args[1],)
    if op == "array" and n.args[0].op == "list" and n.args[0].args:
        its = n.args[0].args
        if all(x.kind in ("int", "float", "num", "bool") for x in its):
            return (const(len(its)),)
        ss = [shape(x) if x.kind in ("ndarray", "series") else None for x in its]
        if ss[0] is not None and all(s == ss[0] for s in ss):
            return (const(len(its)),) + tuple(ss[0])
        if all(x.op == "list" and x.args and all(y.kind in ("int", "float", "num", "bool") for y in x.args) for x in its) and len({len(x.args) for x in its}) == 1:
            return (const(len(its)), const(len(its[0].args)))
        return None
    if op == "columnsof":
        s = shape(n.args[0])
        return (s[1],) if s and len(s) == 2 else None
    if op == "indexof":
        s = shape(n.args[0])
        return (s[0],) if s else None
    if op in ("framecorr", "framecov"):
        s = shape(n.args[0])
        return (s[1], s[1]) if s is not None and len(s) == 2 else None
    if op == "diag":
        s = shape(n.args[0])
        if s is None:
            return None
        return (s[0], s[0]) if len(s) == 1 else (s[0],)
    if op == "comp" and isinstance(n.args[0], Node) and n.args[0].op == "f" and n.args[0].args[0] == "numpy.histogram" and n.kind in ("ndarray", "any"):
        return (N("dim", n, 0, kind="int"),)
    if op == "outer":
        a, b = shape(n.args[0]), shape(n.args[1])
        if a and b:
            return (a[0], b[0])
        return None
    if op == "f":
        name = n.args[0]
        a = [x for x in n.args[1:]]
        if name in ("numpy.linalg.cholesky", "numpy.linalg.inv", "scipy.linalg.logm", "numpy.triu", "numpy.tril", "numpy.real", "scipy.linalg.expm"):
            return shape(a[0])
        if name == "scipy.cluster.hierarchy.cut_tree" and len(a) > 1 and a[1].kind in ("int", "num", "any", "float") and a[1].kind not in ("list", "tuple"):
            return (N("dim", n, 0, kind="int"), const(1))
        if name == "numpy.corrcoef" or name == "numpy.cov":
            s = shape(a[0])
            if not is_const(a[1], None):
                return (const(2), const(2)) if s is not None and len(s) == 1 else None
            if s is not None and len(s) == 2:
                return (s[1], s[1]) if is_const(a[2], False) else (s[0], s[0])
            return None
        if name in ("numpy.vstack",):
            l = a[0]
            if l.op in ("list", "tuple"):
                s = shape(l.args[0])
                if s is not None and len(s) == 1 and all(shape(x) and len(shape(x)) == 1 for x in l.args):
                    return (const(len(l.args)), s[0])
            return None
        if name in ("numpy.column_stack",):
            l = a[0]
            if l.op in ("list", "tuple"):
                s = shape(l.args[0])
                if s is not None and len(s) == 1:
                    return (s[0], const(len(l.args)))
            return None
        if name in ("numpy.diff",):
            return None
        if name == "numpy.eye" or name == "numpy.identity":
            return (a[0], a[0])
        if name in ("numpy.argsort",):
            return shape(a[0])
        if name == "date_range":
            return (a[2],) if a[2].kind == "int" else None
        return None
    if op == "comp" and n.args[0].op == "f" and n.args[0].args[0] == "numpy.linalg.svd" and is_const(n.args[0].args[2], True) and n.args[1] in (0, 2):
        s = shape(n.args[0].args[1])
        return None if s is None or len(s) != 2 else (s[0], s[0]) if n.args[1] == 0 else (s[1], s[1])
    if op == "eigh0":
        s = shape(n.args[0])
        return (s[0],) if s else None
    if op == "eigh1":
        s = shape(n.args[0])
        return s
    if op in ("mkframe", "dictframe") or op == "dict" and n.args:
        d = n.args[0] if op != "dict" else n
        if isinstance(d, Node) and d.op == "dict" and d.args:
            items = d.args[0] if isinstance(d.args[0], tuple) and d.args[0] and isinstance(d.args[0][0], tuple) else ()
            vals = [v for k, v in items if isinstance(v, Node)]
            s = shape(vals[0]) if vals else None
            return (s[0], const(len(items))) if s else None
        return shape(d) if isinstance(d, Node) and d.op != "dict" else None
    if op in ("sort_values", "sort_index"):
        return shape(n.args[0])
    if op == "resetindex":
        return shape(n.args[0])
    if op == "dropna":
        s = shape(n.args[0])
        return (N("count", n, kind="int"),) + s[1:] if s else None
    return None


def idiv(a, b):
    if is_const(b, 1):
        return a
    if a is b:
        return ONE
    if b.op == "const" and isinstance(b.args[0], int) and b.args[0] > 0:
        d, c = lin(a)
        if c % b.args[0] == 0 and all(v % b.args[0] == 0 for v in d.values()):
            return unlin({k: v // b.args[0] for k, v in d.items()}, c // b.args[0])
    # cancel common factors of products
    fa, fb = factors(a), factors(b)
    fb2 = []
    for f in fb:
        if f in fa:
            fa.remove(f)
        else:
            fb2.append(f)
    na, nb = ONE, ONE
    for f in fa:
        na = imul(na, f)
    for f in fb2:
        nb = imul(nb, f)
    if is_const(nb, 1):
        return na
    return N("floordiv", na, nb, kind="int")


def factors(n):
    if n.op == "mul":
        return factors(n.args[0]) + factors(n.args[1])
    # factor a common atom out of a linear form
    d, c = lin(n)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if k is not n:
            return ([const(v)] if v != 1 else []) + factors(k)
    if len(d) >= 1:
        common = None
        for k, v in d.items():
            fs = factors(k) if k is not n else [k]
            common = list(fs) if common is None else [f for f in common if f in fs]
        if c == 0 and common:
            rest = {}
            cc = 0
            for k, v in d.items():
                fs = factors(k) if k is not n else [k]
                for f in common:
                    fs.remove(f)
                if not fs:
                    cc += v
                else:
                    p = ONE
                    for f in fs:
                        p = imul(p, f)
                    rest[p] = rest.get(p, 0) + v
            r = unlin(rest, cc)
            return common + ([r] if not is_const(r, 1) else [])
    return [n]


def ndim(n):
    s = shape(n)
    return None if s is None else len(s)
