"""Transfer functions: operators, containers, indexing, truth, loops."""
from __future__ import annotations

import math

from . import ir
from .ir import N, Node, const, NONE, TRUE, FALSE, is_const, cval, ARRAYISH, NUMERIC
from . import shape as sh
from .shape import ilin, iadd, isub, imul, shape, ndim, lin, is_boolmask
from .interval import Ivl
from .interp import (
    Ref, TupleV, ExtV, FuncV, ClassV, ModV, BoundV, MethV, PartialV, WrapV, SuperV, SpecialV, PhiV, UNDEF,
    Arr, ListO, DictO, InstO, EnvO, mkphi, mknot, conj, disj, join_kind, retag, mkslice, CMP_OPS,
)

BUILTINS = {
    "abs", "len", "range", "enumerate", "zip", "int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "isinstance",
    "issubclass", "type", "min", "max", "sum", "round", "print", "sorted", "reversed", "map", "filter", "any", "all", "getattr", "setattr",
    "hasattr", "callable", "iter", "next", "object", "property", "staticmethod", "classmethod", "super", "repr", "format", "open", "id",
    "hash", "divmod", "pow", "slice", "vars", "dir", "globals", "locals", "input", "eval", "exec", "delattr", "bytes", "complex", "ord", "chr",
    "NotImplemented", "Ellipsis", "__import__", "memoryview", "bytearray", "__debug__",
    "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "AssertionError", "AttributeError",
    "FileNotFoundError", "OSError", "IOError", "ZeroDivisionError", "OverflowError", "ArithmeticError", "StopIteration", "UserWarning", "Warning",
    "DeprecationWarning", "RuntimeWarning", "FutureWarning", "BaseException", "ImportError", "LookupError", "PermissionError", "UnboundLocalError",
    "NameError", "FloatingPointError", "KeyboardInterrupt", "SystemExit", "EOFError", "UnicodeDecodeError", "TimeoutError", "ModuleNotFoundError",
}


def builtin(name):
    if name in BUILTINS:
        if name == "NotImplemented":
            return N("ext", "NotImplemented")
        if name == "Ellipsis":
            return const(Ellipsis)
        if name == "__debug__":
            return TRUE
        return ExtV(name)
    return None


# ------------------------------------------------------------------ kinds
def ekind(*ks):
    ks = [k for k in ks if k is not None]
    for k in ("frame", "series"):
        if k in ks:
            return k
    if "any" in ks:
        return "any"
    for k in ("ndarray",):
        if k in ks:
            return k
    if "index" in ks or "dtindex" in ks:
        return "dtindex" if "dtindex" in ks else "index"
    if "timestamp" in ks and "timedelta" in ks:
        return "timestamp"
    if "timedelta" in ks:
        return "timedelta"
    if "timestamp" in ks:
        return "timestamp"
    if all(k in ("int", "bool") for k in ks):
        return "int"
    if all(k in NUMERIC for k in ks):
        return "float" if "float" in ks else "num"
    if "list" in ks or "tuple" in ks:
        return "any"
    return "any"


def fmt_part(x, conv=-1, spec=""):
    """the text of one formatted value"""
    if conv in (-1, 115) and not spec:
        if x.op == "const" and isinstance(x.args[0], (str, int)) and not isinstance(x.args[0], bool):
            return const(str(x.args[0]))
        if x.op == "path" and x.args[0].op == "const":
            return x.args[0]
        if x.kind == "str":
            return x
        return N("fmt", x, -1, "", kind="str")
    return N("fmt", x, conv, spec, kind="str")


def mkfstr(parts):
    """concatenation of text parts, flattened, adjacent constants merged"""
    out = []
    for p in parts:
        for q in (p.args if p.op == "fstr" else (p,)):
            if q.op == "const" and q.args[0] == "":
                continue
            if q.op == "const" and out and out[-1].op == "const":
                out[-1] = const(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].kind == "str":
        return out[0]
    return N("fstr", *out, kind="str")


def template(s, args, kwargs):
    """str.format with plain fields, else None"""
    import string
    parts, k = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(const(lit))
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                return None
            if field == "":
                field, k = str(k), k + 1
            x = args[int(field)] if field.isdigit() else kwargs[field]
            parts.append(fmt_part(x))
    except (ValueError, IndexError, KeyError):
        return None
    return mkfstr(parts)


def percent(s, args):
    """%-formatting with plain %s / %d fields, else None"""
    import re
    bits = re.split(r"(%[sd%])", s)
    if any("%" in b for b in bits[::2]) or sum(b != "%%" for b in bits[1::2]) != len(args):
        return None
    parts, it = [], iter(args)
    for b in bits:
        if b == "%%":
            parts.append(const("%"))
        elif b in ("%s", "%d"):
            x = next(it)
            if b == "%d" and x.kind != "int":
                return None
            parts.append(fmt_part(x))
        else:
            parts.append(const(b))
    return mkfstr(parts)


def mirrored(a, b):
    """M + M.T where M holds values in cells i < j only: the symmetric double store"""
    for m, t in ((a, b), (b, a)):
        if t.op == "T" and t.args[0] is m and m.op == "mapstore" and m.args[0].op == "zeros":
            ij = m.args[1].args
            if len(ij) == 2 and all(x.op == "combix" for x in ij) and ij[0] is not ij[1] and ij[0].args[0] == ij[1].args[0]:
                return N("mapstore2", m.args[0], m.args[1], m.args[2], N("idx", ij[1], ij[0]), *m.args[2:], kind=m.kind)
    return None


def arith(op, a, b):
    """pure element-wise arithmetic on terms, with light canonicalisation"""
    if op == "add" and (a.op == "mapstore" or b.op == "mapstore"):
        r = mirrored(a, b)
        if r is not None:
            return r
    k = ekind(a.kind, b.kind)
    if op == "add" and a.kind == b.kind == "str":
        return mkfstr([a, b])
    if a.kind == "list" and b.kind in ARRAYISH or b.kind == "list" and a.kind in ARRAYISH:
        k = a.kind if a.kind in ARRAYISH else b.kind
    if op == "truediv" and k == "int":
        k = "float"
    if op == "pow" and k == "int":
        if not (b.op == "const" and isinstance(b.args[0], int) and b.args[0] >= 0):
            k = "float" if b.op == "const" else "num"
    if op == "sub" and k == "timestamp" and a.kind == b.kind == "timestamp":
        k = "timedelta"
    if op == "truediv" and a.kind == b.kind == "timedelta":
        k = "float"
    if op == "matmul":
        a, b = scaled_product(a, b)
        na, nb = ndim(a), ndim(b)
        for x, y, d in ((a, b, b), (b, a, a)):
            if x.op == "eyemat":
                return y
        if na == 1 and nb == 1:
            k = "num"
    if a.op == "const" and b.op == "const":
        r = fold(op, a.args[0], b.args[0])
        if r is not None:
            return r
    if op in ("add", "sub", "mul") and k == "int":
        return ilin(N(op, a, b, kind="int"))
    # identities that hold exactly
    if op in ("mul", "truediv", "floordiv") and is_const(b, 1) and a.kind == k:
        return a
    if op == "mul" and is_const(a, 1) and b.kind == k:
        return b
    if op in ("add", "sub") and is_const(b, 0) and a.kind == k:
        return a
    if op == "add" and is_const(a, 0) and b.kind == k:
        return b
    if op == "floordiv" and k == "int":
        return sh.idiv(a, b)
    return N(op, a, b, kind=k)


def as_vec(x):
    """the 1-d vector v when x is v[:, None] (or a reshape of it to one column), else None"""
    if x.op == "getitem" and ndim(x.args[0]) == 1 and len(x.args[1].args) == 2 and x.args[1].args[0] is FULL and is_const(x.args[1].args[1], None):
        return x.args[0]
    if x.op == "reshape" and ndim(x.args[0]) == 1 and len(x.args[1]) == 2 and is_const(x.args[1][1], 1):
        return x.args[0]
    return None


def colvec(v):
    return node_getitem(v, N("idx", FULL, NONE))


def scaled_product(a, b):
    """(X diag(w)) Y and X (diag(w) Y) get one form: X (w[:, None] * Y)"""
    def split(x, left):
        # -> core, [inner scales as 1-d vectors]
        if x.op == "mul" and ndim(x) == 2:
            for p, q in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if ndim(q) == 2:
                    v = (p if ndim(p) == 1 else None) if left else as_vec(p)
                    if v is not None and p.kind in ARRAYISH:
                        c, r = split(q, left)
                        return c, r + [v]
        return x, []
    for x, y, left in ((a, b, True), (b, a, False)):
        if x.op == "diag" and ndim(x) == 2 and ndim(x.args[0]) == 1 and ndim(y) == 2:
            # a whole diagonal factor scales the rows / columns of the other one
            if left:
                return N("eyemat"), arith("mul", colvec(x.args[0]), y)
            return arith("mul", y, x.args[0]), N("eyemat")
    if ndim(a) != 2 or ndim(b) != 2:
        return a, b
    ca, va = split(a, True)
    cb, vb = split(b, False)
    vs = sorted(va + vb, key=lambda v: v.id)
    if not vs:
        return a, b
    w = vs[0]
    for v in vs[1:]:
        w = arith("mul", w, v)
    return ca, arith("mul", colvec(w), cb)


def fold(op, x, y):
    if isinstance(x, str) or isinstance(y, str):
        try:
            if op == "add" and isinstance(x, str) and isinstance(y, str):
                return const(x + y)
            if op == "mul":
                return const(x * y)
        except Exception:
            return None
        return None
    ok = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
    if not (ok(x) and ok(y)):
        return None
    try:
        if isinstance(x, int) and isinstance(y, int):
            if op == "add":
                return const(x + y)
            if op == "sub":
                return const(x - y)
            if op == "mul":
                return const(x * y)
            if op == "floordiv" and y:
                return const(x // y)
            if op == "mod" and y:
                return const(x % y)
            if op == "pow" and 0 <= y <= 32:
                return const(x ** y)
            if op == "truediv" and y and x % y == 0:
                return const(float(x // y))
            if op == "band":
                return const(x & y)
            if op == "bor":
                return const(x | y)
    except Exception:
        return None
    return None


def is_arr(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), Arr)


def kind_of(I, v):
    if isinstance(v, Node):
        return v.kind
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Arr):
            return o.kind
        if isinstance(o, ListO):
            return "list"
        if isinstance(o, DictO):
            return "dict"
        if isinstance(o, InstO):
            return "inst"
    if isinstance(v, TupleV):
        return "tuple"
    if isinstance(v, (FuncV, BoundV, MethV, PartialV)):
        return "func"
    if isinstance(v, ClassV):
        return "type"
    if isinstance(v, ExtV):
        return "ext"
    return "any"


def binop(I, op, a, b):
    # sequences
    if op == "add":
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return TupleV(a.items + b.items)
        la, lb = list_items(I, a), list_items(I, b)
        if la is not None and lb is not None:
            return I.alloc(ListO(la + lb))
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            its = list_items(I, x)
            if its is not None and isinstance(y, Node) and y.op == "const" and isinstance(y.args[0], int):
                return I.alloc(ListO(its * max(0, y.args[0])))
            if isinstance(x, TupleV) and isinstance(y, Node) and y.op == "const" and isinstance(y.args[0], int):
                return TupleV(x.items * max(0, y.args[0]))
            if its is not None or (isinstance(x, Ref) and isinstance(I.obj(x), ListO)):
                if not is_arr(I, y):
                    return I.alloc(ListO(None, sym=N("listrep", I.freeze(x), I.freeze(y), kind="list")))
    if op == "bor":
        da, db = dict_items(I, a), dict_items(I, b)
        if isinstance(a, Ref) and isinstance(I.obj(a), DictO) and da is not None and db is not None:
            r = I.alloc(DictO({**I.obj(a).items, **I.obj(b).items}))
            return r
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            return N("typeunion", I.freeze(a), I.freeze(b), kind="type")
    # instances with operator methods
    for x, y, dn in ((a, b, DUNDER.get(op)), ):
        if isinstance(x, Ref) and isinstance(I.obj(x), InstO) and dn:
            o = I.obj(x)
            if isinstance(o.cls, ClassV):
                f, _ = I.find_attr(o.cls, dn)
                if f is not None:
                    return I.call(f, [x, y], {})
    fa, fb = I.freeze(a), I.freeze(b)
    if fa.kind == "path" and op == "truediv":
        return I.models.joinpath(fa, fb)
    if op == "mod" and fa.op == "const" and isinstance(fa.args[0], str):
        r = percent(fa.args[0], list(fb.args) if fb.op == "tuple" else [fb])
        if r is not None:
            return r
    if op == "mod" and fa.kind == "str":
        return N("strmod", fa, fb, kind="str")
    n = arith(op, fa, fb)
    return I.wrap(n)


DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "truediv": "__truediv__", "matmul": "__matmul__", "pow": "__pow__"}


def unop(I, op, v):
    n = I.freeze(v)
    if op == "pos":
        return v
    if op == "neg":
        if n.op == "const" and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
            return const(-n.args[0])
        if n.kind == "int":
            return ilin(N("neg", n, kind="int"))
        if n.op == "neg":
            return I.wrap(n.args[0])
        return I.wrap(N("neg", n, kind=n.kind if n.kind != "bool" else "int"))
    if op == "binv":
        if n.op == "binv":
            return I.wrap(n.args[0])
        if n.kind == "bool":
            return N("binv", n, kind="int") if n.op == "const" else mknot(n)
        return I.wrap(N("binv", n, kind=n.kind))
    return N(op, n)


SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def identity_only(I, v):
    """an instance of a package class without value equality"""
    if not isinstance(v, Ref) or not isinstance(I.obj(v), InstO):
        return False
    m = I.mro(I.obj(v).cls)
    return all(isinstance(c, ClassV) and "__eq__" not in c.attrs and not I.models.is_dataclass(I, c) for c in m if not (isinstance(c, ExtV) and c.name in ("object", "builtins.object")))


def compare(I, op, a, b):
    # identity-like comparisons of non-numeric values
    if op in ("eq", "ne"):
        r = None
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            r = a.name == b.name
        elif identity_only(I, a) and identity_only(I, b):
            r = a.loc == b.loc
        elif isinstance(a, (FuncV, ClassV)) and isinstance(b, (FuncV, ClassV, ExtV)) or isinstance(b, (FuncV, ClassV)) and isinstance(a, (FuncV, ClassV, ExtV)):
            r = a is b or (isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.env == b.env)
        elif isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                r = False
            else:
                c = conj([I.as_bool(compare(I, "eq", x, y)) for x, y in zip(a.items, b.items)])
                return c if op == "eq" else mknot(c)
        elif isinstance(a, (FuncV, ClassV, ExtV, MethV, BoundV)) != isinstance(b, (FuncV, ClassV, ExtV, MethV, BoundV)) and (
            isinstance(a, Node) and a.op in ("const", "ext", "typeunion", "f", "generic") or isinstance(b, Node) and b.op in ("const", "ext", "typeunion", "f", "generic")
        ):
            fa, fb = I.freeze(a), I.freeze(b)
            r = fa is fb
        if r is not None:
            return const(r if op == "eq" else not r)
    fa, fb = I.freeze(a), I.freeze(b)
    return I.wrap(mkcmp(op, fa, fb))


def mkcmp(op, fa, fb):
    if fa.op == fb.op == "timedelta" and fa.args[0].kind == fb.args[0].kind == "int" and (fa.args[1] is fb.args[1] or any(is_const(x.args[0], 0) for x in (fa, fb))):
        return mkcmp(op, fa.args[0], fb.args[0])
    k = ekind(fa.kind, fb.kind)
    rk = k if k in ARRAYISH else "bool"
    if k in ("index", "dtindex"):
        rk = "ndarray"
    if (fa.kind == "any" or fb.kind == "any") and rk == "bool" and k == "any":
        rk = "bool"
        if "ndarray" in (fa.kind, fb.kind):
            rk = "ndarray"
    if fa.op == "const" and fb.op == "const":
        x, y = fa.args[0], fb.args[0]
        try:
            r = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]()
            return const(bool(r))
        except TypeError:
            pass
    if op in ("eq", "ne") and rk == "bool":
        if fa is fb and fa.kind in ("int", "str", "bool"):
            return const(op == "eq")
        if {fa.kind, fb.kind} == {"str", "none"} or ("none" in (fa.kind, fb.kind) and (fa.kind in NUMERIC or fb.kind in NUMERIC)):
            return const(op == "ne")
        if "str" in (fa.kind, fb.kind) and (fa.kind in NUMERIC or fb.kind in NUMERIC):
            return const(op == "ne")
    if rk == "bool" and fa.kind == "int" and fb.kind == "int":
        d, c = lin(isub(fa, fb))
        if not d:
            return const({"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op])
    # canonical orientation: constants on the right; use lt/le only when both symbolic
    if fa.op == "const" and fb.op != "const":
        fa, fb, op = fb, fa, SWAP[op]
    elif fb.op != "const" and fa.op != "const" and op in ("gt", "ge"):
        fa, fb, op = fb, fa, SWAP[op]
    if op in ("eq", "ne") and fa.op != "const" and fb.op != "const" and fa.id > fb.id:
        fa, fb = fb, fa
    return N(op, fa, fb, kind=rk)


def compare_is(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Node) and is_const(y, None):
            if isinstance(x, Node):
                if x.kind == "none":
                    return TRUE
                if x.op == "phi":
                    return mkphi(x.args[0], I.as_bool(compare_is(I, x.args[1], y)), I.as_bool(compare_is(I, x.args[2], y)))
                if x.kind != "any":
                    return FALSE
                if x.op in ("sym", "getitem", "getattr", "opaque", "apply", "f", "call", "method", "mu", "dictget", "elem", "optional", "loopexit"):
                    return N("is", x, NONE, kind="bool")
                return FALSE
            return FALSE
    if isinstance(a, ExtV) and isinstance(b, ExtV):
        return const(a.name == b.name)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return const(a.loc == b.loc)
    if isinstance(a, (FuncV, ClassV)) and isinstance(b, (FuncV, ClassV)):
        return const(a is b)
    if isinstance(a, Node) and isinstance(b, Node):
        if a.op == "const" and b.op == "const":
            return const(a.args[0] is b.args[0] or (type(a.args[0]) is type(b.args[0]) and a.args[0] == b.args[0]))
        if a is b:
            return TRUE
        if "bool" in (a.kind, b.kind) and a.kind == b.kind:
            c, v = (a, b) if b.op == "const" else (b, a)
            if v.op == "const":
                return c if v.args[0] else mknot(c)
    ka, kb = kind_of(I, a), kind_of(I, b)
    if ka != kb and "any" not in (ka, kb):
        return FALSE
    if isinstance(a, (ExtV, ClassV)) != isinstance(b, (ExtV, ClassV)):
        fa, fb = I.freeze(a), I.freeze(b)
        if fa.kind in ("none",) or fb.kind in ("none",):
            return FALSE
        return N("is", fa, fb, kind="bool")
    if isinstance(a, (ExtV, ClassV)) and isinstance(b, (ExtV, ClassV)):
        return FALSE
    return N("is", I.freeze(a), I.freeze(b), kind="bool")


def contains(I, cont, x):
    if isinstance(x, PhiV):
        return I.lift(x, lambda y: contains(I, cont, y))
    if isinstance(cont, PhiV):
        return I.lift(cont, lambda y: contains(I, y, x))
    items = None
    if isinstance(cont, TupleV):
        items = list(cont.items)
    elif isinstance(cont, Ref):
        o = I.obj(cont)
        if isinstance(o, ListO) and o.items is not None:
            items = list(o.items)
        elif isinstance(o, DictO):
            k = I.freeze(x)
            if k.op == "const":
                if k.args[0] in o.items:
                    v = o.items[k.args[0]]
                    if v is UNDEF:
                        return FALSE
                    if isinstance(v, PhiV) and (v.a is UNDEF or v.b is UNDEF):
                        return v.cond if v.b is UNDEF else mknot(v.cond)
                    return TRUE
                if o.sym is None:
                    return FALSE
            if o.sym is None:
                items = [const(kk) if not isinstance(kk, (FuncV, ClassV, ExtV, Node)) else kk for kk in o.items]
            else:
                return N("in", k, I.freeze(cont), kind="bool")
    elif isinstance(cont, SpecialV) and cont.tag == "set":
        items = cont.data["items"]
    elif isinstance(cont, SpecialV) and cont.tag in ("dictkeys",):
        return contains(I, cont.data["d"], x)
    elif isinstance(cont, SpecialV) and cont.tag == "range":
        a, b, c = (cont.data[k] for k in ("a", "b", "c"))
        if is_const(c, 1):
            fx = I.freeze(x)
            return conj([mkcmp("le", a, fx), mkcmp("lt", fx, b)])
    elif isinstance(cont, Node) and cont.op == "const" and isinstance(cont.args[0], str) and isinstance(x, Node) and x.op == "const":
        return const(x.args[0] in cont.args[0])
    if items is not None:
        cs = [I.as_bool(compare(I, "eq", x, it)) for it in items]
        return disj(cs)
    return N("in", I.freeze(x), I.freeze(cont), kind="bool")


# ------------------------------------------------------------------ truth
def truth_of(I, n):
    if n.op in ("lt", "le", "gt", "ge", "eq", "ne") and n.kind == "bool":
        a, b = n.args
        iv = Ivl(I.st.pc)
        if a.kind in NUMERIC | {"any"} and b.kind in NUMERIC | {"any"}:
            if a.kind == "int" and b.kind == "int":
                lo, hi = iv.get(isub(a, b))
            else:
                ra, rb = iv.get(a), iv.get(b)
                lo, hi = ra[0] - rb[1], ra[1] - rb[0]
                if lo != lo:
                    lo = -math.inf
                if hi != hi:
                    hi = math.inf
            if n.op == "lt":
                return True if hi < 0 else (False if lo >= 0 else None)
            if n.op == "le":
                return True if hi <= 0 else (False if lo > 0 else None)
            if n.op == "gt":
                return True if lo > 0 else (False if hi <= 0 else None)
            if n.op == "ge":
                return True if lo >= 0 else (False if hi < 0 else None)
            if n.op == "eq":
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
            if n.op == "ne":
                if lo > 0 or hi < 0:
                    return True
        if n.op in ("eq", "ne"):
            # known equality facts: x == c1 contradicts x == c2
            for c, p in I.st.pc:
                if c.op == "eq" and p and c.args[0] is a and c.args[1].op == "const" and b.op == "const" and c.args[1] is not b:
                    return n.op == "ne"
    if n.kind in ("int", "float", "num") and n.op not in CMP_OPS:
        lo, hi = Ivl(I.st.pc).get(n)
        if lo > 0 or hi < 0:
            return True
        if lo == hi == 0:
            return False
    if n.op == "bool":
        return truth_of(I, n.args[0])
    if n.kind == "list" and n.op in ("tolist", "maplist"):
        k = node_len(n)
        if k.op != "len":
            return truth_of(I, k)
    if n.kind == "none":
        return False
    if n.kind == "func" or n.kind == "type":
        return True
    return None


# ------------------------------------------------------------------ containers
def list_items(I, v):
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListO):
            return list(o.items) if o.items is not None else None
    return None


def concrete_items(I, v, limit):
    """items of a concretely known iterable, else None"""
    if isinstance(v, TupleV):
        return list(v.items)
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListO):
            return list(o.items) if o.items is not None and len(o.items) <= max(limit, 200) else None
        if isinstance(o, DictO):
            if o.sym is None and not any(x is UNDEF or isinstance(x, PhiV) and (x.a is UNDEF or x.b is UNDEF) for x in o.items.values()):
                return [key_value(k) for k in o.items]
            return None
        if isinstance(o, Arr):
            n = I.content(v)
            if n.op in ("array",) and n.args[0].op == "list":
                return [I.wrap(x) for x in n.args[0].args]
            s = shape(n) if n.kind == "ndarray" else None
            if s and is_const(s[0]) and s[0].args[0] <= limit:
                return [getitem(I, v, const(i)) for i in range(s[0].args[0])]
            return None
    if isinstance(v, Node):
        if v.op == "const" and isinstance(v.args[0], str):
            return [const(c) for c in v.args[0]]
        if v.op in ("tuple", "list"):
            return [I.wrap(x) for x in v.args]
        return None
    if isinstance(v, SpecialV):
        t, d = v.tag, v.data
        if t == "range":
            if all(is_const(d[k]) for k in "abc"):
                r = range(*(d[k].args[0] for k in "abc"))
                if len(r) <= limit:
                    return [const(i) for i in r]
            return None
        if t == "enumerate":
            its = concrete_items(I, d["it"], limit)
            if its is None or not is_const(d["start"]):
                return None
            return [TupleV([const(i + d["start"].args[0]), x]) for i, x in enumerate(its)]
        if t == "zip":
            ls = [concrete_items(I, x, limit) for x in d["its"]]
            if any(l is None for l in ls):
                return None
            return [TupleV(t) for t in zip(*ls)]
        if t == "dictitems":
            its = dict_items(I, d["d"])
            if its is None:
                return None
            return [TupleV([key_value(k), x]) for k, x in its.items()]
        if t == "dictvalues":
            its = dict_items(I, d["d"])
            return None if its is None else list(its.values())
        if t == "dictkeys":
            its = dict_items(I, d["d"])
            return None if its is None else [key_value(k) for k in its]
        if t == "set":
            return list(d["items"])
        if t == "items":
            return list(d["items"])
        if t == "combinations":
            its = concrete_items(I, d["it"], limit)
            if its is None or not is_const(d["r"]):
                return None
            import itertools
            return [TupleV(c) for c in itertools.combinations(its, d["r"].args[0])]
        if t == "reversed":
            its = concrete_items(I, d["it"], limit)
            return None if its is None else its[::-1]
        if t == "map":
            its = [concrete_items(I, x, limit) for x in d["its"]]
            if any(l is None for l in its):
                return None
            return [I.call(d["f"], list(t), {}) for t in zip(*its)]
    return None


def key_value(k):
    if isinstance(k, (FuncV, ClassV, ExtV, Node)):
        return k
    return const(k)


def seq_len(I, v):
    """length term of an iterable"""
    if isinstance(v, TupleV):
        return const(len(v.items))
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListO):
            if o.items is not None:
                return const(len(o.items))
            return node_len(o.sym)
        if isinstance(o, DictO):
            if o.sym is None and not any(isinstance(x, PhiV) and (x.a is UNDEF or x.b is UNDEF) for x in o.items.values()):
                return const(len(o.items))
            if o.sym is None:
                base = sum(1 for x in o.items.values() if not (isinstance(x, PhiV) and (x.a is UNDEF or x.b is UNDEF)))
                t = const(base)
                for x in o.items.values():
                    if isinstance(x, PhiV) and (x.a is UNDEF or x.b is UNDEF):
                        c = x.cond if x.b is UNDEF else mknot(x.cond)
                        t = iadd(t, mkphi(c, const(1), const(0)))
                return t
            return N("len", I.freeze(v), kind="int")
        if isinstance(o, Arr):
            return node_len(I.content(v))
    if isinstance(v, SpecialV):
        if v.tag == "range":
            a, b, c = v.data["a"], v.data["b"], v.data["c"]
            if is_const(c, 1):
                return isub(b, a)
            if is_const(c, -1):
                return isub(a, b)
            return N("rangelen", a, b, c, kind="int")
        if v.tag == "enumerate":
            return seq_len(I, v.data["it"])
        if v.tag == "zip":
            return seq_len(I, v.data["its"][0])
        if v.tag in ("set", "items"):
            return const(len(v.data["items"]))
        if v.tag in ("reversed",):
            return seq_len(I, v.data["it"])
        if v.tag == "combinations" and is_const(v.data["r"]):
            return N("ncomb", seq_len(I, v.data["it"]), v.data["r"], kind="int")
    if isinstance(v, Node):
        return node_len(v)
    return N("len", I.freeze(v), kind="int")


def node_len(n):
    if n.op == "const" and isinstance(n.args[0], (str, tuple)):
        return const(len(n.args[0]))
    if n.op == "phi":
        a, b = node_len(n.args[1]), node_len(n.args[2])
        return mkphi(n.args[0], a, b)
    s = shape(n)
    if s:
        return s[0]
    if n.op == "tolist":
        return node_len(n.args[0])
    if n.op == "maplist":
        return n.args[1] if not n.args[2] else N("len", n, kind="int")
    return N("len", n, kind="int")


def loop_elem(I, it, uid):
    """symbolic element of an iterable; ix is the 0-based position"""
    L = seq_len(I, it)
    desc = N("iter", L)
    ix = N("ix", uid, L, kind="int")
    return elem_at(I, it, ix, uid), desc


def elem_at(I, it, ix, uid):
    if isinstance(it, SpecialV):
        d = it.data
        if it.tag == "range":
            return iadd(d["a"], imul(d["c"], ix))
        if it.tag == "enumerate":
            return TupleV([iadd(d["start"], ix), elem_at(I, d["it"], ix, uid)])
        if it.tag == "zip":
            return TupleV([elem_at(I, x, ix, uid) for x in d["its"]])
        if it.tag == "reversed":
            L = seq_len(I, d["it"])
            return elem_at(I, d["it"], isub(isub(L, const(1)), ix), uid)
        if it.tag == "combinations" and is_const(d["r"]):
            r = d["r"].args[0]
            base = d["it"]
            L = seq_len(I, base)
            return TupleV([elem_at(I, base, N("combix", uid, i, L, kind="int"), uid) for i in range(r)])
        if it.tag == "product":
            return TupleV([elem_at(I, b, N("prodix", uid, i, seq_len(I, b), kind="int"), uid) for i, b in enumerate(d["its"])])
        if it.tag == "map":
            return I.call(d["f"], [elem_at(I, x, ix, uid) for x in d["its"]], {})
        if it.tag == "dictitems":
            return TupleV([N("dictkey", I.freeze(d["d"]), ix), N("dictval", I.freeze(d["d"]), ix)])
        if it.tag == "gen":
            return N("elem", I.freeze(it), ix)
    if isinstance(it, PhiV):
        return I.merge_value(it.cond, elem_at(I, it.a, ix, uid), elem_at(I, it.b, ix, uid))
    if isinstance(it, Ref) and isinstance(I.obj(it), Arr):
        return getitem(I, it, ix)
    return I.wrap(node_elem(I.freeze(it), ix))


def node_elem(n, ix):
    if n.op == "maplist" and not n.args[2]:
        return ir.subst(n.args[0], {n.args[3]: ix})
    if n.op == "list" and n.args and ix.op == "const" and isinstance(ix.args[0], int) and -len(n.args) <= ix.args[0] < len(n.args):
        return n.args[ix.args[0]]
    if n.op == "phi":
        return mkphi(n.args[0], node_elem(n.args[1], ix), node_elem(n.args[2], ix))
    if n.op == "listslice":
        s = n.args[1]
        if is_const(s.args[2], None) and (is_const(s.args[0], None) or s.args[0].kind == "int") and not (s.args[0].op == "const" and isinstance(s.args[0].args[0], int) and s.args[0].args[0] < 0):
            lo = const(0) if is_const(s.args[0], None) else s.args[0]
            if ix.op == "const" and ix.args[0] < 0:
                return node_elem(n.args[0], ix) if is_const(s.args[1], None) else N("elem", n, ix)
            return node_elem(n.args[0], iadd(lo, ix))
    if n.op == "array_split":
        return N("elem", n, ix, kind="ndarray")
    k = "any"
    if n.op == "handlers":
        k = "handler"
    if n.op in ("listmeth",):
        k = "any"
    return N("elem", n, ix, kind=k)


def mkmap(node, uid, desc, conds):
    """[node for ix in ...] with the index as a bound variable"""
    if uid is None:
        return N("filtered", node, desc, kind="list")
    L = desc.args[0] if desc.op == "iter" else N("len", desc, kind="int")
    ix = N("ix", uid, L, kind="int")
    lvl = 0
    for x in ir.reachable(node):
        if x.op == "bv":
            lvl = max(lvl, x.args[0] + 1)
    bv = N("bv", lvl, kind="int")
    m = {ix: bv}
    # combinations / products carry their own indices
    for x in ir.reachable(node):
        if x.op in ("combix", "prodix") and x.args[0] == uid:
            m[x] = N(x.op, ("b", lvl), *x.args[1:], kind="int")
    body = ir.subst(node, m)
    cs = tuple(ir.subst(c, m) for c in conds)
    return N("maplist", body, L, cs, bv, kind="list")


def close_scan(m, init, nxt, uid, L, free_of_mu):
    ix = N("ix", uid, L, kind="int")
    w, v = nxt.args[1].args[0], nxt.args[2]
    s = shape(init)
    if w is not iadd(ix, const(1)) or s is None or len(s) not in (1, 2) or free_of_mu(v):
        return None
    full = s[0] is iadd(L, const(1))
    if not full and (lin(isub(s[0], iadd(L, const(1))))[0] or lin(isub(s[0], iadd(L, const(1))))[1] < 0):
        return None
    lvl = 0
    for x in ir.reachable(v):
        if x.op == "bv":
            lvl = max(lvl, x.args[0] + 1)
    bv = N("bv", lvl, kind="int")
    acc = N("acc", lvl, *s[1:], kind="ndarray" if len(s) == 2 else "float")
    memo = {}

    def rec(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x is ix:
            r = bv
        elif x.op == "getitem" and x.args[0] is m:
            p = x.args[1].args
            if p and p[0] is ix:
                r = acc if len(p) == 1 else node_getitem(acc, N("idx", *[arg(q) for q in p[1:]]))
            elif p and p[0] is w:
                r = node_getitem(rec(init) if not free_of_mu(init) else init, N("idx", iadd(bv, const(1)), *[arg(q) for q in p[1:]]))
            elif p and is_const(p[0], 0) and not isinstance(p[0].args[0], bool):
                r = node_getitem(init, x.args[1])
            else:
                raise ValueError
        elif x is m or x.op == "mu" and x.args[0][0] == uid:
            raise ValueError
        else:
            na = tuple(arg(y) for y in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else N(x.op, *na, kind=x.kind)
        memo[x.id] = r
        return r

    def arg(y):
        if isinstance(y, Node):
            return rec(y)
        if isinstance(y, tuple):
            return tuple(arg(z) for z in y)
        return y

    try:
        body = rec(v)
    except ValueError:
        return None
    if not full:
        return N("scanpart", init, body, L, bv, acc, kind=m.kind)
    return N("scan", node_getitem(init, N("idx", const(0))), body, L, bv, acc, kind=m.kind)


def close_mu(I, m, mid, desc):
    """closed form of a loop-carried value at loop exit (or loopexit)"""
    d = ir.mu_defs[mid]
    init, nxt = d["init"], d["next"]
    uid = mid[0]
    if nxt is m:
        return init
    if nxt is None:
        return N("loopexit", m, kind=m.kind)
    isloopvar = lambda x: x.op == "mu" and x.args[0][0] == uid

    def free_of_mu(x):
        return not any(isloopvar(y) for y in ir.reachable(x))

    if desc.op == "iter":
        L = desc.args[0]
        # list append
        if nxt.op == "append" and nxt.args[0] is m and free_of_mu(nxt.args[1]):
            mp = mkmap(nxt.args[1], uid, desc, [])
            if init.op == "list" and not init.args:
                return mp
            return N("listcat", init, mp, kind="list")
        # conditional append
        if nxt.op == "phi" and free_of_mu(nxt.args[0]):
            c, a, b = nxt.args
            for x, y, cc in ((a, b, c), (b, a, mknot(c))):
                if y is m and x.op == "append" and x.args[0] is m and free_of_mu(x.args[1]) and init.op == "list" and not init.args:
                    return mkmap(x.args[1], uid, desc, [cc])
        # accumulation
        if nxt.op == "add":
            for x, y in ((0, 1), (1, 0)):
                if nxt.args[x] is m and free_of_mu(nxt.args[y]):
                    if nxt.kind == "int":
                        dd, c = lin(nxt)
                        if dd == {m: 1}:
                            return iadd(init, imul(const(c), L))
                    mp = mkmap(nxt.args[y], uid, desc, [])
                    return N("foldsum", init, mp.args[0], L, mp.args[3], kind=m.kind)
        # row recurrence  a[i+1] = g(a[i], i)
        if nxt.op == "store" and nxt.args[0] is m and m.kind == "ndarray" and len(nxt.args[1].args) == 1:
            r = close_scan(m, init, nxt, uid, L, free_of_mu)
            if r is not None:
                return r
        # point-wise stores
        if nxt.op == "store" and nxt.args[0] is m and free_of_mu(nxt.args[2]) and free_of_mu(nxt.args[1]):
            mp = mkmap(N("tuple", nxt.args[1], nxt.args[2]), uid, desc, [])
            return N("mapstore", init, mp.args[0].args[0], mp.args[0].args[1], L, mp.args[3], kind=m.kind)
        # symmetric double stores  r[i,j]=v; r[j,i]=v
        if nxt.op == "store" and nxt.args[0].op == "store" and nxt.args[0].args[0] is m and free_of_mu(nxt.args[2]) and free_of_mu(nxt.args[0].args[2]):
            s2 = nxt.args[0]
            mp = mkmap(N("tuple", s2.args[1], s2.args[2], nxt.args[1], nxt.args[2]), uid, desc, [])
            return N("mapstore2", init, *mp.args[0].args, L, mp.args[3], kind=m.kind)
    return N("loopexit", m, kind=m.kind)


def list_extend(I, ref, rhs):
    o = I.obj(ref)
    if o.owner:
        I.event("mutate", owner=o.owner, how="extend")
    items = concrete_items(I, rhs, 500)
    o = I.mut(ref)
    if o.items is not None and items is not None:
        o.items = o.items + items
    else:
        base = o.sym if o.items is None else N("list", *[I.freeze(x) for x in o.items], kind="list")
        o.items, o.sym = None, N("listcat", base, I.freeze(rhs), kind="list")


def list_replace(I, ref, node, how):
    o = I.obj(ref)
    if o.owner:
        I.event("mutate", owner=o.owner, how=how)
    o = I.mut(ref)
    o.items, o.sym = None, node


def list_append(I, ref, v):
    o = I.obj(ref)
    if o.owner:
        I.event("mutate", owner=o.owner, how="append")
    o = I.mut(ref)
    if o.items is not None:
        o.items = o.items + [v]
    else:
        o.sym = N("append", o.sym, I.freeze(v), kind="list")


def dict_key(I, k):
    if isinstance(k, (FuncV, ClassV, ExtV)):
        return k
    n = I.freeze(k)
    if n.op == "const":
        return n.args[0]
    return n


def dict_set(I, ref, k, v):
    o = I.obj(ref)
    if o.owner:
        I.event("mutate", owner=o.owner, how="dict-store")
    o = I.mut(ref)
    kk = dict_key(I, k)
    o.items[kk] = v


def dict_get(I, ref, k, default=None):
    o = I.obj(ref)
    kk = dict_key(I, k)
    if isinstance(kk, Node):
        # symbolic key: gate over the entries
        if o.sym is None and kk not in o.items and len(o.items) <= 40 and not any(isinstance(x, Node) for x in o.items):
            res = default
            first = default is None
            for key, v in reversed(list(o.items.items())):
                c = I.as_bool(compare(I, "eq", k, key_value(key)))
                if first:
                    res = v if default is not None else PhiV(c, v, UNDEF)
                    res = PhiV(c, v, UNDEF)
                    first = False
                else:
                    res = I.merge_value(c, v, res)
            if res is None:
                return UNDEF
            return res
        if kk in o.items:
            return o.items[kk]
        return N("dictget", I.freeze(ref), kk)
    if kk in o.items:
        v = o.items[kk]
        if v is UNDEF:
            return UNDEF if default is None else default
        if isinstance(v, PhiV) and (v.a is UNDEF or v.b is UNDEF) and default is not None:
            return I.merge_value(v.cond, default if v.a is UNDEF else v.a, default if v.b is UNDEF else v.b)
        return v
    if o.sym is not None:
        return N("dictget", I.freeze(ref), const(kk) if not isinstance(kk, (FuncV, ClassV, ExtV)) else I.freeze(kk))
    return UNDEF if default is None else default


def dict_items(I, v):
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, DictO) and o.sym is None:
            if any(x is UNDEF or (isinstance(x, PhiV) and (x.a is UNDEF or x.b is UNDEF)) for x in o.items.values()):
                return None
            return dict(o.items)
        return None
    if isinstance(v, SpecialV) and v.tag == "boundargs":
        return dict_items(I, v.data["arguments"])
    return None


def dict_update(I, ref, src):
    o = I.obj(ref)
    if o.owner:
        I.event("mutate", owner=o.owner, how="dict-update")
    if isinstance(src, Ref) and isinstance(I.obj(src), DictO):
        s = I.obj(src)
        o = I.mut(ref)
        for k, x in s.items.items():
            if isinstance(x, PhiV) and (x.a is UNDEF or x.b is UNDEF) and k in o.items:
                old = o.items[k]
                o.items[k] = I.merge_value(x.cond, old if x.a is UNDEF else x.a, old if x.b is UNDEF else x.b)
            else:
                o.items[k] = x
        if s.sym is not None:
            o.sym = s.sym
        return
    o = I.mut(ref)
    o.sym = I.freeze(src)


def delitem(I, base, idx):
    if isinstance(base, Ref):
        o = I.obj(base)
        if o is not None and getattr(o, "owner", None):
            I.event("mutate", owner=o.owner, how="del")
        if isinstance(o, DictO):
            k = dict_key(I, idx)
            o = I.mut(base)
            o.items.pop(k, None)
        elif isinstance(o, Arr):
            I.set_content(base, N("delcol", I.content(base), I.freeze(idx), kind=o.kind), how="del")


def elem_of(I, v, i):
    """i-th component when unpacking a non-literal sequence"""
    n = I.freeze(v)
    if n.op == "phi":
        a = elem_of(I, I.wrap(n.args[1]) if n.args[1].kind in ARRAYISH else n.args[1], i)
        b = elem_of(I, I.wrap(n.args[2]) if n.args[2].kind in ARRAYISH else n.args[2], i)
        return I.merge_value(n.args[0], a, b)
    if n.op in ("tuple", "list") and i < len(n.args):
        return I.wrap(n.args[i])
    if n.kind in ARRAYISH:
        return getitem(I, v, const(i))
    return I.wrap(comp(n, i))


COMP_KIND = {
    ("numpy.histogram", 0): "ndarray", ("numpy.histogram", 1): "ndarray", ("numpy.histogram2d", 0): "ndarray",
    ("numpy.histogram2d", 1): "ndarray", ("numpy.histogram2d", 2): "ndarray", ("numpy.linalg.slogdet", 0): "float",
    ("numpy.linalg.slogdet", 1): "float", ("numpy.linalg.svd", 0): "ndarray", ("numpy.linalg.svd", 1): "ndarray", ("numpy.linalg.svd", 2): "ndarray",
    ("numpy.linalg.eigh", 0): "ndarray", ("numpy.linalg.eigh", 1): "ndarray", ("numpy.linalg.eig", 0): "ndarray", ("numpy.linalg.eig", 1): "ndarray",
    ("numpy.linalg.lstsq", 0): "ndarray", ("numpy.linalg.lstsq", 1): "ndarray", ("numpy.unique", 0): "ndarray", ("numpy.unique", 1): "ndarray",
    ("numpy.nonzero", 0): "ndarray", ("numpy.linalg.qr", 0): "ndarray", ("numpy.linalg.qr", 1): "ndarray",
}


def comp(n, i):
    if n.op == "f":
        k = COMP_KIND.get((n.args[0], i), "any")
        if n.args[0] == "numpy.linalg.eigh" and i in (0, 1):
            return N(f"eigh{i}", n.args[1], kind="ndarray")
        return N("comp", n, i, kind=k)
    return N("comp", n, i)


# ------------------------------------------------------------------ indexing
def mkidx(I, i):
    """canonical index term: trailing full slices / ellipsis dropped"""
    if isinstance(i, TupleV):
        parts = [I.freeze(x) for x in i.items]
    else:
        n = I.freeze(i)
        parts = list(n.args) if n.op == "tuple" else [n]
    return norm_idx(parts)


FULL = mkslice(NONE, NONE, NONE)


def norm_idx(parts):
    parts = list(parts)
    while parts and (parts[-1] is FULL or parts[-1].kind == "ellipsis"):
        parts.pop()
    return N("idx", *parts)


def is_basic(parts):
    return all(p.op == "slice" or p.kind in ("int", "ellipsis", "none") for p in parts)


def scalar_elem_kind(n):
    if n.op == "arange" or n.op == "fint":
        return "int"
    if is_boolmask(n):
        return "bool"
    k = ELEMKIND.get(n.id)
    if k:
        return k
    if n.kind == "dtindex":
        return "timestamp"
    if n.op in ("getitem", "values", "flatten", "reshape", "store", "copy", "mkseries"):
        return scalar_elem_kind(n.args[0])
    if n.op == "add" or n.op == "sub":
        ks = {scalar_elem_kind(a) if a.kind in ARRAYISH else a.kind for a in n.args}
        if ks == {"int"}:
            return "int"
    if n.op == "elem" and n.args[0].op == "array_split":
        return scalar_elem_kind(n.args[0].args[0])
    if n.op == "array" and n.args[0].op in ("list", "maplist"):
        b = n.args[0].args[0] if n.args[0].args else None
        while isinstance(b, Node) and b.op in ("list", "tuple") and b.args:
            b = b.args[0]
        if isinstance(b, Node) and b.kind == "int":
            return "int"
    if n.op == "f" and n.args[0] in ("numpy.where", "numpy.argsort", "numpy.searchsorted", "numpy.setdiff1d", "numpy.nonzero"):
        return "int"
    if n.op == "comp" and n.args[0].op == "f" and n.args[0].args[0] in ("numpy.nonzero",):
        return "int"
    return "num"


ELEMKIND = {}


def mkcolnode(b, key):
    """column `key` of a frame term; row selection commutes with column selection"""
    if b.op == "getitem" and b.kind == "frame" and len(b.args[1].args) == 1 and b.args[1].args[0].op == "slice":
        return node_getitem(mkcolnode(b.args[0], key), b.args[1])
    if b.op == "mkframe" and b.args[0].op == "dict" and key.op == "const" and is_const(b.args[1], None):
        hit = [v for k, v in b.args[0].args[0] if k == repr(key.args[0])]
        if len(hit) == 1 and isinstance(hit[0], Node) and hit[0].kind == "series":
            return hit[0]
    return N("col", b, key, kind="series")


REV = mkslice(NONE, NONE, const(-1))


def posk(d):
    """d is an integer term with a provably positive lower bound"""
    if d.op == "const":
        return isinstance(d.args[0], int) and d.args[0] > 0
    from .interval import SYMRANGE
    return d.op == "sym" and SYMRANGE.get(d.id, (0, 0))[0] >= 1


def sorted_dir(n):
    """1 ascending / -1 descending when n is a slice chain of eigh eigenvalues"""
    if n.op == "eigh0":
        return 1
    if n.op == "getitem" and len(n.args[1].args) == 1 and n.args[1].args[0].op == "slice":
        d = sorted_dir(n.args[0])
        if d and n.args[1].args[0] is REV:
            return -d
        return d if is_const(n.args[1].args[0].args[2], None) else None
    return None


def arange_chain(p, d):
    """slices applied to arange(0, d), innermost first, or None"""
    if p.op == "arange" and is_const(p.args[0], 0) and p.args[1] is d and is_const(p.args[2], 1):
        return []
    if p.op == "getitem" and len(p.args[1].args) == 1 and p.args[1].args[0].op == "slice":
        c = arange_chain(p.args[0], d)
        return None if c is None else c + [p.args[1].args[0]]
    return None


def compose_idx(inner, outer):
    """index of m[inner][outer] on a matrix when no axis needs two slices composed, else None"""
    if not all(p.op == "slice" or p.kind == "int" for p in inner) or not all(p.op == "slice" or p.kind == "int" for p in outer):
        return None
    inner = list(inner) + [FULL] * (2 - len(inner))
    out, k, fresh = [], 0, False
    for p in inner:
        if p.op != "slice":
            out.append(p)
            continue
        q = outer[k] if k < len(outer) else FULL
        k += 1
        if q is FULL:
            out.append(p)
        elif p is FULL:
            out.append(q)
            fresh = True
        else:
            return None
    if k < len(outer) or not fresh:
        return None
    return norm_idx(out)


def rowvec(r, dims):
    """row r as an array of the given dims"""
    if r.kind not in ARRAYISH:
        return N("assignall", N("zeros", N("tuple", *dims, kind="tuple"), kind="ndarray"), r, kind="ndarray")
    s = shape(r)
    if s is not None and len(s) == len(dims) + 1:
        return mkreshape(r, dims) if len(dims) != 1 else N("flatten", r, kind="ndarray")
    return r


def node_getitem(n, idx):
    """term for n[idx] (idx canonical)"""
    parts = idx.args
    if not parts and n.kind in ARRAYISH:
        return n
    if n.kind == "ndarray" and parts and all(p.op in ("slice", "arange", "getitem") for p in parts):
        sn = shape(n)
        if sn is not None and len(parts) <= len(sn):
            if not all(p.op == "slice" for p in parts):
                cs = [[p] if p.op == "slice" else arange_chain(p, d) for p, d in zip(parts, sn)]
                if sum(p.op != "slice" for p in parts) == 1 and all(c is not None for c in cs):
                    r = n
                    for i, c in enumerate(cs):
                        for sl in c:
                            if sl is not FULL:
                                r = node_getitem(r, norm_idx([FULL] * i + [sl]))
                    return r
            elif sum(p is not FULL for p in parts) == 1 and n.op == "getitem" and sum(p is not FULL for p in n.args[1].args) == 1:
                # two slicings of one axis: reversal is outermost, double reversal cancels
                i, j = next(k for k, p in enumerate(parts) if p is not FULL), next(k for k, p in enumerate(n.args[1].args) if p is not FULL)
                inner = n.args[1].args[j]
                if i == j and inner is REV and all(p.op == "slice" for p in n.args[1].args):
                    a, b, c = parts[i].args
                    if parts[i] is REV:
                        return n.args[0]
                    if is_const(a, None) and is_const(c, None) and posk(b):
                        r = node_getitem(n.args[0], norm_idx([FULL] * i + [mkslice(ilin(N("neg", b, kind="int")), NONE, NONE)]))
                        return node_getitem(r, norm_idx([FULL] * i + [REV]))
    if n.op == "T" and ndim(n.args[0]) == 2 and len(parts) == 1 and parts[0].kind == "int":
        return node_getitem(n.args[0], N("idx", FULL, parts[0]))
    if n.op == "getitem" and n.kind == "ndarray" and n.args[0].kind == "ndarray" and ndim(n.args[0]) == 2 and is_basic(parts):
        c = compose_idx(n.args[1].args, parts)
        if c is not None:
            return node_getitem(n.args[0], c)
    if n.op == "phi":
        return mkphi(n.args[0], node_getitem(n.args[1], idx), node_getitem(n.args[2], idx))
    if n.op == "store":
        b, i2, v = n.args
        if i2 is idx:
            r = result_shape(b, idx)
            sv = shape(v)
            if r is not None and sv is not None and len(r) == len(sv):
                return v
            if r == ():
                return v
            return N("assignall", node_getitem(b, idx), v, kind=n.kind)
        if disjoint_idx(i2, idx):
            return node_getitem(b, idx)
    if n.op in ("vcat", "scan") and parts:
        r0 = n.args[0]
        p = parts[0]
        rest = N("idx", *parts[1:])
        if is_const(p, 0) and not isinstance(p.args[0], bool):
            return node_getitem(rowvec(r0, shape(n)[1:]), rest) if n.op == "vcat" or rest.args == () else N("getitem", n, idx, kind=n.kind if len(parts) == 1 else "num")
        if n.op == "vcat" and p.op == "slice" and is_const(p.args[0], 1) and is_const(p.args[1], None) and is_const(p.args[2], None, 1):
            return node_getitem(n.args[1], N("idx", FULL, *parts[1:])) if len(parts) > 1 else n.args[1]
        if n.op == "vcat" and p.kind == "int":
            q = isub(p, const(1))
            lo = Ivl().get(q)[0]
            if lo >= 0:
                return node_getitem(n.args[1], N("idx", q, *parts[1:]))
    if n.op == "assignall":
        if n.args[1].kind in NUMERIC and all(p.kind == "int" for p in parts) and ndim(n.args[0]) == len(parts):
            return n.args[1]
    if n.op in ("list",) and len(parts) == 1 and parts[0].op == "const" and isinstance(parts[0].args[0], int):
        i = parts[0].args[0]
        if -len(n.args) <= i < len(n.args):
            return n.args[i]
    if n.op == "array" and n.args[0].op in ("list",) and len(parts) >= 1 and parts[0].op == "const" and isinstance(parts[0].args[0], int):
        l = n.args[0].args
        i = parts[0].args[0]
        if -len(l) <= i < len(l):
            e = l[i]
            if len(parts) == 1:
                return e if e.kind in NUMERIC else N("array", e, kind="ndarray") if e.op == "list" else e
            if e.op == "list" and parts[1].op == "const" and isinstance(parts[1].args[0], int) and len(parts) == 2:
                return e.args[parts[1].args[0]]
    if n.op == "array" and n.args[0].op == "maplist" and not n.args[0].args[2] and len(parts) >= 1 and parts[0].kind == "int" and not (parts[0].op == "const" and parts[0].args[0] < 0):
        e = ir.subst(n.args[0].args[0], {n.args[0].args[3]: parts[0]})
        if len(parts) == 1:
            if e.op in ("list", "tuple"):
                return N("array", N("list", *e.args, kind="list"), kind="ndarray")
            return e
        if len(parts) == 2 and e.op in ("list", "tuple") and parts[1].op == "const" and isinstance(parts[1].args[0], int):
            return e.args[parts[1].args[0]]
    if n.op in ("zeros", "zeros_like"):
        rs = result_shape(n, idx)
        if rs == ():
            return const(0.0)
        if rs is not None:
            return N("zeros", N("tuple", *rs, kind="tuple"), kind="ndarray")
    if n.op == "arange" and len(parts) == 1 and parts[0].kind == "int" and is_const(n.args[2], 1) and not (parts[0].op == "const" and parts[0].args[0] < 0):
        return iadd(n.args[0], parts[0])
    if n.op == "arange" and len(parts) == 1 and is_const(parts[0], -1) and is_const(n.args[2], 1):
        return isub(n.args[1], const(1))
    if n.op == "getitem" and len(n.args[1].args) == 1 and len(parts) == 1 and n.args[1].args[0].op == "slice" and is_const(n.args[1].args[0].args[2], None):
        # compose x[a:][i]
        s = n.args[1].args[0]
        if parts[0].kind == "int" and not (parts[0].op == "const" and parts[0].args[0] < 0):
            lo = const(0) if is_const(s.args[0], None) else s.args[0]
            if not (lo.op == "const" and lo.args[0] < 0):
                return node_getitem(n.args[0], N("idx", iadd(lo, parts[0])))
    k = n.kind
    rs = result_shape(n, idx)
    if rs is not None and len(rs) == 0:
        k = scalar_elem_kind(n)
    elif rs is None and k in ARRAYISH and is_basic(parts) and all(p.kind == "int" for p in parts) and len(parts) >= 2:
        k = "num"
    elif rs is None and n.kind in ARRAYISH and len(parts) == 1 and parts[0].kind == "int" and n.kind in ("series", "index", "dtindex"):
        k = scalar_elem_kind(n)
    elif n.kind == "any":
        k = "any"
    return N("getitem", n, idx, kind=k)


def result_shape(n, idx):
    s = shape(n)
    return sh.idx_shape(s, idx.args) if s is not None else None


def _as_range(p):
    """[lo, hi) of an index part on a non-negative axis, when constant"""
    if p.op == "slice" and is_const(p.args[2], None):
        lo = 0 if is_const(p.args[0], None) else p.args[0].args[0] if p.args[0].op == "const" else None
        hi = math.inf if is_const(p.args[1], None) else p.args[1].args[0] if p.args[1].op == "const" else None
        if lo is None or hi is None or lo < 0 or hi < 0:
            return None
        return lo, hi
    if p.op == "const" and isinstance(p.args[0], int) and p.args[0] >= 0:
        return p.args[0], p.args[0] + 1
    return None


def disjoint_idx(a, b):
    for p, q in zip(a.args, b.args):
        rp, rq = _as_range(p), _as_range(q)
        if rp and rq and (rp[1] <= rq[0] or rq[1] <= rp[0]):
            return True
        if p.kind == "int" and q.kind == "int":
            d, c = lin(isub(p, q))
            if not d and c != 0:
                return True
    return False


def apply_path(b, path, kind):
    op = path[0]
    if op == "getitem":
        return node_getitem(b, path[1])
    if op == "reshape":
        return mkreshape(b, path[1])
    if op == "T":
        return mkT(b)
    if op == "values":
        return mkvalues(b)
    if op == "mkseries":
        return N("mkseries", b, path[1], kind="series")
    if op == "mkframe":
        return N("mkframe", b, path[1], path[2], kind="frame")
    if op == "col":
        return mkcolnode(b, path[1])
    if op == "same":
        return retag_cast(b, kind)
    if op == "fn":
        return N("f", path[1], b, *path[2], kind=kind)
    if op == "call":
        return N("call", path[1], (b,) + path[2], path[3], kind=kind)
    return N("view", b, str(path), kind=kind)


def retag_cast(b, kind):
    if b.kind == kind:
        return b
    return N("cast", b, kind=kind)


def mkvalues(b):
    if b.op == "mkseries":
        return b.args[0]
    if b.op == "mkframe":
        return b.args[0] if b.args[0].kind == "ndarray" else N("values", b, kind="ndarray")
    if b.kind == "ndarray":
        return b
    if b.op == "phi":
        return mkphi(b.args[0], mkvalues(b.args[1]), mkvalues(b.args[2]))
    if b.op == "withvalues":
        return b.args[1]
    return N("values", b, kind="ndarray")


def mkT(b):
    if b.op == "T":
        return b.args[0]
    if ndim(b) == 1:
        return b
    if b.op == "setdiag" and b.args[1].kind in NUMERIC:
        return N("setdiag", mkT(b.args[0]), b.args[1], kind=b.kind)
    if b.kind == "ndarray" and ndim(b) == 2:
        if b.op == "matmul" and ndim(b.args[0]) == 2 and ndim(b.args[1]) == 2:
            return arith("matmul", mkT(b.args[1]), mkT(b.args[0]))
        if b.op in ("mul", "truediv", "add", "sub"):
            new = [tr_operand(x) for x in b.args]
            if all(x is not None for x in new):
                return arith(b.op, *new)
    return N("T", b, kind=b.kind)


def tr_operand(x):
    """operand of a transposed 2-d element-wise operation"""
    if x.kind in NUMERIC:
        return x
    if ndim(x) == 2:
        v = as_vec(x)
        return v if v is not None else mkT(x)
    if ndim(x) == 1:
        return colvec(x)
    return None


def mkreshape(b, dims):
    dims = tuple(dims)
    if b.op == "reshape":
        b = b.args[0]
    s = shape(b)
    if s is not None and len(s) == len(dims):
        def match(d, e):
            return d is e or is_const(d, -1)
        if all(match(d, e) for d, e in zip(dims, s)) and sum(is_const(d, -1) for d in dims) <= 1:
            return b
        if sum(is_const(d, -1) for d in dims) == 1 and all(is_const(d, -1) or d is e for d, e in zip(dims, s)):
            return b
    if len(dims) == 1 and is_const(dims[0], -1):
        if s is not None and len(s) == 1:
            return b
        return N("flatten", b, kind="ndarray")
    return N("reshape", b, dims, kind="ndarray")


def put_path(b, path, new):
    op = path[0]
    if op == "getitem":
        return mkstore(b, path[1], new)
    if op == "reshape":
        s = shape(b)
        if s is not None:
            return mkreshape(new, s)
        return N("unreshape", new, b, kind=b.kind)
    if op == "T":
        return mkT(new)
    if op == "values":
        if b.op == "mkseries":
            return N("mkseries", new, b.args[1], kind="series")
        return N("withvalues", b, new, kind=b.kind)
    if op == "mkseries":
        return mkvalues(new)
    if op == "mkframe":
        return N("values", new, kind="ndarray")
    if op == "col":
        return N("setcol", b, path[1], new, kind="frame")
    if op == "same":
        return retag_cast(new, b.kind)
    return N("putview", b, str(path), new, kind=b.kind)


def mask_of(m, b):
    """m is an element-wise condition on b itself and scalars"""
    if m is b:
        return True
    if m.op in ("lt", "le", "gt", "ge", "eq", "ne", "band", "bor", "binv", "abs", "neg", "isnan"):
        a = [x for x in m.args if isinstance(x, Node)]
        return any(mask_of(x, b) for x in a) and all(x.kind in NUMERIC or mask_of(x, b) for x in a)
    return False


def unmask(v, mask):
    """f with v == f(x)[mask], when v is element-wise over x[mask], y[mask], ..., scalars; else None"""
    if v.kind in NUMERIC:
        return v
    if v.op == "getitem" and v.args[1] is mask:
        return v.args[0]
    if v.op in ("add", "sub", "mul", "truediv", "neg", "pow", "exp", "log", "abs", "maximum", "minimum", "sign"):
        new = [unmask(x, mask) for x in v.args]
        if all(x is not None for x in new):
            return arith(v.op, *new) if len(new) == 2 else N(v.op, *new, kind=v.kind)
    return None


def uniform(n):
    """the scalar every element of an array equals, or None"""
    if n.kind in NUMERIC:
        return n
    if n.op in ("array0", "values", "copy", "flatten", "tile", "reshape", "cast", "T", "repeat"):
        return uniform(n.args[0])
    if n.op == "getitem" and is_basic(n.args[1].args):
        return uniform(n.args[0])
    if n.op in ("array", "list") and len(n.args) == 1:
        return uniform(n.args[0])
    if n.op == "assignall" and n.args[1].kind in NUMERIC:
        return n.args[1]
    if n.op in UNIFORM_OPS:
        us = [uniform(x) for x in n.args if isinstance(x, Node)]
        if len(us) == len(n.args) and all(u is not None for u in us):
            return us[0] if len(us) == 1 and n.op == "pos" else N(n.op, *us, kind="float")
    return None


UNIFORM_OPS = {"add", "sub", "mul", "truediv", "neg", "pow", "exp", "log", "abs", "sign", "maximum", "minimum", "sqrt"}
ROW0, ROWS1 = N("idx", const(0)), None


def vcat(b, r, x):
    """rows of b when row 0 is r and rows 1.. are x (whatever b held before), or None"""
    s, sx, sr = shape(b), shape(x), shape(r) if r.kind in ARRAYISH else ()
    if s is None or sx is None or sr is None or len(s) != 2 or len(sx) != 2 or x.kind != "ndarray":
        return None
    if sx[0] is not isub(s[0], const(1)) or sx[1] is not s[1]:
        return None
    if sr and sr[-1] is not s[1] and not is_const(sr[-1], 1) or len(sr) == 2 and not is_const(sr[0], 1) or len(sr) > 2:
        return None
    return N("vcat", r, x, kind="ndarray")


def mkstore(b, idx, v):
    if v.kind in ARRAYISH and b.kind in ARRAYISH:
        u = uniform(v)
        if u is not None:
            v = u
    if idx.args and len(idx.args) == 1 and b.kind == "ndarray":
        p = idx.args[0]
        first = is_const(p, 0) and not isinstance(p.args[0], bool)
        rest = p.op == "slice" and is_const(p.args[0], 1) and is_const(p.args[1], None) and is_const(p.args[2], None, 1)
        if first or rest:
            other = None
            if b.op == "vcat":
                other = b.args[1] if first else b.args[0]
            elif b.op == "store" and len(b.args[1].args) == 1:
                q = b.args[1].args[0]
                if first and q.op == "slice" and is_const(q.args[0], 1) and is_const(q.args[1], None) and is_const(q.args[2], None, 1) or rest and is_const(q, 0):
                    other = b.args[2]
            if other is not None:
                r = vcat(b, v, other) if first else vcat(b, other, v)
                if r is not None:
                    return r
    if not idx.args:
        # full overwrite
        s, sv = shape(b), shape(v)
        if s is not None and sv is not None and len(s) == len(sv) and all(x is y for x, y in zip(s, sv)):
            return retag_cast(v, b.kind) if v.kind in ARRAYISH else v
        return N("assignall", b, v, kind=b.kind)
    if len(idx.args) == 1 and idx.args[0].kind in ARRAYISH and is_boolmask(idx.args[0]) and v.kind in ARRAYISH:
        f, sb, sm = unmask(v, idx), shape(b), shape(idx.args[0])
        if f is not None and sb is not None and sm is not None and len(sb) == len(sm) and shape(f) is not None and len(shape(f)) == len(sb):
            return N("swhere", f, idx.args[0], b, kind=b.kind)
    if len(idx.args) == 1 and idx.args[0].kind in ARRAYISH and is_boolmask(idx.args[0]) and v.kind in NUMERIC:
        sb, sm = shape(b), shape(idx.args[0])
        if sb is not None and sm is not None and len(sb) == len(sm) or mask_of(idx.args[0], b):
            return N("swhere", v, idx.args[0], b, kind=b.kind)
    if b.op == "store" and b.args[1] is idx:
        b = b.args[0]
    return N("store", b, idx, v, kind=b.kind)


def canon_bounds(I, n, idx):
    """bounds written as (length - k) become -k, a stop at the length is dropped"""
    s = shape(n)
    if s is None or not all(p.op == "slice" or p.kind == "int" for p in idx.args) or len(idx.args) > len(s):
        return idx
    out = []
    for p, d in zip(idx.args, s):
        if d.op == "const":
            out.append(p)
            continue

        def neg(b):
            if b.kind != "int" or b.op == "const":
                return b
            r = isub(d, b)
            if r.op == "const" and r.args[0] > 0 and Ivl(I.st.pc).get(d)[0] >= r.args[0]:
                return const(-r.args[0])
            return b
        if p.op == "slice" and is_const(p.args[2], None):
            a, b = neg(p.args[0]), p.args[1]
            b = NONE if b is d else neg(b)
            out.append(mkslice(NONE if is_const(a, 0) else a, b, NONE))
        elif p.op == "slice":
            out.append(p)
        else:
            out.append(neg(p))
    return norm_idx(out)


def getitem(I, b, i):
    if isinstance(i, PhiV):
        return I.lift(i, lambda x: getitem(I, b, x))
    if isinstance(b, TupleV) or (isinstance(b, Ref) and isinstance(I.obj(b), ListO)):
        items = list(b.items) if isinstance(b, TupleV) else I.obj(b).items
        fi = I.freeze(i)
        if items is not None:
            if fi.op == "const" and isinstance(fi.args[0], int):
                k = fi.args[0]
                if -len(items) <= k < len(items):
                    return items[k]
                I.event("raise", exc="IndexError", implicit=True)
                I.do_raise("IndexError", _P(), implicit=True)
                return NONE
            if fi.op == "slice" and all(x.op == "const" for x in fi.args):
                sub = items[slice(*(x.args[0] for x in fi.args))]
                return TupleV(sub) if isinstance(b, TupleV) else I.alloc(ListO(sub))
            if fi.kind == "int":
                return I.wrap(N("elem", I.freeze(b), fi))
            return I.wrap(N("elem", I.freeze(b), fi))
        sym = I.obj(b).sym
        if fi.op == "slice":
            if fi is FULL:
                return I.alloc(ListO(None, sym=sym))
            return I.alloc(ListO(None, sym=N("listslice", sym, fi, kind="list")))
        return I.wrap(node_elem(sym, fi))
    if isinstance(b, Ref):
        o = I.obj(b)
        if isinstance(o, DictO):
            v = dict_get(I, b, i)
            if v is UNDEF:
                I.do_raise("KeyError", _P(), implicit=True)
                return NONE
            if isinstance(v, PhiV):
                from .interp import has_undef
                if has_undef(v):
                    def pick(x):
                        if x is UNDEF:
                            I.do_raise("KeyError", _P(), implicit=True)
                            return NONE
                        return x
                    return I.lift(v, pick)
            return v
        if isinstance(o, Arr):
            return arr_getitem(I, b, o, i)
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            f, _ = I.find_attr(o.cls, "__getitem__")
            if f is not None:
                return I.call(f, [b, i], {})
    if isinstance(b, ExtV):
        return N("generic", b.name, I.freeze(i), kind="type")
    if isinstance(b, ClassV):
        return b
    if isinstance(b, SpecialV):
        if b.tag in ("iloc", "loc", "iat", "at"):
            return loc_get(I, b, i)
        if b.tag == "boundargs_args":
            pass
        if b.tag == "shape":
            fi = I.freeze(i)
            return N("dim", b.data["of"], fi.args[0] if fi.op == "const" else fi, kind="int")
    n = I.freeze(b)
    fi = I.freeze(i)
    if n.op == "const" and isinstance(n.args[0], str):
        if fi.op == "const" and isinstance(fi.args[0], int) and -len(n.args[0]) <= fi.args[0] < len(n.args[0]):
            return const(n.args[0][fi.args[0]])
        if fi.op == "slice" and all(x.op == "const" for x in fi.args):
            return const(n.args[0][slice(*(x.args[0] for x in fi.args))])
    if n.op == "splitconst":
        pass
    if n.op in ("tuple", "list") and fi.op == "const" and isinstance(fi.args[0], int) and -len(n.args) <= fi.args[0] < len(n.args):
        return I.wrap(n.args[fi.args[0]])
    if n.op == "maplist" and fi.kind == "int":
        return I.wrap(node_elem(n, fi))
    if n.kind in ("rolling", "groupby", "ewm"):
        return N("sel", n, fi, kind=n.kind)
    if fi.op == "const" and isinstance(fi.args[0], int) and n.op == "f":
        return I.wrap(comp(n, fi.args[0]))
    return N("getitem", n, mkidx(I, i))


class _P:
    @property
    def lineno(self):
        l = ir.cur_loc()
        return l[1] if l else 0


def arr_getitem(I, b, o, i):
    idx = mkidx(I, i)
    if o.kind == "ndarray" or len(idx.args) == 1 and idx.args[0].op == "slice":
        idx = canon_bounds(I, I.content(b), idx)
    parts = idx.args
    if o.kind == "frame":
        # column selection
        p = parts[0] if len(parts) == 1 else None
        if p is not None and (p.kind == "str" or p.op == "const" and isinstance(p.args[0], str)):
            c = I.content(b)
            if c.op == "mkframe" and c.args[0].op == "dict":
                for k, v in c.args[0].args[0]:
                    if k == repr(p.args[0]):
                        return I.wrap(v)
            return I.view(b, ("col", p), "series")
        if p is not None and p.op == "slice":
            return I.view(b, ("getitem", idx), "frame")
        n = I.content(b)
        return I.wrap(N("getitem", n, idx, kind="frame"))
    if o.kind == "series":
        n = I.content(b)
        if len(parts) == 1:
            p = parts[0]
            if p.op == "slice":
                return I.view(b, ("getitem", idx), "series")
            if p.kind in ("int",):
                I.event("series-int-index", value=n, idx=p)
                return I.wrap(node_getitem(n, idx))
            if p.kind in ARRAYISH:
                return I.wrap(N("getitem", n, idx, kind="series"))
            return N("getitem", n, idx, kind="any")
        if not parts:
            return I.view(b, ("getitem", idx), "series")
        if len(parts) == 2 and any(is_const(p, None) for p in parts):
            return I.wrap(N("getitem", n, idx, kind="series"))
        return N("getitem", n, idx, kind="any")
    n = I.content(b)
    if not parts:
        return I.view(b, ("getitem", idx), o.kind)
    r = node_getitem(n, idx)
    if is_basic(parts) and r.kind in ARRAYISH and o.kind == "ndarray":
        return I.view(b, ("getitem", idx), r.kind)
    if o.kind in ("index", "dtindex") and r.kind in ARRAYISH:
        r = retag(r, o.kind)
    return I.wrap(r)


def loc_get(I, sp, i):
    b = sp.data["obj"]
    o = I.obj(b) if isinstance(b, Ref) else None
    idx = mkidx(I, i)
    if o is not None and sp.tag == "iloc":
        idx = canon_bounds(I, I.content(b), idx)
    parts = idx.args
    if o is None:
        return N("locget", I.freeze(b), sp.tag, idx)
    if o.kind == "series":
        if len(parts) > 1 and not all(p is FULL for p in parts[1:]):
            I.event("bad-index", what="2-d indexer on a Series")
        rawparts = [I.freeze(x) for x in i.items] if isinstance(i, TupleV) else None
        if rawparts is not None and len(rawparts) > 1:
            I.event("bad-index", what="too many indexers for a Series")
            I.do_raise("IndexingError", _P(), implicit=True)
            return NONE
    if sp.tag in ("iloc", "iat"):
        if not parts:
            return I.view(b, ("getitem", idx), o.kind)
        if o.kind == "series":
            if parts[0].op == "slice":
                return I.view(b, ("getitem", idx), "series")
            if parts[0].kind == "int":
                return I.wrap(node_getitem(I.content(b), idx))
            return I.wrap(N("getitem", I.content(b), idx, kind="series"))
        if o.kind == "frame":
            ints = [p.kind == "int" for p in parts]
            if all(p.op == "slice" for p in parts):
                return I.view(b, ("getitem", idx), "frame")
            n = I.content(b)
            if len(parts) == 2 and all(ints):
                return N("ilocget", n, idx, kind="num")
            return I.wrap(N("ilocget", n, idx, kind="series" if any(ints) else "frame"))
    return I.wrap(N("locget", I.content(b), sp.tag, idx, kind=o.kind if parts and parts[0].op == "slice" or parts and parts[0].kind in ARRAYISH else "any"))


def setitem(I, b, i, v):
    if isinstance(i, PhiV):
        I.lift(i, lambda x: (setitem(I, b, x, v), NONE)[1])
        return
    if isinstance(b, Ref):
        o = I.obj(b)
        if isinstance(o, DictO):
            dict_set(I, b, i, v)
            return
        if isinstance(o, ListO):
            if o.owner:
                I.event("mutate", owner=o.owner, how="list-store")
            fi = I.freeze(i)
            o = I.mut(b)
            if o.items is not None and fi.op == "const" and isinstance(fi.args[0], int) and -len(o.items) <= fi.args[0] < len(o.items):
                o.items = list(o.items)
                o.items[fi.args[0]] = v
            else:
                base = o.sym if o.items is None else N("list", *[I.freeze(x) for x in o.items], kind="list")
                o.items, o.sym = None, N("liststore", base, fi, I.freeze(v), kind="list")
            return
        if isinstance(o, Arr):
            idx = mkidx(I, i)
            fv = I.freeze(v)
            if o.kind == "frame" and len(idx.args) == 1 and idx.args[0].kind == "str":
                I.set_content(b, N("setcol", I.content(b), idx.args[0], fv, kind="frame"), how="setitem")
                return
            if fv.kind == "list":
                fv = N("array", fv, kind="ndarray")
            I.set_content(b, mkstore(I.content(b), idx, fv), how="setitem")
            return
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            f, _ = I.find_attr(o.cls, "__setitem__")
            if f is not None:
                I.call(f, [b, i, v], {})
                return
    if isinstance(b, SpecialV) and b.tag in ("iloc", "loc", "iat", "at"):
        t = b.data["obj"]
        if isinstance(t, Ref) and isinstance(I.obj(t), Arr):
            o = I.obj(t)
            idx = mkidx(I, i)
            fv = I.freeze(v)
            if b.tag in ("iloc", "iat") or (idx.args and idx.args[0].kind in ARRAYISH):
                I.set_content(t, mkstore(I.content(t), idx, fv), how=f".{b.tag} store")
            else:
                I.set_content(t, N("locstore", I.content(t), idx, fv, kind=o.kind), how=f".{b.tag} store")
            return
        I.event("opaque-store", obj=I.freeze(t))
        return
    if isinstance(b, SpecialV) and b.tag == "environ":
        I.event("environ-write", key=I.freeze(i))
        return
    if isinstance(b, ExtV):
        I.event("ext-attr-write", obj=b.name, name="[]")
        return
    if isinstance(b, SpecialV) and b.tag == "instdict":
        I.setattr(b.data["inst"], cval(I.freeze(i)) if is_const(I.freeze(i)) else "?", v)
        return
    I.event("opaque-store", obj=I.freeze(b))
