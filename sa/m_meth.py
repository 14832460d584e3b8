"""Transfer functions: attributes and methods of library values."""

from __future__ import annotations

from . import ir
from .ir import N, Node, const, NONE, TRUE, FALSE, is_const, ARRAYISH, NUMERIC
from .interp import (Ref, TupleV, ExtV, FuncV, ClassV, BoundV, MethV, PartialV, WrapV, SpecialV, PhiV, UNDEF,
                     Arr, ListO, DictO, InstO, mkphi, mkslice)
from . import shape as sh
from .shape import shape, ndim, iadd, isub, imul
from . import m_core as C
from .m_core import (arith, compare, unop, concrete_items, list_items, list_append, list_extend, dict_get, dict_set, dict_update,
                     dict_items, mkvalues, mkreshape, node_getitem, mkidx, FULL, scalar_elem_kind, _P)
from . import m_ext as E
from .m_ext import (arg, rawarg, ew1, ew2, mkwhere, mkclip, mkred, rng_draw, dims_of, dist_method, HANDLERS, UFUNC2, DRAWS, asnode_array)

DIM_ATTR = {"series": 1, "index": 1, "dtindex": 1}


def arr_ref(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), Arr)


# ------------------------------------------------------------------ attributes
def dims(n):
    s = shape(n)
    if s is not None:
        return TupleV(s)
    k = ndim(n)
    if k is None:
        k = DIM_ATTR.get(n.kind)
    if k is None and n.kind == "frame":
        k = 2
    if k is not None:
        return TupleV([N("dim", n, i, kind="int") for i in range(k)])
    return None


def mkindexof(n):
    """row labels of a pandas object"""
    if n.kind not in ("series", "frame"):
        return N("attr", n, "index")
    if n.op == "mkseries":
        if not is_const(n.args[1], None):
            return n.args[1]
        return N("rangeindex", n.args[0], kind="index")
    if n.op == "mkframe" and not is_const(n.args[1], None):
        return n.args[1]
    if n.op == "phi":
        return mkphi(n.args[0], mkindexof(n.args[1]), mkindexof(n.args[2]))
    if n.op in ("reindex",) and not is_const(n.args[1], None):
        return n.args[1]
    if n.op in ("getitem",) and len(n.args[1].args) >= 1 and n.kind in ("series", "frame"):
        b = mkindexof(n.args[0])
        if len(n.args[1].args) == 1 or n.kind == "frame":
            r = N("getitem", b, N("idx", n.args[1].args[0]), kind=b.kind)
            return r
    if n.op == "col":
        return mkindexof(n.args[0])
    if n.op == "sym":
        return N("indexof", n, kind="dtindex" if n.id in C.ELEMKIND and C.ELEMKIND[n.id] == "dtidx" else "index")
    src = ir_index_source(n)
    if src is not None and src is not n:
        return mkindexof(src)
    return N("indexof", n, kind="index")


SAME_INDEX = {"neg", "abs", "exp", "log", "isnan", "sign", "shift", "roll", "ewm", "cum", "expanding", "binv", "fillna", "floor", "ceil", "cast", "withvalues", "mask", "swhere", "store", "assignall", "setcol", "ew"}


def ir_index_source(n):
    """operand whose row labels the element-wise result carries"""
    if n.op in ("roll", "ewm", "cum", "expanding"):
        return n.args[1]
    if n.op in ("shift", "fillna", "neg", "abs", "exp", "log", "isnan", "sign", "binv", "floor", "ceil", "cast", "withvalues", "store", "assignall", "setcol",
                "bfill", "ffill", "interpolate", "replace", "round", "clip"):
        return n.args[0]
    if n.op in ("mask", "swhere"):
        ps = [a for a in (n.args[0], n.args[-1]) if isinstance(a, Node) and a.kind in ("series", "frame")]
        if len(ps) == 1 or n.op == "mask":
            return n.args[0] if n.op == "mask" else ps[0]
        if len(ps) == 2 and mkindexof(ps[0]) is mkindexof(ps[1]):
            return ps[0]
        return None
    if n.op in ("add", "sub", "mul", "truediv", "pow", "maximum", "minimum", "lt", "le", "gt", "ge", "eq", "ne", "band", "bor"):
        ps = [a for a in n.args if isinstance(a, Node) and a.kind in ("series", "frame")]
        if len(ps) == 1:
            return ps[0]
        if len(ps) == 2:
            i, j = mkindexof(ps[0]), mkindexof(ps[1])
            if i is j:
                return ps[0]
    if n.op in ("rowmax", "rowmin", "rowsum", "rowmean"):
        ixs = {mkindexof(a) for a in n.args if isinstance(a, Node) and a.kind == "series"}
        if len(ixs) == 1:
            return n.args[0]
    return None


def getattr(I, b, name):
    if isinstance(b, TupleV):
        return MethV(b, name)
    if isinstance(b, FuncV):
        if name == "__name__":
            return const(b.name)
        if name == "__doc__":
            import ast
            return const(ast.get_docstring(b.node) if hasattr(b.node, "body") and isinstance(b.node.body, list) else None)
        if name == "__wrapped__" and b.wrapped is not None:
            return b.wrapped
        return N("attr", I.freeze(b), name)
    if isinstance(b, (BoundV,)):
        if name == "__name__":
            return getattr(I, b.func, name)
        if name == "__self__":
            return b.self
        if name == "__func__":
            return b.func
        return N("attr", I.freeze(b), name)
    if isinstance(b, PartialV):
        if name == "func":
            return b.func
        return N("attr", I.freeze(b), name)
    if isinstance(b, WrapV):
        return MethV(b, name)
    if isinstance(b, Ref):
        o = I.obj(b)
        if isinstance(o, Arr):
            return arr_attr(I, b, o, name)
        if isinstance(o, (ListO, DictO)):
            return MethV(b, name)
        if isinstance(o, InstO) and o.cls == "rng":
            return MethV(b, name)
        return MethV(b, name)
    if isinstance(b, SpecialV):
        return special_attr(I, b, name)
    if isinstance(b, Node):
        return node_attr(I, b, name)
    return N("attr", I.freeze(b), name)


def arr_attr(I, b, o, name):
    n = I.content(b)
    k = o.kind
    I.event("arr-attr", kind=k, name=name, source=n)
    if name == "shape":
        d = dims(n)
        return d if d is not None else SpecialV("shape", of=n, frozen=N("shapeof", n, kind="tuple"))
    if name == "ndim":
        d = ndim(n)
        if d is None:
            d = DIM_ATTR.get(k) or (2 if k == "frame" else None)
        return const(d) if d is not None else N("ndim", n, kind="int")
    if name == "size":
        d = dims(n)
        if d is not None:
            r = const(1)
            for x in d.items:
                r = imul(r, I.freeze(x))
            return r
        return N("sizeof", n, kind="int")
    if name == "empty":
        d = dims(n)
        if d is not None and len(d.items) == 1:
            return I.compare("eq", d.items[0], const(0))
        return N("isempty", n, kind="bool")
    if name == "T":
        if k in ("series", "index", "dtindex") or ndim(n) == 1:
            return b
        return I.view(b, ("T",), k)
    if name in ("values", "array", "_values"):
        if k == "ndarray":
            return MethV(b, name)
        return I.view(b, ("values",), "ndarray")
    if name == "index" and k in ("series", "frame"):
        return owned(I, b, I.wrap(mkindexof(n)))
    if name == "columns" and k == "frame":
        return owned(I, b, I.wrap(mkcolumns(n)))
    if name == "axes":
        return N("attr", n, name)
    if name == "name" and k in ("series", "index", "dtindex"):
        if "name" in o.meta:
            return o.meta["name"]
        return N("nameof", n, kind="any")
    if name in ("iloc", "loc", "iat", "at"):
        return SpecialV(name, obj=b)
    if name in ("dtype", "dtypes"):
        return N("dtypeof", n, kind="any")
    if name in ("dt", "str", "cat"):
        return SpecialV("accessor", obj=b, name=name)
    if name in ("is_monotonic_increasing", "is_monotonic_decreasing", "is_unique", "hasnans"):
        return N(name, n, kind="bool")
    if name in ("freq", "inferred_freq", "freqstr", "tz"):
        return N("attr", n, name)
    if name in ("is_year_end", "is_year_start", "is_quarter_end", "is_quarter_start", "is_month_end", "is_month_start", "year", "month", "day", "weekday", "dayofweek", "hour"):
        return I.wrap(N("dtfield", name, n, kind="ndarray"))
    if name == "flat":
        return I.view(b, ("getitem", N("idx")), k) if ndim(n) == 1 else I.wrap(N("flatten", n, kind="ndarray"))
    if name in ("real",):
        return b
    if name == "is_integer":
        return MethV(b, name)
    if k == "frame" and name in ("open", "high", "low", "close", "volume"):
        return I.view(b, ("col", const(name)), "series")
    if name in ("nbytes", "itemsize", "strides", "flags"):
        return N("attr", n, name)
    return MethV(b, name)


def mkcolumns(n):
    if n.op == "mkframe" and not is_const(n.args[2], None):
        return n.args[2]
    if n.op in ("phi",):
        return mkphi(n.args[0], mkcolumns(n.args[1]), mkcolumns(n.args[2]))
    if n.id in E.CSVCOLS:
        return E.CSVCOLS[n.id]
    return N("columnsof", n, kind="index")


def node_attr(I, n, name):
    k = n.kind
    if k in ARRAYISH:
        return getattr(I, I.wrap(n), name)
    if n.op == "phi":
        c, a, b = n.args
        return I.lift(PhiV(c, I.wrap(a), I.wrap(b)), lambda x: I.getattr(x, name))
    if name == "shape":
        if k in NUMERIC:
            return TupleV([])
        d = dims(n)
        return d if d is not None else SpecialV("shape", of=n, frozen=N("shapeof", n, kind="tuple"))
    if name == "ndim":
        return const(0) if k in NUMERIC else (const(ndim(n)) if ndim(n) is not None else N("ndim", n, kind="int"))
    if name == "handlers" and k == "logger":
        return N("handlersof", n, kind="list")
    if k == "logger" and name in ("level", "name", "propagate", "parent", "disabled"):
        return N("attr", n, name)
    if k == "path":
        if name in ("parent", "name", "stem", "suffix", "parents", "parts"):
            return E.path_attr(n, name)
        return MethV(n, name)
    if name == "T" or name == "real":
        return n
    if name in ("days", "seconds", "value", "year", "month", "day") and k in ("timedelta", "timestamp", "any"):
        return N("attr", n, name, kind="int" if k in ("timedelta", "timestamp") else "any")
    if name in ("__doc__", "__name__", "__class__", "__module__", "annotation", "default", "kind", "arguments", "parameters"):
        return N("attr", n, name)
    if n.op == "rec":
        for kk, v in n.args[0]:
            if kk == name:
                return v
    if name in ("dtype",):
        return N("dtypeof", n)
    if name == "freq":
        return N("attr", n, name)
    if n.op == "f" and n.args[0] in ("numpy.linalg.eigh", "numpy.linalg.eig", "numpy.linalg.svd", "numpy.linalg.slogdet"):
        i = {"eigenvalues": 0, "eigenvectors": 1, "U": 0, "S": 1, "Vh": 2, "sign": 0, "logabsdet": 1}.get(name)
        if i is not None:
            return I.wrap(C.comp(n, i))
    if k == "dist":
        return MethV(n, name)
    return MethV(n, name)


def special_attr(I, b, name):
    t, d = b.tag, b.data
    if t == "signature" and name == "parameters":
        f, skip = d["func"], d["skip"]
        a = f.node.args
        ps = (a.posonlyargs + a.args)[skip:] + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])
        return I.alloc(DictO({p.arg: SpecialV("param", func=f, arg=p, frozen=N("param", f"{f.module}.{f.name}", p.arg)) for p in ps}))
    if t == "param":
        if name == "annotation":
            if d["arg"].annotation is None:
                return ExtV("inspect.Parameter.empty")
            return E.annotation_value(I, d["func"], d["arg"].annotation)
        if name == "name":
            return const(d["arg"].arg)
        if name == "default":
            f = d["func"]
            a = f.node.args
            pos = [p.arg for p in a.posonlyargs + a.args]
            if d["arg"].arg in pos:
                j = pos.index(d["arg"].arg) - (len(pos) - len(f.defaults))
                if j >= 0:
                    return f.defaults[j]
            if d["arg"].arg in f.kwdefaults:
                return f.kwdefaults[d["arg"].arg]
            return ExtV("inspect.Parameter.empty")
        return N("attr", b.data["frozen"], name)
    if t == "boundargs":
        if name == "arguments":
            return d["arguments"]
        if name == "args":
            return SpecialV("boundargs_args", ba=b)
        if name == "kwargs":
            return SpecialV("boundargs_kwargs", ba=b)
        if name == "signature":
            return d["signature"]
    if t == "shape":
        return MethV(b, name)
    if t == "accessor":
        n = I.freeze(d["obj"])
        if d["name"] == "dt" and name in ("days", "seconds", "year", "month", "day"):
            return I.wrap(N("dtfield", name, n, kind=n.kind))
        return MethV(b, name)
    if t == "environ":
        return MethV(b, name)
    if name == "__wrapped__" and t == "memo":
        return d["func"]
    return MethV(b, name)


def arr_setattr(I, b, name, v):
    o = I.obj(b)
    if name == "name":
        owner = I.root_owner(b) if o.base is None or o.owner else None
        if o.owner:
            I.event("mutate", owner=o.owner, how="assignment to .name")
        o = I.mut(b)
        o.meta["name"] = v
        return
    if name in ("index", "columns", "values", "shape", "flat"):
        if name == "index" and o.kind in ("series", "frame"):
            if o.owner:
                I.event("mutate", owner=o.owner, how="assignment to .index")
            n = I.content(b)
            o = I.mut(b)
            o.base, o.path = None, None
            o.content = N("mkseries" if o.kind == "series" else "mkframe", *( (mkvalues(n), I.freeze(v)) if o.kind == "series" else (mkvalues(n), I.freeze(v), mkcolumns(n))), kind=o.kind)
            return
        if name == "columns":
            if o.owner:
                I.event("mutate", owner=o.owner, how="assignment to .columns")
            n = I.content(b)
            o = I.mut(b)
            o.base, o.path = None, None
            o.content = N("mkframe", mkvalues(n), mkindexof(n), I.freeze(v), kind="frame")
            return
        I.set_content(b, N("setattr", I.content(b), name, I.freeze(v), kind=o.kind), how=f"assignment to .{name}")
        return
    I.event("opaque-attr-write", obj=I.freeze(b), name=name)


# ------------------------------------------------------------------ methods
BINMETH = {"add": "add", "sub": "sub", "subtract": "sub", "mul": "mul", "multiply": "mul", "div": "truediv", "truediv": "truediv", "divide": "truediv",
           "pow": "pow", "floordiv": "floordiv", "mod": "mod"}
RBIN = {"radd": "add", "rsub": "sub", "rmul": "mul", "rdiv": "truediv", "rtruediv": "truediv", "rpow": "pow"}
CMPMETH = {"lt": "lt", "le": "le", "gt": "gt", "ge": "ge", "eq": "eq", "ne": "ne"}
REDMETH = {"mean", "sum", "std", "var", "min", "max", "any", "all", "prod", "median", "argmax", "argmin", "ptp"}
FLOATS = ("float", "numpy.float64", "float64", "double", "numpy.float_", "builtins.float")
INTS = ("int", "numpy.int64", "int64", "builtins.int")
LOGLEVELS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}


def call_method(I, obj, name, args, kwargs):
    if isinstance(obj, PhiV):
        return I.lift(obj, lambda x: call_method(I, x, name, args, kwargs))
    # phi-valued arguments of array methods stay as phi terms
    if isinstance(obj, Ref):
        o = I.obj(obj)
        if isinstance(o, Arr):
            return arr_method(I, obj, o, name, args, kwargs)
        if isinstance(o, ListO):
            return list_method(I, obj, o, name, args, kwargs)
        if isinstance(o, DictO):
            return dict_method(I, obj, o, name, args, kwargs)
        if isinstance(o, InstO) and o.cls == "rng":
            if name in ("seed", "set_state"):
                o = I.mut(obj)
                o.attrs["seed"] = I.freeze(args[0]) if args else NONE
                o.attrs["count"] = const(0)
                I.event("rng-create", seed=o.attrs["seed"], api="seed")
                return NONE
            if name in ("spawn", "bit_generator"):
                return N("opaque", "rng-" + name, I.new_uid())
            if name == "shuffle":
                r = rng_draw(I, obj, "permutation", args, kwargs)
                if args and arr_ref(I, args[0]):
                    I.set_content(args[0], I.freeze(r), how="shuffle")
                return NONE
            return rng_draw(I, obj, name, args, kwargs)
    if isinstance(obj, TupleV):
        if name == "index":
            return N("indexin", I.freeze(obj), I.freeze(args[0]), kind="int")
        if name == "count":
            return N("countin", I.freeze(obj), I.freeze(args[0]), kind="int")
    if isinstance(obj, WrapV):
        if name == "setter":
            w = WrapV(obj.kind, obj.func)
            w.setter = args[0]
            return w
        return obj
    if isinstance(obj, SpecialV):
        return special_method(I, obj, name, args, kwargs)
    n = I.freeze(obj)
    return node_method(I, n, name, args, kwargs)


def owned(I, b, r):
    """the labels of a caller's container are the caller's objects too"""
    q = I.root_owner(b) if isinstance(b, Ref) else None
    if q and isinstance(r, Ref) and isinstance(I.obj(r), Arr) and I.obj(r).kind in ("index", "dtindex"):
        I.mut(r).owner = q
    return r


WRITERS = ("to_csv", "to_excel", "to_pickle", "to_parquet", "to_json", "to_hdf", "to_feather", "to_sql", "tofile", "dump")


def with_inplace(I, b, kwargs, how, node):
    """pandas inplace=True: mutate the receiver"""
    ip = kwargs.get("inplace")
    if ip is not None and I.truth(ip) is True:
        I.set_content(b, node, how=how)
        return NONE
    return I.wrap(node)


def carry(I, b, r):
    """pandas element-wise methods keep the name of the receiver"""
    if isinstance(r, Ref) and isinstance(I.obj(r), Arr) and isinstance(b, Ref):
        m = I.obj(b).meta
        if "name" in m:
            o = I.mut(r)
            o.meta.setdefault("name", m["name"])
    return r


def mkshift(n, k, fill=NONE):
    if is_const(k, 0):
        return n
    return N("shift", n, k, fill, kind=n.kind)


def axis_numbers(args, kwargs):
    """axis='columns' and axis='index' as numbers"""
    v = kwargs.get("axis")
    if isinstance(v, ir.Node) and v.op == "const" and v.args[0] in ("columns", "index", "rows"):
        kwargs = {**kwargs, "axis": const(1 if v.args[0] == "columns" else 0)}
    return args, kwargs


def arr_method(I, b, o, name, args, kwargs):
    n = I.content(b)
    k = o.kind
    I.event("arr-attr", kind=k, name=name, source=n)
    pandas = k in ("series", "frame", "index", "dtindex")
    if pandas:
        args, kwargs = axis_numbers(args, kwargs)

    def lift2(v, f):
        return I.lift(v, f)

    if name in BINMETH or name in RBIN:
        fv = kwargs.get("fill_value")
        other = args[0]
        if name in RBIN:
            r = I.binop(RBIN[name], other, b)
        else:
            r = I.binop(BINMETH[name], b, other)
        if fv is not None and not is_const(I.freeze(fv), None):
            return I.wrap(N("binfill", I.freeze(r), I.freeze(fv), kind=k))
        return r
    if name in CMPMETH:
        return I.compare(CMPMETH[name], b, args[0])
    if name == "abs" or name == "__abs__":
        return carry(I, b, I.wrap(ew1("abs", n)))
    if name in REDMETH or name in ("count", "nunique", "idxmax", "idxmin", "skew", "kurt", "sem", "first", "last", "mad"):
        ax = arg(I, args, kwargs, 0, "axis")
        if pandas and name in ("std", "var"):
            dd = arg(I, args, kwargs, 99, "ddof", const(1))
        else:
            dd = arg(I, args, kwargs, 3 if not pandas else 99, "ddof", const(0))
        if k == "frame" and is_const(ax, None) and "axis" not in kwargs:
            ax = const(0)
        if "out" in kwargs and arr_ref(I, kwargs["out"]):
            r = mkred(name, n, ax, dd, arg(I, [], kwargs, 9, "keepdims", FALSE))
            I.set_content(kwargs["out"], r, how="out=")
            return kwargs["out"]
        if pandas and is_const(kwargs.get("skipna", NONE), False):
            if n.op == "concat1" and is_const(ax, 1) and name in ("max", "min", "sum"):
                r = n.args[0]
                for x in n.args[1:]:
                    r = N({"max": "maximum", "min": "minimum", "sum": "add"}[name], r, x, kind="series")
                return I.wrap(r)
            return I.wrap(N("redna", name, n, ax, dd, kind="series" if k == "frame" else "float"))
        return I.wrap(mkred(name, n, ax, dd, arg(I, [], kwargs, 9, "keepdims", FALSE), pandas=pandas))
    if name in ("cumsum", "cumprod", "cummax", "cummin"):
        ax = arg(I, args, kwargs, 0, "axis")
        if pandas or ndim(n) == 1:
            ax = const(0)
        return carry(I, b, I.wrap(N("cum", name[3:], n, ax, kind=k)))
    if name == "shift":
        p = arg(I, args, kwargs, 0, "periods", const(1))
        if "freq" in kwargs:
            return I.wrap(N("tshift", n, p, I.freeze(kwargs["freq"]), kind=k))
        fill = arg(I, args, kwargs, 99, "fill_value")
        return carry(I, b, I.wrap(mkshift(n, p, fill)))
    if name == "diff":
        p = arg(I, args, kwargs, 0, "periods", const(1))
        return carry(I, b, I.wrap(arith("sub", n, mkshift(n, p))))
    if name == "pct_change":
        p = arg(I, args, kwargs, 0, "periods", const(1))
        return carry(I, b, I.wrap(arith("sub", arith("truediv", n, mkshift(n, p)), const(1))))
    if name == "rolling":
        w = arg(I, args, kwargs, 0, "window")
        mp = arg(I, args, kwargs, 1, "min_periods")
        ce = arg(I, args, kwargs, 2, "center", FALSE)
        cl = arg(I, args, kwargs, 5, "closed")
        if mp is w:
            mp = NONE
        return N("rolling", n, w, mp, ce, cl, kind="rolling")
    if name == "expanding":
        mp = arg(I, args, kwargs, 0, "min_periods", const(1))
        return N("expandingw", n, mp, kind="rolling")
    if name == "ewm":
        return ewm_new(I, n, args, kwargs)
    if name in ("where", "mask") and pandas:
        cond, other = args[0] if args else kwargs.get("cond"), arg(I, args, kwargs, 1, "other", N("nan", kind="float"))
        c = I.freeze(cond)
        if c.op in ("binv", "not"):
            c = c.args[0]
            name = "mask" if name == "where" else "where"
        r = N("swhere", n, c, other, kind=k) if name == "where" else N("swhere", other if other.kind in ARRAYISH else other, c, n, kind=k)
        # canonical: swhere(then, cond, else)
        return carry(I, b, with_inplace(I, b, kwargs, name, r))
    if name == "clip":
        lo, hi = arg(I, args, kwargs, 0, "lower" if pandas else "min"), arg(I, args, kwargs, 1, "upper" if pandas else "max")
        if "a_min" in kwargs:
            lo = I.freeze(kwargs["a_min"])
        if "a_max" in kwargs:
            hi = I.freeze(kwargs["a_max"])
        r = mkclip(n, lo, hi)
        if "out" in kwargs and arr_ref(I, kwargs["out"]):
            I.set_content(kwargs["out"], r, how="clip out=")
            return kwargs["out"]
        return carry(I, b, with_inplace(I, b, kwargs, "clip", r))
    if name == "fillna":
        v = arg(I, args, kwargs, 0, "value")
        if is_const(v, None):
            r = N("ffill" if is_const(arg(I, [], kwargs, 9, "method"), "ffill", "pad") else "bfill", n, kind=k)
        else:
            r = N("fillna", n, v, kind=k)
        return carry(I, b, with_inplace(I, b, kwargs, "fillna", r))
    if name in ("ffill", "bfill", "pad", "backfill"):
        return carry(I, b, with_inplace(I, b, kwargs, name, N({"pad": "ffill", "backfill": "bfill"}.get(name, name), n, kind=k)))
    if name == "interpolate":
        return with_inplace(I, b, kwargs, name, N("interpolate", n, kind=k))
    if name == "replace" and len(args) == 2 and not kwargs.keys() - {"inplace"} and k in ("series", "frame"):
        u, v = I.freeze(args[0]), I.freeze(args[1])
        if u.kind in ("int", "float") and u.op in ("const", "num") and v.kind in ("int", "float"):
            c = I.freeze(compare(I, "eq", I.wrap(n), I.wrap(u)))
            return carry(I, b, with_inplace(I, b, kwargs, "replace", N("swhere", v, c, n, kind=k)))
    if name == "replace":
        return with_inplace(I, b, kwargs, name, N("replace", n, tuple(I.freeze(a) for a in args), kind=k))
    if name == "dropna":
        return carry(I, b, with_inplace(I, b, kwargs, name, N("dropna", n, kind=k)))
    if name in ("isna", "isnull"):
        return I.wrap(ew1("isnan", n))
    if name in ("notna", "notnull"):
        return unop(I, "binv", I.wrap(ew1("isnan", n)))
    if name == "copy":
        return I.wrap(n, **o.meta)
    if name == "astype":
        t = args[0] if args else kwargs.get("dtype")
        ft = I.freeze(t)
        tn = ft.args[0] if ft.op in ("const", "ext") else None
        cp = kwargs.get("copy", args[4] if len(args) > 4 else None)
        if cp is not None and I.truth(cp) is not True and (tn in FLOATS or tn in INTS and scalar_elem_kind(n) == "int"):
            return I.view(b, ("same",), k)
        if tn in FLOATS:
            return carry(I, b, I.wrap(n))
        if tn in INTS and scalar_elem_kind(n) == "int":
            return I.wrap(n)
        r = carry(I, b, I.wrap(N("astype", n, ft, kind=k)))
        return r
    if name == "view" and k == "ndarray" and not args and not kwargs:
        return I.view(b, ("same",), k)
    if name == "rename":
        v = rawarg(args, kwargs, 0, "index", "name") if k == "series" else None
        ip = kwargs.get("inplace")
        if ip is not None and I.truth(ip) is True:
            if o.owner:
                I.event("mutate", owner=o.owner, how="rename inplace")
            oo = I.mut(b)
            if v is not None:
                oo.meta["name"] = v
            return NONE
        if k == "series":
            r = I.wrap(n)
            I.mut(r).meta["name"] = v if v is not None else NONE
            return r
        if k in ("index", "dtindex"):
            r = I.wrap(n)
            I.mut(r).meta["name"] = args[0] if args else NONE
            return r
        cols, mp = mkcolumns(n), kwargs.get("columns")
        if mp is None and is_const(I.freeze(kwargs.get("axis", NONE)), 1, "columns"):
            mp = args[0] if args else kwargs.get("mapper")
        if cols.op == "list" and set(kwargs) <= {"columns", "axis", "mapper", "copy"} and isinstance(mp, Ref) and isinstance(I.obj(mp), DictO) and I.obj(mp).sym is None:
            m = {k: I.freeze(v) for k, v in I.obj(mp).items.items()}
            return I.wrap(N("mkframe", mkvalues(n), mkindexof(n), N("list", *[m.get(c.args[0], c) for c in cols.args], kind="list"), kind="frame"))
        return I.wrap(N("mkframe", mkvalues(n), mkindexof(n), N("renamed", mkcolumns(n), tuple(I.freeze(a) for a in args), tuple((kk, I.freeze(x)) for kk, x in sorted(kwargs.items())), kind="index"), kind="frame"))
    if name == "rename_axis":
        return I.wrap(n, **o.meta)
    if name == "to_frame":
        return I.wrap(N("concat1", n, kind="frame"))
    if name == "reset_index":
        return with_inplace(I, b, kwargs, name, N("resetindex", n, kind=k if is_const(arg(I, [], kwargs, 9, "drop", FALSE), True) else "frame"))
    if name == "set_index":
        return with_inplace(I, b, kwargs, name, N("setindex", n, I.freeze(args[0] if args else kwargs.get("keys")), kind="frame"))
    if name in ("sort_index", "sort_values") and pandas:
        return with_inplace(I, b, kwargs, name, N(name, n, tuple(I.freeze(a) for a in args), tuple((kk, I.freeze(x)) for kk, x in sorted(kwargs.items()) if kk != "inplace"), kind=k))
    if name in ("drop", "drop_duplicates"):
        return with_inplace(I, b, kwargs, name, N(name, n, tuple(I.freeze(a) for a in args), tuple((kk, I.freeze(x)) for kk, x in sorted(kwargs.items()) if kk != "inplace"), kind=k))
    if name == "update":
        I.set_content(b, N("update", n, I.freeze(args[0]), kind=k), how="update")
        return NONE
    if name in ("insert", "pop") and k in ("frame", "series"):
        I.set_content(b, N(name, n, tuple(I.freeze(a) for a in args), kind=k), how=name)
        return NONE if name == "insert" else I.wrap(N("col", n, I.freeze(args[0]), kind="series"))
    if name == "reindex":
        ix = arg(I, args, kwargs, 0, "index")
        fill = arg(I, [], kwargs, 9, "fill_value")
        meth = arg(I, args, kwargs, 1, "method")
        return carry(I, b, I.wrap(N("reindex", n, ix, fill, *([meth] if not is_const(meth, None) else []), kind=k)))
    if name in ("head", "tail"):
        m = arg(I, args, kwargs, 0, "n", const(5))
        return I.view(b, ("getitem", N("idx", mkslice(NONE, m, NONE) if name == "head" else mkslice(N("neg", m, kind="int") if m.op != "const" else const(-m.args[0]), NONE, NONE))), k)
    if name in ("apply", "map", "transform", "applymap", "pipe", "agg", "aggregate"):
        f = args[0]
        if name == "pipe":
            return I.call(f, [b] + list(args[1:]), kwargs)
        if isinstance(f, ExtV) and f.name.startswith("numpy.") and k == "series":
            return I.call(f, [b], {})
        if isinstance(f, Node) and f.kind == "str":
            return arr_method(I, b, o, f.args[0], [], {})
        e = N("elemof", n, kind="num" if k == "series" else "series")
        I.suppress += 0
        if isinstance(f, (FuncV, BoundV, PartialV, MethV, SpecialV)):
            r = I.call(f, [I.wrap(e)], {})
            if I.st is None:
                return NONE
            fr = I.freeze(r)
            return I.wrap(N("applied", n, e, fr, kind="series"))
        I.event("call-opaque", func=I.freeze(f), args=[n], values=[b])
        return I.wrap(N("applied", n, e, N("apply", I.freeze(f), (e,), ()), kind="series"))
    if name in ("to_numpy", "to_list", "tolist", "__array__"):
        if name in ("to_list", "tolist"):
            return I.alloc(ListO(None, sym=N("tolist", mkvalues(n) if k == "index" else n, kind="list")))
        if k == "ndarray":
            return b
        if "copy" in kwargs and I.truth(kwargs["copy"]) is True:
            return I.wrap(mkvalues(n))
        return I.view(b, ("values",), "ndarray")
    if name in ("flatten",):
        return I.wrap(mkreshape(n, (const(-1),)))
    if name == "ravel":
        return I.view(b, ("reshape", (const(-1),)), "ndarray") if k == "ndarray" else I.view(b, ("values",), "ndarray")
    if name == "reshape":
        a = args[0] if len(args) == 1 else TupleV(args)
        ds = dims_of(I, a)
        r = mkreshape(n, ds)
        v = I.view(b, ("reshape", ds), "ndarray")
        return v
    if name == "squeeze":
        return I.view(b, ("fn", "numpy.squeeze", (NONE,)), k)
    if name in ("transpose",):
        return getattr(I, b, "T")
    if name == "item":
        return node_getitem(n, N("idx", const(0))) if ndim(n) == 1 else N("item", n, kind="num")
    if name == "dot":
        return I.binop("matmul", b, args[0])
    if name == "repeat":
        return I.wrap(N("repeat", n, I.freeze(args[0]), arg(I, args, kwargs, 1, "axis"), kind=k))
    if name == "fill":
        I.set_content(b, N("assignall", n, I.freeze(args[0]), kind=k), how="fill")
        return NONE
    if name in ("sort", "partition", "itemset", "put", "resize", "byteswap_"):
        I.set_content(b, N("sorted" if name == "sort" else name, n, kind=k), how=name)
        return NONE
    if name in ("argsort", "searchsorted", "nonzero", "round", "diagonal", "trace", "conj", "take", "swapaxes"):
        h = f"numpy.{name}"
        if name == "round":
            return carry(I, b, I.wrap(N("round", n, arg(I, args, kwargs, 0, "decimals", const(0)), kind=k)))
        return E.call_ext(I, h, [b] + list(args), kwargs)
    if name in ("corr", "cov") and k == "frame":
        if name == "corr":
            m = arg(I, args, kwargs, 0, "method", const("pearson"))
            return I.wrap(N("framecorr", n, m, arg(I, args, kwargs, 1, "min_periods", const(1)), arg(I, args, kwargs, 2, "numeric_only", const(False)), kind="frame"))
        return I.wrap(N("framecov", n, arg(I, args, kwargs, 1, "ddof", const(1)), arg(I, args, kwargs, 0, "min_periods", const(1)), kind="frame"))
    if name in ("corr", "cov") and k == "series":
        return N("scorr" if name == "corr" else "scov", n, I.freeze(args[0]), kind="float")
    if name == "autocorr":
        return N("autocorr", n, arg(I, args, kwargs, 0, "lag", const(1)), kind="float")
    if name == "quantile":
        return N("quantile", n, arg(I, args, kwargs, 0, "q", HALF_), kind="num")
    if name == "value_counts":
        return I.wrap(N("value_counts", n, kind="series"))
    if name == "unique":
        return I.wrap(N("f", "numpy.unique", n, FALSE, FALSE, FALSE, kind="ndarray" if k != "dtindex" else k))
    if name == "isin":
        return I.wrap(N("isin", n, I.freeze(args[0]), kind=k if pandas else "ndarray"))
    if name == "between":
        return I.wrap(N("between", n, I.freeze(args[0]), I.freeze(args[1]), kind=k))
    if name == "to_series":
        return I.wrap(N("mkseries", n, n, kind="series"))
    if name == "to_period" or name == "tz_localize" or name == "tz_convert" or name == "normalize":
        return I.wrap(N(name, n, tuple(I.freeze(a) for a in args), kind=k))
    if name == "equals":
        return N("equals", n, I.freeze(args[0]), kind="bool")
    if name in ("items", "iteritems", "iterrows", "itertuples"):
        return SpecialV("opaqueiter", of=n, frozen=N(name, n))
    if name in ("get_indexer", "get_loc", "difference", "intersection", "union", "append", "duplicated", "rank", "nlargest", "nsmallest", "join", "merge", "groupby", "resample", "asfreq", "stack", "unstack", "melt", "pivot", "truncate", "get", "select_dtypes", "describe", "keys", "xs", "sample", "add_suffix", "add_prefix", "filter", "insert", "delete", "is_integer", "combine_first", "align", "squeeze", "nlargest", "view", "tobytes", "tostring", "to_dict", "to_csv", "to_string", "idxmax", "to_excel", "to_pickle", "to_parquet", "to_json", "to_hdf", "to_feather", "to_sql", "tofile", "dump"):
        kk = {"groupby": "groupby", "resample": "groupby"}.get(name, "any")
        if name in ("get_loc",):
            kk = "int"
        if name in ("append", "difference", "union", "intersection"):
            kk = k
        if name in WRITERS and args:
            I.event("fs-write", api=name)
        if name == "sample":
            rs = arg(I, [], kwargs, 99, "random_state")
            if is_const(rs, None):
                I.event("global-rng", api="sample", args=[])
        return I.wrap(N("meth:" + name, n, tuple(I.freeze(a) for a in args), tuple((q, I.freeze(x)) for q, x in sorted(kwargs.items())), kind=kk))
    if name in ("mean_", "plot"):
        return N("plot", n)
    if name in ("__len__",):
        return E.call_ext(I, "len", [b], {})
    if name == "__getitem__":
        return I.getitem(b, args[0])
    if name == "__setitem__":
        I.setitem(b, args[0], args[1])
        return NONE
    I.unknown_ext["method:" + name] = I.unknown_ext.get("method:" + name, 0) + 1
    I.event("unknown-ext", name="method:" + name, values=[b] + list(args) + list(kwargs.values()))
    return N("meth:" + name, n, tuple(I.freeze(a) for a in args), tuple((q, I.freeze(x)) for q, x in sorted(kwargs.items())))


HALF_ = const(0.5)


def ewm_new(I, n, args, kwargs):
    com, span = arg(I, args, kwargs, 0, "com"), arg(I, args, kwargs, 1, "span")
    hl, al = arg(I, args, kwargs, 2, "halflife"), arg(I, args, kwargs, 3, "alpha")
    mp = arg(I, args, kwargs, 4, "min_periods", const(0))
    adj = arg(I, args, kwargs, 5, "adjust", TRUE)
    ign = arg(I, args, kwargs, 6, "ignore_na", FALSE)
    if not is_const(al, None):
        a = al
    elif not is_const(com, None):
        a = arith("truediv", const(1), arith("add", const(1), com))
    elif not is_const(span, None):
        a = arith("truediv", const(2), arith("add", span, const(1)))
    else:
        a = N("halflife", hl, kind="float")
    return N("ewmw", n, a, adj, ign, mp, kind="ewm")


def window_method(I, n, name, args, kwargs):
    if n.op in ("rolling", "expandingw"):
        if n.op == "rolling":
            x, w, mp, ce, cl = n.args
        else:
            x, mp = n.args
            w, ce, cl = const("inf"), FALSE, NONE
        if name in ("std", "var"):
            dd = arg(I, args, kwargs, 0, "ddof", const(1))
        else:
            dd = NONE
        other = NONE
        if name in ("corr", "cov"):
            other = arg(I, args, kwargs, 0, "other")
            dd = arg(I, args, kwargs, 2, "ddof", const(1)) if name == "cov" else NONE
        if name in ("apply", "agg", "aggregate"):
            f = rawarg(args, kwargs, 0, "func")
            if isinstance(f, Node) and f.kind == "str":
                return window_method(I, n, f.args[0], [], {})
            if isinstance(f, ExtV) and f.name in ("numpy.mean", "numpy.sum", "numpy.min", "numpy.max", "numpy.median"):
                return window_method(I, n, f.name.split(".")[1], [], {})
            e = N("windowof", x, w, kind="ndarray" if is_const(arg(I, args, kwargs, 1, "raw", FALSE), True) else "series")
            if isinstance(f, (FuncV, BoundV, PartialV, SpecialV)):
                r = I.call(f, [I.wrap(e)], {})
                if I.st is None:
                    return NONE
                other = I.freeze(r)
            else:
                other = N("apply", I.freeze(f), (e,), ())
            name = "apply"
        if name == "quantile":
            other = I.freeze(args[0])
        return I.wrap(N("roll", name, x, w, mp, ce, cl, dd, other, kind=x.kind))
    if n.op == "ewmw":
        x, a, adj, ign, mp = n.args
        dd = NONE
        if name in ("std", "var"):
            dd = arg(I, args, kwargs, 0, "bias", FALSE)
        return I.wrap(N("ewm", name, x, a, adj, ign, mp, dd, kind=x.kind))
    if n.op == "sel":
        r = window_method(I, n.args[0], name, args, kwargs)
        return I.getitem(r, n.args[1])
    return N("meth:" + name, n, tuple(I.freeze(a) for a in args), tuple((q, I.freeze(x)) for q, x in sorted(kwargs.items())))


def node_method(I, n, name, args, kwargs):
    if n.op == "phi":
        c, a, b = n.args
        return I.lift(PhiV(c, I.wrap(a), I.wrap(b)), lambda x: I.call(I.getattr(x, name), args, kwargs))
    if n.kind in ARRAYISH:
        b = I.wrap(n)
        return arr_method(I, b, I.obj(b), name, args, kwargs)
    if n.kind in ("rolling", "ewm"):
        return window_method(I, n, name, args, kwargs)
    if n.kind == "str" or n.op == "const" and isinstance(n.args[0], str) or n.op == "fstr":
        return str_method(I, n, name, args, kwargs)
    if n.kind == "dist":
        if name in ("logpdf", "pdf", "cdf", "logcdf", "ppf"):
            return dist_method(I, n, name, I.freeze(args[0]))
        if name in ("rvs",):
            rs = arg(I, args, kwargs, 1, "random_state")
            if is_const(rs, None):
                I.event("global-rng", api="rvs", args=[])
            return I.wrap(N("draw", "rvs", rs, n, I.freeze(args[0]) if args else NONE, kind="ndarray"))
    if n.kind == "logger" or n.kind == "handler":
        return logger_method(I, n, name, args, kwargs)
    if n.kind == "path":
        if name == "joinpath":
            return E.joinpath(n, *[I.freeze(a) for a in args])
        if name == "open":
            mode = arg(I, args, kwargs, 0, "mode", const("r"))
            f = N("fileobj", "open", n, mode, const(I.new_uid()), kind="file")
            I.event("open", api="path.open", target=n, mode=mode, node=f)
            return f
        if name in ("exists", "is_file"):
            return E.exists(n)
        if name in ("as_posix", "__str__", "__fspath__"):
            return const(E.path_text(n)) if E.path_text(n) is not None else N("str", n, kind="str")
        if name in ("resolve", "absolute", "expanduser"):
            return n
        if name in ("mkdir", "unlink", "write_text", "write_bytes", "touch", "rename", "rmdir"):
            I.event("fs-write", api="path." + name, target=n)
            return NONE
        if name == "with_name":
            return E.joinpath(E.path_attr(n, "parent"), I.freeze(args[0]))
        if name in ("with_suffix",):
            return N("path" + name, n, I.freeze(args[0]), kind="path")
        if name in ("glob", "rglob", "iterdir"):
            return N("pathglob", n, tuple(I.freeze(a) for a in args), kind="list")
    if n.kind == "file":
        if name in ("close", "__exit__", "__enter__"):
            I.event("file-" + name, node=n)
            return n if name == "__enter__" else NONE
        if name == "read":
            return N("fileread", n, kind="str")
        if name == "write":
            I.event("fs-write", api="file.write", target=n)
            return NONE
    if name == "total_seconds":
        return N("total_seconds", n, kind="float")
    if name == "is_integer":
        return N("is_integer", n, kind="bool")
    if name == "item" and n.kind in NUMERIC:
        return n
    if name == "copy":
        return n
    if name in REDMETH and n.kind in NUMERIC:
        return n if name in ("mean", "sum", "min", "max") else N("red", name, n, NONE, NONE, FALSE, kind="num")
    if n.kind == "any" or n.kind == "num":
        # method of a value of unknown type: treat as array when the method is array-like
        if name in ("mean", "sum", "std", "var", "min", "max", "any", "all", "reshape", "flatten", "cumsum", "dot", "clip", "astype", "ravel", "argsort", "fill", "sort"):
            m = {"reshape": "reshape", "flatten": "flatten"}.get(name)
            if name == "reshape":
                a = args[0] if len(args) == 1 else TupleV(args)
                return I.wrap(mkreshape(n, dims_of(I, a)))
            if name in ("flatten", "ravel"):
                return I.wrap(mkreshape(n, (const(-1),)))
            if name in REDMETH:
                ax = arg(I, args, kwargs, 0, "axis")
                return mkred(name, n, ax, arg(I, [], kwargs, 9, "ddof", const(0)), arg(I, [], kwargs, 9, "keepdims", FALSE))
            if name in ("fill", "sort"):
                I.event("opaque-mutate", value=n, how=name)
                return NONE
    if n.kind == "list":
        if name in ("append", "extend", "insert", "remove", "clear", "sort", "reverse", "pop"):
            I.event("opaque-mutate", value=n, how=name)
            return NONE
        if name == "index":
            return N("indexin", n, I.freeze(args[0]), kind="int")
        if name == "copy":
            return n
    if n.kind == "set" and name in ("add", "update", "discard"):
        I.event("opaque-mutate", value=n, how=name)
        return NONE
    I.event("call-opaque", func=N("meth", n, name), args=[I.freeze(a) for a in args], values=list(args))
    return N("meth:" + name, n, tuple(I.freeze(a) for a in args), tuple((q, I.freeze(x)) for q, x in sorted(kwargs.items())))


def str_method(I, n, name, args, kwargs):
    cs = [I.freeze(a) for a in args]
    if n.op == "const" and all(c.op == "const" for c in cs) and not kwargs:
        s = n.args[0]
        if name in ("lower", "upper", "strip", "title", "capitalize", "lstrip", "rstrip", "startswith", "endswith", "replace", "count", "find", "index", "zfill", "isdigit", "isalpha", "removesuffix", "removeprefix", "format", "casefold", "swapcase"):
            try:
                return const(builtins_getattr(s, name)(*[c.args[0] for c in cs]))
            except Exception:
                I.do_raise("ValueError", _P(), implicit=True)
                return NONE
        if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            r = builtins_getattr(s, name)(*[c.args[0] for c in cs])
            return I.alloc(ListO([const(x) for x in r])) if isinstance(r, list) else TupleV([const(x) for x in r])
    if name == "format" and n.op == "const":
        r = C.template(n.args[0], cs, {q: I.freeze(x) for q, x in kwargs.items()})
        if r is not None:
            return r
    if name == "join" and n.op == "const":
        its = concrete_items(I, args[0], 100)
        if its is not None:
            fs = [I.freeze(x) for x in its]
            if all(f.op == "const" and isinstance(f.args[0], str) for f in fs):
                return const(n.args[0].join(f.args[0] for f in fs))
            ps = []
            for i, f in enumerate(fs):
                ps += ([n] if i else []) + [f]
            return C.mkfstr(ps) if all(f.kind == "str" for f in fs) else N("strjoin", n, *fs, kind="str")
    kd = "bool" if name in ("startswith", "endswith", "isdigit") else ("list" if name in ("split",) else ("int" if name in ("find", "index", "count") else "str"))
    return N("strmeth", name, n, *cs, tuple((q, I.freeze(x)) for q, x in sorted(kwargs.items())), kind=kd)


builtins_getattr = __builtins__["getattr"] if isinstance(__builtins__, dict) else __builtins__.getattr


def logger_method(I, n, name, args, kwargs):
    fa = [I.freeze(a) for a in args]
    if name in LOGLEVELS:
        I.event("log", level=name, logger=n, args=fa)
        return NONE
    if name in ("setLevel", "addHandler", "removeHandler", "setFormatter", "close", "addFilter", "flush", "setStream", "removeFilter"):
        I.event("logging", what=name, target=n, args=fa)
        return NONE
    if name in ("getEffectiveLevel", "isEnabledFor", "hasHandlers", "getChild"):
        return N("logmeth", name, n, tuple(fa), kind="bool" if name in ("isEnabledFor", "hasHandlers") else "any")
    return N("logmeth", name, n, tuple(fa))


def list_method(I, b, o, name, args, kwargs):
    def mutev():
        if o.owner:
            I.event("mutate", owner=o.owner, how="list." + name)

    if name == "append":
        mutev()
        list_append(I, b, args[0])
        return NONE
    if name == "extend":
        mutev()
        list_extend(I, b, args[0])
        return NONE
    if name == "copy":
        c = o.copy()
        c.owner = None
        return I.alloc(c)
    if name == "index":
        fx = I.freeze(args[0])
        if o.items is not None and fx.op == "const":
            for i, x in enumerate(o.items):
                if I.freeze(x) is fx:
                    return const(i)
        return N("indexin", I.freeze(b), fx, kind="int")
    if name == "count":
        return N("countin", I.freeze(b), I.freeze(args[0]), kind="int")
    if name in ("insert", "remove", "clear", "sort", "reverse", "pop", "__setitem__"):
        mutev()
        m = I.mut(b)
        if name == "clear":
            m.items, m.sym = [], None
            return NONE
        if m.items is not None:
            if name == "reverse":
                m.items.reverse()
                return NONE
            if name == "pop" and (not args or I.freeze(args[0]).op == "const"):
                i = I.freeze(args[0]).args[0] if args else -1
                if m.items:
                    return m.items.pop(i)
                I.do_raise("IndexError", _P(), implicit=True)
                return NONE
            if name == "remove":
                for i, x in enumerate(m.items):
                    t = I.truth(C.compare(I, "eq", x, args[0]))
                    if t is True or t is None and x is args[0]:
                        del m.items[i]
                        return NONE
                    if t is None:
                        break
                else:
                    I.do_raise("ValueError", _P(), implicit=True)
                    return NONE
            if name == "insert" and I.freeze(args[0]).op == "const":
                m.items.insert(I.freeze(args[0]).args[0], args[1])
                return NONE
            if name == "sort" and all(I.freeze(x).op == "const" for x in m.items) and not kwargs:
                m.items.sort(key=lambda x: I.freeze(x).args[0])
                return NONE
        fz = N("listop", name, I.freeze(b), tuple(I.freeze(a) for a in args), kind="list")
        m.items, m.sym = None, fz
        return N("popped", fz) if name == "pop" else NONE
    I.event("unknown-ext", name="method:list." + name, values=[b])
    return N("meth:" + name, I.freeze(b), tuple(I.freeze(a) for a in args))


def dict_method(I, b, o, name, args, kwargs):
    def mutev():
        if o.owner:
            I.event("mutate", owner=o.owner, how="dict." + name)

    if name in ("items", "values", "keys"):
        return SpecialV("dict" + name, d=b, frozen=N("dict" + name, I.freeze(b)))
    if name == "get":
        v = dict_get(I, b, args[0])
        dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        if v is UNDEF:
            return dflt
        if isinstance(v, PhiV):
            def fix(x):
                if x is UNDEF:
                    return dflt
                if isinstance(x, PhiV):
                    return PhiV(x.cond, fix(x.a), fix(x.b))
                return x
            return fix(v)
        return v
    if name == "copy":
        c = o.copy()
        c.owner = None
        return I.alloc(c)
    if name == "update":
        mutev()
        for a in args:
            dict_update(I, b, a)
        for k, v in kwargs.items():
            dict_set(I, b, const(k), v)
        return NONE
    if name == "setdefault":
        mutev()
        v = dict_get(I, b, args[0])
        if v is UNDEF:
            v = args[1] if len(args) > 1 else NONE
            dict_set(I, b, args[0], v)
        return v
    if name in ("pop",):
        mutev()
        v = dict_get(I, b, args[0])
        if v is UNDEF:
            if len(args) > 1:
                return args[1]
            I.do_raise("KeyError", _P(), implicit=True)
            return NONE
        k = C.dict_key(I, args[0])
        m = I.mut(b)
        m.items.pop(k, None)
        return v
    if name in ("clear", "popitem"):
        mutev()
        m = I.mut(b)
        m.items = {}
        return NONE
    I.event("unknown-ext", name="method:dict." + name, values=[b])
    return N("meth:" + name, I.freeze(b), tuple(I.freeze(a) for a in args))


def special_method(I, b, name, args, kwargs):
    t, d = b.tag, b.data
    if t == "signature" and name in ("bind", "bind_partial"):
        f = d["func"]
        a2 = list(args)
        if d["skip"]:
            a2 = [NONE] + a2
        m, err = I.bind(f, a2, kwargs, partial=(name == "bind_partial"))
        if err:
            I.event("bad-call", func=f"{f.module}.{f.name}", err=err)
            I.do_raise("TypeError", _P(), implicit=True)
            return NONE
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        if name == "bind":
            nd = len(f.defaults)
            req = set(pos[: len(pos) - nd]) | {k for k in kwonly if k not in f.kwdefaults}
            if any(r not in m for r in req):
                I.event("bad-call", func=f"{f.module}.{f.name}", err=f"missing {sorted(r for r in req if r not in m)}")
                I.do_raise("TypeError", _P(), implicit=True)
                return NONE
        order = pos[d["skip"]:] + ([a.vararg.arg] if a.vararg else []) + kwonly + ([a.kwarg.arg] if a.kwarg else [])
        items = {}
        for p in order:
            if p in m:
                v = m[p]
                if isinstance(v, tuple):
                    if not v[1]:
                        continue
                    v = I.alloc(DictO(v[1]))
                if a.vararg and p == a.vararg.arg and isinstance(v, TupleV) and not v.items:
                    continue
                items[p] = v
        return SpecialV("boundargs", arguments=I.alloc(DictO(items)), func=f, skip=d["skip"], signature=b)
    if t == "boundargs" and name == "apply_defaults":
        f = d["func"]
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args][d["skip"]:]
        o = I.mut(d["arguments"])
        allpos = [p.arg for p in a.posonlyargs + a.args]
        nd = len(f.defaults)
        dm = dict(zip(allpos[len(allpos) - nd:], f.defaults))
        dm.update(f.kwdefaults)
        new = {}
        for p in pos + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else []):
            if p in o.items:
                new[p] = o.items[p]
            elif p in dm:
                new[p] = dm[p]
            elif a.vararg and p == a.vararg.arg:
                new[p] = TupleV([])
            elif a.kwarg and p == a.kwarg.arg:
                new[p] = I.alloc(DictO({}))
        o.items = new
        return NONE
    if t == "set":
        its = d["items"]
        if name in ("union", "__or__"):
            o2 = concrete_items(I, args[0], 200)
            if o2 is not None:
                out = list(its) + [x for x in o2 if all(I.freeze(x) is not I.freeze(y) for y in its)]
                return SpecialV("set", items=out, frozen=N("set", *[I.freeze(x) for x in out], kind="set"))
        if name in ("difference", "intersection"):
            o2 = concrete_items(I, args[0], 200)
            if o2 is not None and all(I.freeze(x).op == "const" for x in list(its) + o2):
                keys = {I.freeze(x) for x in o2}
                out = [x for x in its if (I.freeze(x) in keys) == (name == "intersection")]
                return SpecialV("set", items=out, frozen=N("set", *[I.freeze(x) for x in out], kind="set"))
        if name == "add":
            if all(I.freeze(args[0]) is not I.freeze(y) for y in its):
                its.append(args[0])
            b.data["frozen"] = N("set", *[I.freeze(x) for x in its], kind="set")
            return NONE
        if name in ("issubset", "issuperset"):
            return N("setcmp", name, I.freeze(b), I.freeze(args[0]), kind="bool")
    if t == "shape" and name in ("count", "index"):
        return N("opaque", name, I.new_uid(), kind="int")
    if t == "environ":
        if name in ("get", "__getitem__", "items", "keys", "copy"):
            return N("environ-get", tuple(I.freeze(a) for a in args))
        I.event("environ-write", api="os.environ." + name)
        return NONE
    if t == "gen":
        if name in ("close", "send", "throw"):
            return NONE
    if t == "accessor":
        n = I.freeze(d["obj"])
        if name == "total_seconds":
            return I.wrap(N("total_seconds", n, kind=n.kind))
        return I.wrap(N("acc:" + name, n, tuple(I.freeze(a) for a in args), kind=n.kind))
    if t == "memo" and name == "cache_clear":
        return NONE
    return N("meth:" + name, I.freeze(b), tuple(I.freeze(a) for a in args), tuple((q, I.freeze(x)) for q, x in sorted(kwargs.items())))


def call_special(I, f, args, kwargs):
    t, d = f.tag, f.data
    if t == "wraps":
        w = args[0]
        if isinstance(w, FuncV):
            w.wrapped = d["target"]
        return w
    if t == "memodeco":
        return SpecialV("memo", func=args[0], frozen=N("memo", I.freeze(args[0])))
    if t == "memo":
        I.event("memo-call", func=I.freeze(d["func"]), args=[I.freeze(a) for a in args])

        def ident(v):
            # objects without value equality are keyed by identity
            return ("obj", v.loc) if isinstance(v, Ref) and isinstance(I.obj(v), InstO) else I.freeze(v).id
        key = (I.freeze(d["func"]).id, tuple(ident(a) for a in args), tuple((k, ident(v)) for k, v in sorted(kwargs.items())))
        hit = I.memo.get(key)
        if hit is not None and (not I.st.pc or set(hit[1]) <= set(I.st.pc)) and (not isinstance(hit[0], Ref) or hit[0].loc in I.st.heap):
            return hit[0]
        r = I.call(d["func"], args, kwargs)
        if I.st is not None:
            I.memo[key] = (r, tuple(I.st.pc))
        return r
    if t == "schema":
        return E.run_schema(I, f, args[0])
    if t == "delayed":
        # joblib runs the call later in a worker; its value is the value of the call
        return I.call(d["func"], list(args), dict(kwargs))
    if t == "parallel":
        its = concrete_items(I, args[0], 200)
        if its is not None:
            return I.alloc(ListO(list(its)))
        return I.alloc(ListO(None, sym=I.freeze(args[0])))
    return N("apply", I.freeze(f), tuple(I.freeze(a) for a in args), ())
