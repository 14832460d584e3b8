"""Transfer functions for library functions (numpy, pandas, scipy, stdlib)."""
from __future__ import annotations

import csv
import gzip
import os
import pathlib

from . import ir
from .ir import N, Node, const, NONE, TRUE, FALSE, is_const, cval, ARRAYISH, NUMERIC
from . import shape as sh
from .shape import ilin, iadd, isub, imul, shape, ndim
from .shape import is_boolmask
from .interp import (
    Ref, TupleV, ExtV, FuncV, ClassV, ModV, BoundV, MethV, PartialV, WrapV, SuperV, SpecialV, PhiV, UNDEF,
    Arr, ListO, DictO, InstO, EnvO, mkphi, mknot, conj, disj, mkslice,
)
from .m_core import *
from .m_core import _P
from . import m_core as C

HALF = const(0.5)

# canonical signatures of library functions: name -> (params with defaults, result kind)
# kind: arr / num / any / ew (element-wise of first args) / same (kind of first arg)
SIGS = {}


def _sig(name, params, kind):
    ps = []
    for p in params.split(","):
        p = p.strip()
        if not p:
            continue
        if "=" in p:
            k, d = p.split("=", 1)
            ps.append((k, const(eval(d))))
        else:
            ps.append((p, None))
    SIGS[name] = (ps, kind)


for line in """
numpy.corrcoef|x,y=None,rowvar=True|arr
numpy.cov|m,y=None,rowvar=True,bias=False,ddof=None|arr
numpy.linalg.cholesky|a,upper=False|arr
numpy.linalg.inv|a|arr
numpy.linalg.pinv|a|arr
numpy.linalg.det|a|num
numpy.linalg.eigvals|a|arr
numpy.linalg.eigvalsh|a,UPLO='L'|arr
numpy.linalg.eigh|a,UPLO='L'|any
numpy.linalg.eig|a|any
numpy.linalg.svd|a,full_matrices=True,compute_uv=True,hermitian=False|any
numpy.linalg.slogdet|a|any
numpy.linalg.lstsq|a,b,rcond=None|any
numpy.linalg.solve|a,b|arr
numpy.linalg.norm|x,ord=None,axis=None,keepdims=False|num
numpy.linalg.matrix_rank|a|num
numpy.linalg.qr|a,mode='reduced'|any
numpy.histogram|a,bins=10,range=None,density=None,weights=None|any
numpy.histogram2d|x,y,bins=10,range=None,density=None,weights=None|any
numpy.histogram_bin_edges|a,bins=10,range=None,weights=None|arr
numpy.trace|a,offset=0|num
numpy.triu|m,k=0|arr
numpy.tril|m,k=0|arr
numpy.unique|ar,return_index=False,return_inverse=False,return_counts=False|any
numpy.setdiff1d|ar1,ar2,assume_unique=False|arr
numpy.union1d|ar1,ar2|arr
numpy.intersect1d|ar1,ar2,assume_unique=False|arr
numpy.searchsorted|a,v,side='left',sorter=None|any
numpy.argsort|a,axis=-1,kind=None,order=None,stable=None|arr
numpy.flatnonzero|a|arr
numpy.nonzero|a|any
numpy.argwhere|a|arr
numpy.in1d|ar1,ar2,assume_unique=False,invert=False|arr
numpy.isin|element,test_elements,assume_unique=False,invert=False|arr
numpy.allclose|a,b,rtol=1e-05,atol=1e-08,equal_nan=False|bool
numpy.array_equal|a1,a2,equal_nan=False|bool
numpy.isclose|a,b,rtol=1e-05,atol=1e-08,equal_nan=False|ew
numpy.vstack|tup|arr
numpy.hstack|tup|arr
numpy.column_stack|tup|arr
numpy.stack|arrays,axis=0|arr
numpy.concatenate|arrays,axis=0|arr
numpy.append|arr,values,axis=None|arr
numpy.meshgrid|a,b|any
numpy.broadcast_to|array,shape|arr
numpy.squeeze|a,axis=None|arr
numpy.swapaxes|a,axis1,axis2|arr
numpy.moveaxis|a,source,destination|arr
numpy.expand_dims|a,axis|arr
numpy.flip|m,axis=None|arr
numpy.flipud|m|arr
numpy.fliplr|m|arr
numpy.roll|a,shift,axis=None|arr
numpy.rot90|m,k=1|arr
numpy.eye|N,M=None,k=0,dtype=None|arr
numpy.identity|n,dtype=None|arr
numpy.percentile|a,q,axis=None|num
numpy.quantile|a,q,axis=None|num
numpy.convolve|a,v,mode='full'|arr
numpy.correlate|a,v,mode='valid'|arr
numpy.gradient|f|arr
numpy.interp|x,xp,fp|arr
numpy.polyfit|x,y,deg|arr
numpy.polyval|p,x|arr
numpy.digitize|x,bins,right=False|arr
numpy.bincount|x,weights=None,minlength=0|arr
numpy.tri|N,M=None,k=0|arr
numpy.triu_indices|n,k=0,m=None|any
numpy.tril_indices|n,k=0,m=None|any
numpy.diag_indices|n|any
numpy.real|val|same
numpy.imag|val|same
numpy.conj|x|same
numpy.count_nonzero|a,axis=None|num
numpy.can_cast|a,b|bool
numpy.dtype|a|any
numpy.finfo|a|any
numpy.result_type|a|any
numpy.ndim|a|int
numpy.size|a|int
numpy.sort|a,axis=-1|arr
numpy.kron|a,b|arr
numpy.einsum|s,a,b=None|arr
numpy.isscalar|a|bool
numpy.lib.stride_tricks.sliding_window_view|x,window_shape,axis=None|arr
numpy.ascontiguousarray|a|arr
numpy.broadcast_arrays|a,b|any
numpy.trapz|y,x=None|num
scipy.stats.entropy|pk,qk=None,base=None,axis=0|num
scipy.linalg.logm|A,disp=True|arr
scipy.linalg.expm|A|arr
scipy.linalg.sqrtm|A|arr
scipy.linalg.cholesky|a,lower=False|arr
scipy.linalg.eigh|a,b=None|any
scipy.special.xlogy|x,y|ew
scipy.special.rel_entr|x,y|ew
scipy.special.kl_div|x,y|ew
scipy.cluster.hierarchy.linkage|y,method='single',metric='euclidean',optimal_ordering=False|arr
scipy.cluster.hierarchy.cut_tree|Z,n_clusters=None,height=None|arr
scipy.cluster.hierarchy.fcluster|Z,t,criterion='inconsistent'|arr
scipy.spatial.distance.squareform|X,force='no',checks=True|arr
scipy.spatial.distance.pdist|X,metric='euclidean'|arr
sklearn.metrics.silhouette_samples|X,labels,metric='euclidean'|arr
sklearn.metrics.silhouette_score|X,labels,metric='euclidean'|num
pandas.infer_freq|index|any
pandas.to_datetime|arg|same
pandas.api.types.is_dtype_equal|source,target|bool
pandas.api.types.is_numeric_dtype|arr|bool
pandas.read_csv|filepath,index_col=None,parse_dates=None,compression='infer'|frame
pandas.isna|obj|ew
pandas.notna|obj|ew
pandas.merge|left,right|frame
math.floor|x|int
math.ceil|x|int
math.isnan|x|bool
math.isinf|x|bool
math.isfinite|x|bool
math.gcd|a,b|int
math.isclose|a,b|bool
math.erf|x|float
math.gamma|x|float
math.lgamma|x|float
math.comb|a,b|int
copy.copy|x|same
itertools.chain|a,b=None|any
itertools.count|start=0,step=1|any
numbers.Integral|x|any
""".strip().splitlines():
    nm, ps, kd = line.split("|")
    _sig(nm, ps, kd)

UFUNC1 = {
    "exp": "exp", "log": "log", "abs": "abs", "absolute": "abs", "fabs": "abs", "sign": "sign", "isnan": "isnan", "floor": "floor",
    "ceil": "ceil", "negative": "neg", "logical_not": "binv", "isfinite": "isfinite", "isinf": "isinf", "invert": "binv",
}
UFUNC2 = {
    "add": "add", "subtract": "sub", "multiply": "mul", "divide": "truediv", "true_divide": "truediv", "power": "pow", "maximum": "maximum",
    "minimum": "minimum", "logical_and": "band", "logical_or": "bor", "logical_xor": "bxor", "float_power": "pow", "floor_divide": "floordiv", "mod": "mod",
    "remainder": "mod", "fmax": "fmax", "fmin": "fmin", "bitwise_and": "band", "bitwise_or": "bor",
}
UCMP = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
EWNAMES = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arctanh", "rint", "trunc", "cbrt", "log2", "log10", "reciprocal", "arctan2", "hypot", "heaviside", "signbit"]
REDS = {"mean", "sum", "std", "var", "min", "max", "any", "all", "prod", "median", "argmax", "argmin", "nanmean", "nansum", "nanstd", "nanvar", "nanmin", "nanmax", "nanmedian", "amax", "amin", "ptp", "average"}

PURE_NAMES = set()


def ew1(op, x, kind=None):
    k = kind or x.kind
    if k in ("int", "bool") and op in ("exp", "log", "floor", "ceil"):
        k = "float"
    if op in ("isnan", "isfinite", "isinf") and k in NUMERIC:
        k = "bool"
    if op == "abs":
        if x.op == "const" and isinstance(x.args[0], (int, float)):
            return const(abs(x.args[0]))
        if x.op == "abs":
            return x
        if x.op == "neg":
            return ew1("abs", x.args[0])
    if k in ("list",):
        k = "ndarray"
    return N(op, x, kind=k)


def sqrt(x):
    return arith("pow", x, HALF)


def ekind2(a, b):
    return ekind(a.kind, b.kind)


def ew2(op, a, b):
    if op in ("add", "sub", "mul", "truediv", "pow", "band", "bor", "bxor", "floordiv", "mod"):
        return arith(op, a, b)
    return N(op, a, b, kind=ekind2(a, b))


def mkclip(x, lo, hi):
    r = x
    if not is_const(lo, None):
        r = N("maximum", r, lo, kind=x.kind)
    if not is_const(hi, None):
        r = N("minimum", r, hi, kind=x.kind)
    return r


def mkwhere(c, a, b):
    k = ekind(a.kind, b.kind) if (a.kind in ARRAYISH or b.kind in ARRAYISH) else None
    if k in ("series", "frame"):
        k = "ndarray"
    if k is None:
        k = "ndarray" if c.kind in ARRAYISH else ("any" if c.kind == "any" else "ndarray")
    while c.op in ("binv", "not"):
        c, a, b = c.args[0], b, a
    return N("where", c, a, b, kind=k)


def mkred(name, x, axis, ddof, kd, pandas=False):
    name = {"amax": "max", "amin": "min"}.get(name, name)
    if x.kind in ("series",) or (x.kind == "index") or x.kind == "dtindex":
        axis = NONE
    if ndim(x) == 1 and is_const(axis, 0, -1):
        axis = NONE
    if x.op == "concat1" and is_const(axis, 1) and name in ("max", "min", "sum", "mean"):
        return N("row" + name, *x.args, kind="series")
    if name in ("std", "var", "nanstd", "nanvar"):
        pass
    else:
        ddof = NONE
    s = shape(x)
    if is_const(axis, None):
        k = "float" if name not in ("any", "all", "argmax", "argmin", "min", "max", "sum", "prod") else {"any": "bool", "all": "bool", "argmax": "int", "argmin": "int"}.get(name, "num")
        if name in ("min", "max") and x.kind in ("dtindex",):
            k = "timestamp"
        if name == "sum" and (is_boolmask(x) or x.op == "dtfield" and any(isinstance(a, str) and a.startswith("is_") for a in x.args)):
            k = "int"
        if name in ("min", "max"):
            ek = scalar_elem_kind(x)
            if ek in ("int", "timestamp"):
                k = ek
        if is_const(kd, True):
            k = "ndarray"
        if x.kind == "any" and s is None:
            k = k
    else:
        k = "series" if x.kind == "frame" else "ndarray"
    return N("red", name, x, axis, ddof, kd, kind=k)


def canon_args(I, name, args, kwargs):
    """positional/keyword arguments -> canonical full list (or None)"""
    ps, kind = SIGS[name]
    vals = {}
    for (p, d), a in zip(ps, args):
        vals[p] = I.freeze(a)
    extra = [I.freeze(a) for a in args[len(ps):]]
    names = {p for p, _ in ps}
    rest = []
    for k, v in kwargs.items():
        if k in names:
            vals[k] = I.freeze(v)
        else:
            # unmatched first parameter names (x / a / m ...)
            miss = [p for p, d in ps if p not in vals and d is None]
            if k in ("a", "x", "m", "ar", "y", "X", "A", "array") and miss:
                vals[miss[0]] = I.freeze(v)
            else:
                rest.append((k, I.freeze(v)))
    out = []
    for p, d in ps:
        if p in vals:
            out.append(vals[p])
        elif d is not None:
            out.append(d)
        else:
            out.append(NONE)
    return out + extra, tuple(sorted(rest, key=lambda t: t[0]))


def arg(I, args, kwargs, i, name, default=NONE):
    if len(args) > i:
        return I.freeze(args[i])
    if name in kwargs:
        return I.freeze(kwargs[name])
    return default


def rawarg(args, kwargs, i, *names):
    if len(args) > i:
        return args[i]
    for n in names:
        if n in kwargs:
            return kwargs[n]
    return None


def dims_of(I, v):
    """shape argument -> tuple of dims"""
    if isinstance(v, TupleV):
        return tuple(I.freeze(x) for x in v.items)
    its = list_items(I, v) if isinstance(v, Ref) else None
    if its is not None:
        return tuple(I.freeze(x) for x in its)
    n = I.freeze(v)
    if n.op in ("tuple", "list"):
        return tuple(n.args)
    return (n,)


def asnode_array(n):
    if n.kind in ("list", "tuple"):
        return N("array", n if n.op != "tuple" else N("list", *n.args, kind="list"), kind="ndarray")
    return n


def exc_name(I, v):
    if isinstance(v, ExtV):
        return v.name.split(".")[-1]
    if isinstance(v, ClassV):
        return v.name
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, InstO):
            return o.cls.name if isinstance(o.cls, ClassV) else str(o.cls)
    n = I.freeze(v)
    if n.op == "exc":
        return n.args[0]
    return "Exception"


EXC_BASES = {
    "KeyError": {"LookupError"}, "IndexError": {"LookupError"}, "UnboundLocalError": {"NameError"}, "ZeroDivisionError": {"ArithmeticError"},
    "OverflowError": {"ArithmeticError"}, "FileNotFoundError": {"OSError", "IOError"}, "NotImplementedError": {"RuntimeError"},
}


def handler_names(I, h):
    if h.type is None:
        return None
    import ast
    ns = []
    for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
        v = I.eval(e)
        ns.append(exc_name(I, v))
    if "Exception" in ns or "BaseException" in ns:
        return None
    return set(ns)


def exc_matches(exc, names):
    return bool(EXC_BASES.get(exc, set()) & names)


EXC_NAMES = {n for n in C.BUILTINS if n.endswith("Error") or n in ("Exception", "BaseException", "StopIteration") or n.endswith("Warning") or n == "Warning"}


def with_enter(I, v):
    return v


def is_dataclass(I, cls):
    return any("dataclass" in ast_name(d) for d in getattr(cls.node, "decorator_list", []))


def ast_name(d):
    import ast
    return ast.unparse(d)


def dataclass_init(I, cls, inst, args, kwargs):
    import ast
    fields = []
    for c in reversed(I.mro(cls)):
        if isinstance(c, ClassV):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append((s.target.id, c.attrs.get(s.target.id, UNDEF)))
    o = I.mut(inst)
    for i, (f, d) in enumerate(fields):
        if i < len(args):
            o.attrs[f] = args[i]
        elif f in kwargs:
            o.attrs[f] = kwargs[f]
        elif d is not UNDEF:
            o.attrs[f] = d
    post, _ = I.find_attr(cls, "__post_init__")
    if post is not None:
        I.call(post, [inst], {})


# class name -> kinds accepted by isinstance
CLASSKINDS = {
    "pandas.Series": {"series"}, "pandas.DataFrame": {"frame"}, "numpy.ndarray": {"ndarray"}, "pandas.DatetimeIndex": {"dtindex"},
    "pandas.Index": {"index", "dtindex"}, "int": {"int", "bool"}, "float": {"float"}, "str": {"str"}, "bool": {"bool"}, "list": {"list"},
    "tuple": {"tuple"}, "dict": {"dict"}, "numbers.Integral": {"int", "bool", "npint"}, "numbers.Real": {"int", "bool", "float", "npint"}, "numbers.Number": {"int", "bool", "float", "npint"},
    "pandas.Timedelta": {"timedelta"}, "pandas.Timestamp": {"timestamp"}, "numpy.integer": {"npint"}, "numpy.floating": set(), "pathlib.Path": {"path"},
    "logging.Handler": {"handler"}, "logging.FileHandler": set(), "collections.abc.Sequence": {"list", "tuple", "str"}, "set": {"set"}, "numpy.number": {"npint"},
    "datetime.timedelta": {"timedelta"}, "datetime.datetime": {"timestamp"}, "object": None, "numpy.generic": {"npint"},
    "pandas.core.generic.NDFrame": {"series", "frame"}, "pandas.RangeIndex": set(), "collections.abc.Callable": {"func", "type"}, "typing.Callable": {"func"},
    "numpy.timedelta64": set(), "numpy.datetime64": set(), "slice": {"slice"}, "collections.abc.Iterable": {"list", "tuple", "str", "series", "frame", "ndarray", "dict", "set", "index", "dtindex"},
    "pandas.PeriodIndex": set(), "pandas.Period": set(), "numpy.bool_": set(), "numpy.float64": set(), "numpy.int64": {"npint"}, "complex": set(),
    "pandas.MultiIndex": set(), "pandas.tseries.offsets.DateOffset": set(), "pandas.DateOffset": set(),
}


def class_list(I, c):
    if isinstance(c, TupleV):
        out = []
        for x in c.items:
            out += class_list(I, x)
        return out
    if isinstance(c, Node):
        if c.op == "typeunion":
            out = []
            for x in c.args:
                out += class_list(I, ExtV(x.args[0]) if x.op == "ext" else x)
            return out
        if c.op == "generic" and c.args[0] in ("typing.Union", "typing.Optional"):
            a = c.args[1]
            els = list(a.args) if a.op == "tuple" else [a]
            out = []
            for x in els:
                out += class_list(I, ExtV(x.args[0]) if x.op == "ext" else x)
            if c.args[0] == "typing.Optional":
                out.append(ExtV("NoneType"))
            return out
        if c.op == "ext":
            return [ExtV(c.args[0])]
        if c.op == "tuple":
            out = []
            for x in c.args:
                out += class_list(I, x)
            return out
    return [c]


def isinstance_model(I, v, c):
    if isinstance(v, PhiV):
        return I.lift(v, lambda x: isinstance_model(I, x, c))
    if isinstance(v, Node) and v.op == "phi" and v.kind == "any":
        return mkphi(v.args[0], I.as_bool(isinstance_model(I, v.args[1], c)), I.as_bool(isinstance_model(I, v.args[2], c)))
    cl = class_list(I, c)
    k = kind_of(I, v)
    unknown = False
    for x in cl:
        if isinstance(x, ClassV):
            if isinstance(v, Ref) and isinstance(I.obj(v), InstO):
                o = I.obj(v)
                if isinstance(o.cls, ClassV) and x in I.mro(o.cls):
                    return TRUE
            elif k == "any":
                unknown = True
            continue
        if isinstance(x, ExtV):
            if x.name == "NoneType":
                if k == "none":
                    return TRUE
                if k == "any":
                    unknown = True
                continue
            if x.name == "type":
                if k in ("type",) or isinstance(v, (ClassV,)):
                    return TRUE
                continue
            if isinstance(v, Ref) and isinstance(I.obj(v), InstO):
                o = I.obj(v)
                if isinstance(o.cls, ClassV):
                    if any(isinstance(b, ExtV) and b.name == x.name for b in I.mro(o.cls)):
                        return TRUE
                elif str(o.cls) == x.name:
                    return TRUE
                continue
            ks = CLASSKINDS.get(x.name, "?")
            if ks is None:
                return TRUE
            if ks == "?":
                if k in ("any",):
                    unknown = True
                elif k not in ("series", "frame", "ndarray", "int", "float", "str", "bool", "none", "list", "tuple", "dict", "dtindex"):
                    unknown = True
                continue
            if k in ks:
                return TRUE
            if k == "any" or (k == "num" and ks & {"int", "float"}) or (k == "handler" and x.name == "logging.FileHandler") or k == "opaquekind":
                unknown = True
            continue
        unknown = True
    if unknown:
        names = tuple(sorted(x.name if isinstance(x, (ExtV, ClassV)) else "?" for x in cl))
        return N("isinstance", I.freeze(v), names, kind="bool")
    return FALSE


KINDCLASS = {"series": "pandas.Series", "frame": "pandas.DataFrame", "ndarray": "numpy.ndarray", "dtindex": "pandas.DatetimeIndex", "int": "int", "float": "float", "str": "str", "bool": "bool", "list": "list", "tuple": "tuple", "dict": "dict", "none": "NoneType", "timedelta": "pandas.Timedelta", "index": "pandas.Index", "timestamp": "pandas.Timestamp"}


def type_of(I, v):
    if isinstance(v, PhiV):
        return I.lift(v, lambda x: type_of(I, x))
    if isinstance(v, Ref) and isinstance(I.obj(v), InstO):
        c = I.obj(v).cls
        return c if isinstance(c, ClassV) else ExtV(str(c))
    k = kind_of(I, v)
    if k in KINDCLASS:
        return ExtV(KINDCLASS[k])
    return N("typeof", I.freeze(v), kind="type")


# ------------------------------------------------------------------ RNG
def rng_new(I, name, args, kwargs):
    seed = rawarg(args, kwargs, 0, "seed")
    fs = I.freeze(seed) if seed is not None else NONE
    if isinstance(seed, Ref) and isinstance(I.obj(seed), InstO) and I.obj(seed).cls == "rng":
        return seed
    I.event("rng-create", seed=fs, api=name)
    return I.alloc(InstO("rng", {"seed": fs, "count": const(0), "api": const(name)}))


DRAWS = {
    "normal": [("loc", const(0.0)), ("scale", const(1.0))], "standard_normal": [], "uniform": [("low", const(0.0)), ("high", const(1.0))], "random": [], "integers": [("low", NONE), ("high", NONE)],
    "lognormal": [("mean", const(0.0)), ("sigma", const(1.0))], "exponential": [("scale", const(1.0))], "standard_t": [("df", NONE)], "multivariate_normal": [("mean", NONE), ("cov", NONE)],
    "choice": [("a", NONE)], "permutation": [("x", NONE)], "randn": [], "rand": [], "randint": [("low", NONE), ("high", NONE)], "random_sample": [], "poisson": [("lam", const(1.0))], "gamma": [("shape", NONE), ("scale", const(1.0))],
    "beta": [("a", NONE), ("b", NONE)], "binomial": [("n", NONE), ("p", NONE)], "laplace": [("loc", const(0.0)), ("scale", const(1.0))], "chisquare": [("df", NONE)], "bytes": [],
}


def rng_draw(I, rng, name, args, kwargs):
    o = I.obj(rng)
    seed, count = I.freeze(o.attrs["seed"]), I.freeze(o.attrs["count"])
    o = I.mut(rng)
    o.attrs["count"] = iadd(count, const(1)) if count.kind == "int" else N("succ", count)
    return draw_node(I, name, seed, count, args, kwargs, I.freeze(o.attrs.get("api", NONE)))


def draw_node(I, name, seed, count, args, kwargs, api):
    ps = DRAWS.get(name)
    if ps is None:
        I.event("rng-draw", name=name, seed=seed)
        return N("draw", name, seed, count, tuple(I.freeze(a) for a in args), tuple((k, I.freeze(v)) for k, v in sorted(kwargs.items())))
    if name in ("randn", "rand"):
        size = N("tuple", *[I.freeze(a) for a in args], kind="tuple") if args else NONE
        params = ()
    else:
        params = tuple(arg(I, args, kwargs, i, p, d) for i, (p, d) in enumerate(ps))
        size = arg(I, args, kwargs, len(ps), "size")
    if "out" in kwargs:
        t = kwargs["out"]
        s = shape(I.freeze(t))
        size = N("tuple", *s, kind="tuple") if s is not None else N("shapeof", I.freeze(t))
    base = {"standard_normal": "normal", "randn": "normal", "rand": "uniform", "random": "uniform", "random_sample": "uniform"}.get(name, name)
    post = None
    if base == "normal" and name == "normal":
        # location/scale family: factor the standard draw out
        loc, scale = params
        post = (loc, scale)
    if base == "normal":
        params = ()
    if base == "uniform" and name == "uniform":
        post = ("u", params)
        params = ()
    if base == "uniform":
        params = ()
    k = "float" if is_const(size, None) else "ndarray"
    d = N("draw", base, seed, count, params, size, kind=k)
    I.event("rng-draw", name=name, seed=seed, node=d)
    if post and post[0] != "u":
        loc, scale = post
        if not (scale.op == "const" and scale.args[0] == 1):
            d = arith("mul", scale, d)
        if not (loc.op == "const" and loc.args[0] == 0):
            d = arith("add", loc, d)
    elif post:
        lo, hi = post[1]
        if not (lo.op == "const" and lo.args[0] == 0 and hi.op == "const" and hi.args[0] == 1):
            d = arith("add", lo, arith("mul", arith("sub", hi, lo), d)) if not (lo.op == "const" and lo.args[0] == 0) else arith("mul", hi, d)
    if "out" in kwargs and isinstance(kwargs["out"], Ref) and isinstance(I.obj(kwargs["out"]), Arr):
        I.set_content(kwargs["out"], d, how="rng out=")
        return kwargs["out"]
    if d.kind == "any" and k == "ndarray":
        d = N(d.op, *d.args, kind="ndarray")
    return I.wrap(d)


# ------------------------------------------------------------------ generic call
def ext_attr(I, b, name):
    full = f"{b.name}.{name}"
    if full in I.overrides:
        return I.modattr(*I.overrides[full].rsplit(".", 1))
    if full in ("numpy.pi", "math.pi"):
        return N("pi", kind="float")
    if full in ("numpy.e", "math.e"):
        return N("exp", const(1), kind="float")
    if full in ("numpy.nan", "math.nan", "numpy.NaN"):
        return N("nan", kind="float")
    if full in ("numpy.inf", "math.inf"):
        return const(float("inf"))
    if full in ("numpy.newaxis",):
        return NONE
    if full.startswith("logging.") and name in ("DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL", "NOTSET", "FATAL"):
        lv = {"DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50, "NOTSET": 0}[name]
        return const(lv)
    if full == "os.environ":
        return SpecialV("environ", frozen=N("environ"))
    if b.name.startswith("numpy.") and name in ("reduce", "accumulate", "outer", "at") and b.name.split(".")[1] in UFUNC2:
        return ExtV(full)
    return ExtV(full)


SIDE_EFFECT = {
    "warnings.warn": "warn", "warnings.filterwarnings": "warnings-config", "warnings.simplefilter": "warnings-config", "warnings.resetwarnings": "warnings-config",
    "numpy.seterr": "numpy-config", "numpy.set_printoptions": "numpy-config", "pandas.set_option": "pandas-config", "numpy.seterrcall": "numpy-config",
    "pandas.options": "pandas-config", "random.seed": "global-seed", "numpy.random.seed": "global-seed", "numpy.random.set_state": "global-seed",
    "logging.basicConfig": "logging-config", "logging.disable": "logging-config", "logging.captureWarnings": "logging-config", "logging.config.dictConfig": "logging-config",
    "logging.setLoggerClass": "logging-config", "logging.addLevelName": "logging-config",
    "os.environ.update": "environ-write", "os.putenv": "environ-write", "os.environ.setdefault": "environ-write", "os.chdir": "process-state", "locale.setlocale": "process-state", "sys.setrecursionlimit": "process-state", "matplotlib.use": "process-state",
    "sys.stdout.write": "print", "sys.stderr.write": "print", "os.umask": "process-state", "signal.signal": "process-state", "decimal.getcontext": "process-state", "gc.disable": "process-state",
    "numpy.save": "fs-write", "numpy.savetxt": "fs-write", "numpy.savez": "fs-write", "pickle.dump": "fs-write", "json.dump": "fs-write", "shutil.copyfile": "fs-write", "shutil.move": "fs-write", "os.rename": "fs-write", "os.unlink": "fs-write",
    "os.makedirs": "fs-write", "os.mkdir": "fs-write", "os.remove": "fs-write", "shutil.rmtree": "fs-write", "shutil.copy": "fs-write",
    "requests.get": "network", "urllib.request.urlopen": "network", "urllib.request.urlretrieve": "network", "socket.socket": "network", "os.system": "process-state", "subprocess.run": "process-state", "subprocess.Popen": "process-state",
    "builtins.print": "print", "pprint.pprint": "print", "time.sleep": "sleep",
}


def call_ext(I, name, args, kwargs):
    if name.startswith("builtins."):
        name = name[9:]
    if name.startswith(("numpy.", "scipy.")) and "random" not in name:
        fn = name.split(".")[-1]
        pos = OUTPOS.get(fn) or (1 if fn in UFUNC1 or fn in EWNAMES and len(args) == 2 and fn not in UFUNC2 and fn in ONEARG else 2 if fn in UFUNC2 else None)
        if "out" in kwargs or pos is not None and len(args) > pos:
            outv = kwargs.get("out", args[pos] if pos is not None and len(args) > pos else None)
            kw = {k: v for k, v in kwargs.items() if k != "out"}
            if isinstance(outv, TupleV) and len(outv.items) == 1:
                outv = outv.items[0]
            r = call_ext(I, name, args if "out" in kwargs else args[:pos], kw)
            return I.lift(outv, lambda o: store_out(I, o, r, name))
    if name.startswith("numpy.") and name.endswith(".at") and args:
        if isinstance(args[0], Ref) and isinstance(I.obj(args[0]), Arr):
            I.set_content(args[0], N("ufuncat", name, I.content(args[0]), *[I.freeze(a) for a in args[1:]], kind=I.obj(args[0]).kind), how=name)
        return NONE
    if name in VIEWFN:
        x = args[0] if args else None
        r = call_ext1(I, name, args, kwargs)
        if isinstance(x, Ref) and isinstance(I.obj(x), Arr) and isinstance(r, Ref) and isinstance(I.obj(r), Arr):
            n = I.content(r)
            a = I.content(x)
            for path in ((("T",),) if n is C.mkT(a) else ()) + ((("fn", n.args[0], n.args[2:]),) if n.op == "f" and n.args[1] is a else ()) + ((("call", n.args[0], n.args[1][1:], n.args[2]),) if n.op == "call" and n.args[1] and n.args[1][0] is a else ()):
                return I.view(x, path, n.kind)
        return r
    return call_ext1(I, name, args, kwargs)


OUTPOS = {"clip": 3, "cumsum": 3, "cumprod": 3, "dot": 2, "matmul": 2, "nan_to_num": None}
ONEARG = {"sqrt", "square", "reciprocal", "log1p", "expm1", "log2", "log10", "absolute", "abs", "fabs", "negative", "exp", "log", "sign", "isnan"}
VIEWFN = {"numpy.squeeze", "numpy.swapaxes", "numpy.moveaxis", "numpy.rollaxis", "numpy.expand_dims", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.broadcast_to", "numpy.atleast_3d", "numpy.real"}


def store_out(I, o, r, name):
    if isinstance(o, Ref) and isinstance(I.obj(o), Arr):
        I.set_content(o, I.freeze(r), how=f"{name} out=")
        return o
    return r


def call_ext1(I, name, args, kwargs):
    h = HANDLERS.get(name)
    if h is not None:
        r = h(I, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if name in SIDE_EFFECT:
        I.event(SIDE_EFFECT[name], api=name, args=[I.freeze(a) for a in args])
        if name == "warnings.warn":
            return NONE
        return N("call", name, tuple(I.freeze(a) for a in args), kind="any" if name not in ("print",) else "none")
    if name in EXC_NAMES or name.split(".")[-1] in EXC_NAMES:
        return N("exc", name.split(".")[-1], tuple(I.freeze(a) for a in args), kind="exc")
    parts = name.split(".")
    if parts[0] == "numpy":
        r = numpy_call(I, parts, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if parts[0] == "math" and len(parts) == 2:
        r = numpy_call(I, ["numpy", parts[1]], "numpy." + parts[1], args, kwargs)
        if r is not NotImplemented:
            return r
    if name in SIGS:
        return gen_call(I, name, args, kwargs)
    # unknown library function: opaque, conservatively also reported
    I.unknown_ext[name] = I.unknown_ext.get(name, 0) + 1
    I.event("unknown-ext", name=name, values=list(args) + list(kwargs.values()))
    return N("call", name, tuple(I.freeze(a) for a in args), tuple((k, I.freeze(v)) for k, v in sorted(kwargs.items())))


def unscaled(x):
    """an array without a scalar divisor or factor in front"""
    if x.op in ("flatten", "reshape", "values", "copy"):
        y = unscaled(x.args[0])
        return x if y is x.args[0] else N(x.op, y, *x.args[1:], kind=x.kind)
    if x.op in ("truediv", "mul"):
        a, b = x.args[:2]
        if a.kind in ARRAYISH and b.kind not in ARRAYISH and b.kind in NUMERIC and b.op == "red":
            return unscaled(a)
    return x


def gen_call(I, name, args, kwargs):
    ps, kind = SIGS[name]
    vals, rest = canon_args(I, name, args, kwargs)
    k = {"arr": "ndarray", "num": "float", "bool": "bool", "int": "int", "any": "any", "float": "float", "frame": "frame"}.get(kind)
    if kind == "ew":
        k = ekind(*[v.kind for v in vals[:2]])
    if kind == "same":
        k = vals[0].kind
    if name == "numpy.corrcoef" and len(vals) >= 3 and ndim(vals[0]) == 1 and is_const(vals[1], None):
        k = "float"
    if name in ("numpy.corrcoef", "numpy.cov") and len(vals) >= 3 and ndim(vals[0]) == 2 and is_const(vals[1], None) and is_const(vals[2], True):
        vals[0], vals[2] = C.mkT(vals[0]), const(False)
    if name == "numpy.searchsorted":
        v = vals[1]
        k = "ndarray" if v.kind in ARRAYISH else ("int" if v.kind in NUMERIC | {"timestamp", "timedelta"} else "int")
    if name in ("numpy.vstack", "numpy.column_stack", "numpy.hstack", "numpy.concatenate", "numpy.stack"):
        v0 = vals[0]
        if v0.op == "tuple":
            vals[0] = N("list", *v0.args, kind="list")
        if name == "numpy.column_stack" and vals[0].op == "list" and vals[0].args and all(x.kind in ARRAYISH and ndim(x) == 1 for x in vals[0].args):
            return I.wrap(C.mkT(N("f", "numpy.vstack", vals[0], kind="ndarray")))
    if name in ("numpy.unique",) and all(is_const(v, False) for v in vals[1:4]):
        k = "ndarray"
    if name == "numpy.linalg.norm" and not is_const(vals[2], None):
        k = "ndarray"
    if name == "scipy.stats.entropy" and is_const(vals[1], None):
        vals[0] = unscaled(vals[0])               # the probabilities are normalised inside
    args_ = list(vals)
    if rest:
        args_.append(("kw", rest))
        n = N("f", name, *args_, kind=k)
    else:
        n = N("f", name, *args_, kind=k)
    if name in ("numpy.triu", "numpy.tril") and is_const(vals[1], 1 if name == "numpy.triu" else -1):
        n = N("setdiag", N("f", name, vals[0], const(0), kind=k), const(0), kind=k)
    if name == "numpy.argsort" and C.sorted_dir(vals[0]) and ndim(vals[0]) == 1:
        n = N("arange", const(0), shape(vals[0])[0], const(1), kind="ndarray")
        if C.sorted_dir(vals[0]) < 0:
            n = C.node_getitem(n, N("idx", C.REV))
    return I.wrap(n)


def numpy_call(I, parts, name, args, kwargs):
    fn = parts[-1]
    if len(parts) == 2:
        if fn in UFUNC1 and len(args) + len(kwargs) >= 1:
            x = rawarg(args, kwargs, 0, "x")
            if x is not None:
                def f1(v):
                    n = asnode_array(I.freeze(v))
                    if fn == "negative":
                        return unop(I, "neg", I.wrap(n) if n.kind in ARRAYISH else n)
                    if fn in ("logical_not", "invert"):
                        return unop(I, "binv", v)
                    return I.wrap(ew1(UFUNC1[fn], n))
                return I.lift(x, f1)
        if fn == "sqrt":
            return I.lift(rawarg(args, kwargs, 0, "x"), lambda v: I.wrap(sqrt(asnode_array(I.freeze(v)))))
        if fn == "square":
            return I.wrap(arith("pow", asnode_array(I.freeze(args[0])), const(2)))
        if fn == "reciprocal":
            return I.wrap(arith("truediv", const(1.0), asnode_array(I.freeze(args[0]))))
        if fn == "log1p":
            return I.wrap(ew1("log", arith("add", const(1), asnode_array(I.freeze(args[0])))))
        if fn == "expm1":
            return I.wrap(arith("sub", ew1("exp", asnode_array(I.freeze(args[0]))), const(1)))
        if fn in ("log2", "log10"):
            return I.wrap(arith("truediv", ew1("log", asnode_array(I.freeze(args[0]))), ew1("log", const(2 if fn == "log2" else 10))))
        if fn in UFUNC2 and len(args) >= 2:
            def f2(a, b):
                if isinstance(a, PhiV):
                    return I.lift(a, lambda x: f2(x, b))
                if isinstance(b, PhiV):
                    return I.lift(b, lambda x: f2(a, x))
                return I.wrap(ew2(UFUNC2[fn], asnode_array(I.freeze(a)), asnode_array(I.freeze(b))))
            return f2(args[0], args[1])
        if fn in UCMP and len(args) >= 2:
            return I.compare(UCMP[fn], args[0], args[1])
        if fn in EWNAMES:
            ns = [asnode_array(I.freeze(a)) for a in args]
            return I.wrap(N("ew", fn, *ns, kind=ekind(*[n.kind for n in ns])))
        if fn in REDS:
            x = asnode_array(arg(I, args, kwargs, 0, "a"))
            axis = arg(I, args, kwargs, 1, "axis")
            dd = arg(I, args, kwargs, 99, "ddof", const(0))
            kd = arg(I, args, kwargs, 99, "keepdims", FALSE)
            if x.kind in ("series", "frame") and fn in ("std", "var") and "ddof" not in kwargs:
                dd = const(0)  # numpy forwards ddof=0? pandas objects keep numpy's default here
            if x.kind == "frame" and is_const(axis, None) and fn in ("mean", "sum", "std", "var", "min", "max"):
                axis = const(0) if fn not in ("mean",) else axis
            if fn == "average":
                w = arg(I, args, kwargs, 2, "weights")
                if not is_const(w, None):
                    return I.wrap(N("wavg", x, w, axis, kind="num"))
                fn = "mean"
            return I.lift(NONE, lambda _: I.wrap(mkred(fn, x, axis, dd, kd)))
        if fn in ("cumsum", "cumprod", "nancumsum"):
            x = asnode_array(arg(I, args, kwargs, 0, "a"))
            axis = arg(I, args, kwargs, 1, "axis")
            if ndim(x) == 1:
                axis = const(0)
            return I.wrap(N("cum", fn.replace("nan", "")[3:], x, axis, kind=x.kind))
    if name in SIGS:
        return gen_call(I, name, args, kwargs)
    return NotImplemented


HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


@handler("numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ascontiguousarray", "numpy.require")
def h_asarray(I, name, args, kwargs):
    v = args[0] if args else kwargs.get("a")
    if isinstance(v, PhiV):
        return I.lift(v, lambda x: h_asarray(I, name, [x] + list(args[1:]), kwargs))
    if isinstance(v, Ref) and isinstance(I.obj(v), Arr):
        k = I.obj(v).kind
        if name in ("numpy.atleast_2d",):
            nd = ndim(I.content(v))
            if nd == 1:
                return I.view(v, ("reshape", (const(1), const(-1))), "ndarray")
            if nd is None:
                return I.wrap(N("f", name, I.content(v), kind="ndarray"))
        if k == "ndarray":
            return v
        return I.view(v, ("values",), "ndarray")
    n = I.freeze(v)
    if n.kind in ("list", "tuple"):
        return I.wrap(asnode_array(n))
    if n.kind in NUMERIC:
        if name == "numpy.atleast_1d":
            return I.wrap(N("array", N("list", n, kind="list"), kind="ndarray"))
        if name == "numpy.atleast_2d":
            return I.wrap(N("array", N("list", N("list", n, kind="list"), kind="list"), kind="ndarray"))
        return I.wrap(N("array0", n, kind="ndarray"))
    return I.wrap(N("asarray", n, kind="ndarray"))


@handler("numpy.array", "numpy.copy")
def h_array(I, name, args, kwargs):
    v = args[0] if args else kwargs.get("object", kwargs.get("a"))
    if isinstance(v, PhiV):
        return I.lift(v, lambda x: h_array(I, name, [x] + list(args[1:]), kwargs))
    cp = kwargs.get("copy")
    if cp is not None and I.truth(cp) is False:
        return h_asarray(I, "numpy.asarray", [v], {})
    n = I.freeze(v)
    if n.kind in ARRAYISH:
        return I.wrap(mkvalues(n))
    if n.kind in ("list", "tuple"):
        return I.wrap(asnode_array(n))
    if n.kind in NUMERIC:
        return I.wrap(N("array0", n, kind="ndarray"))
    return I.wrap(N("asarray", n, kind="ndarray"))


@handler("numpy.zeros", "numpy.ones", "numpy.empty")
def h_zeros(I, name, args, kwargs):
    s = rawarg(args, kwargs, 0, "shape")
    d = dims_of(I, s)
    sn = I.freeze(s)
    node = N("tuple", *d, kind="tuple") if (sn.op in ("tuple", "list") or sn.kind == "int") else sn
    n = N(name.split(".")[-1], node, kind="ndarray")
    return I.wrap(n)


@handler("numpy.full")
def h_full(I, name, args, kwargs):
    s = rawarg(args, kwargs, 0, "shape")
    v = arg(I, args, kwargs, 1, "fill_value")
    d = dims_of(I, s)
    z = N("zeros", N("tuple", *d, kind="tuple"), kind="ndarray")
    if v.op == "const" and v.args[0] == 0:
        return I.wrap(z)
    return I.wrap(N("assignall", z, v, kind="ndarray"))


@handler("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like")
def h_zl(I, name, args, kwargs):
    x = asnode_array(I.freeze(args[0]))
    s = shape(x)
    fn = name.split(".")[-1]
    base = N("zeros", N("tuple", *s, kind="tuple"), kind="ndarray") if s is not None else N("zeros_like", mkvalues(x) if x.kind in ARRAYISH else x, kind="ndarray")
    if x.kind in ("series", "frame"):
        return I.wrap(N(fn, x, *([I.freeze(args[1])] if fn == "full_like" and len(args) > 1 else []), kind=x.kind))
    if fn == "zeros_like" or fn == "empty_like":
        if fn == "empty_like":
            base = N("empty", base.args[0], kind="ndarray")
        return I.wrap(base)
    v = const(1.0) if fn == "ones_like" else arg(I, args, kwargs, 1, "fill_value")
    return I.wrap(N("assignall", base, v, kind="ndarray"))


@handler("numpy.arange")
def h_arange(I, name, args, kwargs):
    ns = [I.freeze(a) for a in args]
    if "start" in kwargs or "stop" in kwargs:
        ns = [I.freeze(kwargs.get("start", const(0))), I.freeze(kwargs.get("stop", NONE))] if not ns else ns + [I.freeze(kwargs["stop"])]
    if len(ns) == 1:
        ns = [const(0), ns[0]]
    if len(ns) == 2:
        ns.append(I.freeze(kwargs.get("step", const(1))))
    if is_const(ns[2], -1) and ns[0].kind == "int" and ns[1].kind == "int":
        return I.wrap(N("sub", ns[0], N("arange", const(0), isub(ns[0], ns[1]), const(1), kind="ndarray"), kind="ndarray"))
    if all(n.kind == "int" for n in ns) or True:
        return I.wrap(N("arange", *ns[:3], kind="ndarray"))


@handler("numpy.linspace")
def h_linspace(I, name, args, kwargs):
    a, b, n = arg(I, args, kwargs, 0, "start"), arg(I, args, kwargs, 1, "stop"), arg(I, args, kwargs, 2, "num", const(50))
    return I.wrap(N("linspace", a, b, n, kind="ndarray"))


@handler("numpy.where")
def h_where(I, name, args, kwargs):
    c = I.freeze(args[0])
    if len(args) == 1:
        return N("tuple", N("f", "numpy.nonzero0", c, kind="ndarray"), kind="tuple")
    a, b = asnode_array(I.freeze(args[1])), asnode_array(I.freeze(args[2]))
    return I.wrap(mkwhere(c, a, b))


@handler("numpy.flatnonzero", "numpy.nonzero")
def h_nonzero(I, name, args, kwargs):
    c = I.freeze(args[0])
    n = N("f", "numpy.nonzero0", c, kind="ndarray")
    if name == "numpy.nonzero":
        return N("tuple", n, kind="tuple")
    return I.wrap(n)


@handler("numpy.clip")
def h_clip(I, name, args, kwargs):
    x = I.freeze(rawarg(args, kwargs, 0, "a"))
    lo = arg(I, args, kwargs, 1, "a_min", arg(I, [], kwargs, 0, "min"))
    hi = arg(I, args, kwargs, 2, "a_max", arg(I, [], kwargs, 0, "max"))
    return I.wrap(mkclip(asnode_array(x), lo, hi))


@handler("numpy.nan_to_num")
def h_nan(I, name, args, kwargs):
    x = asnode_array(I.freeze(args[0] if args else kwargs["x"]))
    cp = kwargs.get("copy", args[1] if len(args) > 1 else TRUE)
    fill = arg(I, [], kwargs, 0, "nan", const(0.0))
    if x.op == "mapstore" and x.args[0].op == "zeros":
        b = x.args[2]
        n = N("mapstore", x.args[0], x.args[1], N("nan_to_num", b, fill, kind=b.kind), *x.args[3:], kind=x.kind)
    elif x.op == "store" and x.args[0].op == "zeros" and len(x.args) == 3:
        b = x.args[2]
        n = N("store", x.args[0], x.args[1], N("nan_to_num", b, fill, kind=b.kind), kind=x.kind)
    else:
        n = N("nan_to_num", x, fill, kind=x.kind)
    if I.truth(cp) is False and isinstance(args[0], Ref):
        I.set_content(args[0], n, how="nan_to_num(copy=False)")
        return args[0]
    return I.wrap(n)


@handler("numpy.diff")
def h_diff(I, name, args, kwargs):
    x = asnode_array(I.freeze(args[0] if args else kwargs["a"]))
    k = arg(I, args, kwargs, 1, "n", const(1))
    ax = arg(I, args, kwargs, 2, "axis", const(-1))
    if x.kind in ("series", "index", "dtindex"):
        x = N("values", x, kind="ndarray")
    if not is_const(k, 1) or "prepend" in kwargs or "append" in kwargs:
        pre = arg(I, [], kwargs, 0, "prepend")
        app = arg(I, [], kwargs, 0, "append")
        return I.wrap(N("f", "numpy.diff", x, k, ax, pre, app, kind="ndarray"))
    nd = ndim(x)
    if nd == 1 or is_const(ax, 0):
        hi, lo = norm_idx([mkslice(const(1), NONE, NONE)]), norm_idx([mkslice(NONE, const(-1), NONE)])
        return I.wrap(arith("sub", node_getitem(x, hi), node_getitem(x, lo)))
    if nd == 2:
        hi, lo = norm_idx([FULL, mkslice(const(1), NONE, NONE)]), norm_idx([FULL, mkslice(NONE, const(-1), NONE)])
        return I.wrap(arith("sub", node_getitem(x, hi), node_getitem(x, lo)))
    return I.wrap(N("f", "numpy.diff", x, k, ax, NONE, NONE, kind="ndarray"))


@handler("numpy.fill_diagonal")
def h_filldiag(I, name, args, kwargs):
    a = rawarg(args, kwargs, 0, "a")
    v = arg(I, args, kwargs, 1, "val")

    def f(x):
        if isinstance(x, Ref) and isinstance(I.obj(x), Arr):
            I.set_content(x, N("setdiag", I.content(x), v, kind=I.obj(x).kind), how="fill_diagonal")
        return NONE

    return I.lift(a, f)


@handler("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask")
def h_copyto(I, name, args, kwargs):
    a = args[0] if args else kwargs.get("dst")
    if isinstance(a, Ref) and isinstance(I.obj(a), Arr):
        if name == "numpy.copyto" and "where" not in kwargs:
            I.set_content(a, mkstore(I.content(a), norm_idx([]), I.freeze(args[1])), how=name)
        elif name in ("numpy.copyto",):
            I.set_content(a, N("where", I.freeze(kwargs["where"]), I.freeze(args[1]), I.content(a), kind=I.obj(a).kind), how=name)
        elif name in ("numpy.putmask", "numpy.place"):
            I.set_content(a, mkstore(I.content(a), norm_idx([I.freeze(args[1])]), I.freeze(args[2])), how=name)
        else:
            I.set_content(a, N("put", I.content(a), *[I.freeze(x) for x in args[1:]], kind=I.obj(a).kind), how=name)
    return NONE


@handler("numpy.reshape")
def h_reshape(I, name, args, kwargs):
    return I.models.call_method(I, args[0], "reshape", [rawarg(args, kwargs, 1, "shape", "newshape")], {})


@handler("numpy.ravel")
def h_ravel(I, name, args, kwargs):
    return I.models.call_method(I, args[0], "ravel", [], {})


IOPS = {"iadd": "add", "isub": "sub", "imul": "mul", "itruediv": "truediv", "ifloordiv": "floordiv", "ipow": "pow", "imod": "mod", "iand": "band", "ior": "bor"}


@handler(*["operator." + o for o in IOPS])
def h_iop(I, name, args, kwargs):
    r = I.binop(IOPS[name[9:]], args[0], args[1])
    return I.lift(args[0], lambda o: store_out(I, o, r, name))


@handler("numpy.transpose")
def h_transp(I, name, args, kwargs):
    return I.models.getattr(I, args[0], "T") if len(args) == 1 and not kwargs else I.wrap(N("f", name, *[I.freeze(a) for a in args], kind="ndarray"))


@handler("numpy.dot", "numpy.matmul", "numpy.inner")
def h_dot(I, name, args, kwargs):
    a, b = asnode_array(I.freeze(args[0])), asnode_array(I.freeze(args[1]))
    if a.kind in NUMERIC or b.kind in NUMERIC:
        return I.wrap(arith("mul", a, b))
    if name == "numpy.inner" and (ndim(a) != 1 or ndim(b) != 1):
        return NotImplemented
    return I.wrap(arith("matmul", a, b))


@handler("numpy.outer", "numpy.multiply.outer")
def h_outer(I, name, args, kwargs):
    a, b = I.freeze(args[0]), I.freeze(args[1])
    if a.kind in ARRAYISH and b.kind in ARRAYISH:
        a, b = [C.mkvalues(x) if x.kind != "ndarray" else x for x in (a, b)]
        a, b = [x if ndim(x) == 1 else C.mkreshape(x, (const(-1),)) if ndim(x) else x for x in (a, b)]
        if ndim(a) == 1 and ndim(b) == 1:
            return I.wrap(N("mul", C.colvec(a), b, kind="ndarray"))
    return I.wrap(N("outer", a, b, kind="ndarray"))


@handler("numpy.maximum.reduce", "numpy.minimum.reduce", "numpy.add.reduce")
def h_reduce(I, name, args, kwargs):
    its = concrete_items(I, args[0], 50)
    op = {"maximum": "maximum", "minimum": "minimum", "add": "add"}[name.split(".")[1]]
    if its:
        r = I.freeze(its[0])
        for x in its[1:]:
            r = ew2(op, r, I.freeze(x))
        return I.wrap(r)
    return I.wrap(mkred({"maximum": "max", "minimum": "min", "add": "sum"}[op], asnode_array(I.freeze(args[0])), arg(I, args, kwargs, 1, "axis", const(0)), NONE, FALSE))


@handler("numpy.diag", "numpy.diagonal")
def h_diag(I, name, args, kwargs):
    x = asnode_array(I.freeze(args[0] if args else kwargs.get("v")))
    if x.op == "diag" and ndim(x) == 2:
        return I.wrap(x.args[0])
    return I.wrap(N("diag", x, kind="ndarray"))


@handler("numpy.tile")
def h_tile(I, name, args, kwargs):
    x = asnode_array(arg(I, args, kwargs, 0, "A"))
    r = arg(I, args, kwargs, 1, "reps")
    if x.kind in NUMERIC:
        x = N("array", N("list", x, kind="list"), kind="ndarray")
    if r.op in ("tuple", "list") and len(r.args) == 1:
        r = r.args[0]
    if r.op in ("tuple",) and len(r.args) == 2 and is_const(r.args[0], 1):
        s = shape(x)
        if s is not None and len(s) == 2:
            r = r.args[1]
    if is_const(r, 1):
        return I.wrap(retag_cast(x, "ndarray"))
    return I.wrap(N("tile", x, r, kind="ndarray"))


@handler("numpy.repeat")
def h_repeat(I, name, args, kwargs):
    x = asnode_array(arg(I, args, kwargs, 0, "a"))
    return I.wrap(N("repeat", x, arg(I, args, kwargs, 1, "repeats"), arg(I, args, kwargs, 2, "axis"), kind="ndarray"))


def known_parts(I, name, args, kwargs):
    """k contiguous parts whose sizes are opaque terms adding up to the length"""
    x = args[0] if args else kwargs["ary"]
    k = arg(I, args, kwargs, 1, "indices_or_sections")
    nx = I.freeze(x)
    if not (k.op == "const" and isinstance(k.args[0], int) and 1 <= k.args[0] <= 12 and shape(nx) and len(shape(nx)) == 1 and isinstance(x, Ref)):
        return NotImplemented
    n, k = shape(nx)[0], k.args[0]
    lo = const(1 if I.truth(mkcmp("ge", n, const(k))) is True else 0)
    out, a = [], const(0)
    for j in range(k):
        b = iadd(a, N("splitsize", n, const(k), const(j), lo, kind="int")) if j < k - 1 else n
        out.append(I.getitem(x, mkslice(a, b, NONE)))
        a = b
    return I.alloc(ListO(out))


@handler("pandas.api.types.is_datetime64_any_dtype", "pandas.api.types.is_datetime64_dtype", "pandas.api.types.is_integer_dtype", "pandas.api.types.is_float_dtype", "pandas.api.types.is_bool_dtype")
def h_dtype_test(I, name, args, kwargs):
    n = I.freeze(args[0])
    want = {"datetime64_any": "timestamp", "datetime64": "timestamp", "integer": "int", "float": "float", "bool": "bool"}[name.rsplit("is_", 1)[1][:-6]]
    from .m_core import scalar_elem_kind
    k = scalar_elem_kind(n) if n.kind in ARRAYISH else "num"
    if k in ("timestamp", "int", "float", "bool"):
        return const(k == want)
    return N("ext", name, n, kind="bool")


@handler("numpy.array_split", "numpy.split")
def h_split(I, name, args, kwargs):
    if name.endswith("array_split"):
        r = known_parts(I, name, args, kwargs)
        if r is not NotImplemented:
            return r
    x, k = arg(I, args, kwargs, 0, "ary"), arg(I, args, kwargs, 1, "indices_or_sections")
    return I.alloc(ListO(None, sym=N("array_split" if name.endswith("array_split") else "split", x, k, kind="list")))


@handler("numpy.errstate", "warnings.catch_warnings", "contextlib.suppress", "pandas.option_context")
def h_ctx(I, name, args, kwargs):
    return N("ctx", name, kind="any")


@handler("numpy.random.default_rng", "numpy.random.RandomState", "random.Random")
def h_rng(I, name, args, kwargs):
    return rng_new(I, name, args, kwargs)


@handler("numpy.random.Generator")
def h_gen(I, name, args, kwargs):
    b = args[0] if args else kwargs.get("bit_generator")
    n = I.freeze(b)
    seed = n.args[1] if n.op == "bitgen" else n
    I.event("rng-create", seed=seed, api=name)
    return I.alloc(InstO("rng", {"seed": seed, "count": const(0), "api": const(n.args[0] if n.op == "bitgen" else name)}))


@handler("numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64")
def h_bg(I, name, args, kwargs):
    return N("bitgen", name, arg(I, args, kwargs, 0, "seed"), kind="bitgen")


@handler("numpy.random.SeedSequence")
def h_ss(I, name, args, kwargs):
    return N("seedseq", arg(I, args, kwargs, 0, "entropy"), kind="seedseq")


@handler("numpy.random.seed", "random.seed", "numpy.random.set_state")
def h_gseed(I, name, args, kwargs):
    I.event("global-seed", api=name)
    return NONE


def _grng(fn, mod):
    def h(I, name, args, kwargs):
        I.event("global-rng", api=name)
        return draw_node(I, fn, N("globalrng"), N("gcount", I.new_uid()), args, kwargs, const(name))
    HANDLERS[f"{mod}.{fn}"] = h


for _fn in DRAWS:
    _grng(_fn, "numpy.random")


@handler("numpy.random.shuffle", "random.shuffle")
def h_gshuffle(I, name, args, kwargs):
    I.event("global-rng", api=name)
    x = args[0] if args else None
    if isinstance(x, Ref) and isinstance(I.obj(x), Arr):
        I.set_content(x, N("shuffled", I.content(x), I.new_uid(), kind=I.obj(x).kind), how=name)
    elif isinstance(x, Ref) and isinstance(I.obj(x), ListO):
        C.list_replace(I, x, N("shuffled", I.freeze(x), I.new_uid(), kind="list"), name)
    return NONE


for _fn in ("random", "uniform", "gauss", "randint", "choice", "sample", "normalvariate", "randrange"):
    def _h(I, name, args, kwargs):
        I.event("global-rng", api=name)
        return N("draw", name, N("globalrng"), const(I.new_uid()), (), NONE, kind="float")
    HANDLERS[f"random.{_fn}"] = _h


# ---- pandas constructors
@handler("pandas.Series")
def h_series(I, name, args, kwargs):
    d = rawarg(args, kwargs, 0, "data")
    idx = arg(I, args, kwargs, 1, "index")
    nm = arg(I, args, kwargs, 3, "name")
    cp = kwargs.get("copy")
    if d is None:
        return I.wrap(N("mkseries", NONE, idx, kind="series"))

    def f(x):
        if isinstance(x, Ref) and isinstance(I.obj(x), Arr):
            k = I.obj(x).kind
            if k == "series":
                if is_const(idx, None):
                    return I.view(x, ("same",), "series") if cp is None else I.fresh(x)
                return I.wrap(N("reindex", I.content(x), idx, NONE, kind="series"))
            if cp is not None and I.truth(cp) is True:
                return I.wrap(N("mkseries", mkvalues(I.content(x)), idx, kind="series"), name=nm)
            r = I.view(x, ("mkseries", idx), "series")
            I.obj(r).meta["name"] = nm
            return r
        n = I.freeze(x)
        if n.kind in ("list", "tuple"):
            n = asnode_array(n)
        return I.wrap(N("mkseries", n, idx, kind="series"), name=nm)

    return I.lift(d, f)


@handler("pandas.DataFrame")
def h_frame(I, name, args, kwargs):
    d = rawarg(args, kwargs, 0, "data")
    idx = arg(I, args, kwargs, 1, "index")
    cols = arg(I, args, kwargs, 2, "columns")
    if d is None:
        return I.wrap(N("mkframe", NONE, idx, cols, kind="frame"))

    def f(x):
        cp = kwargs.get("copy")
        if isinstance(x, Ref) and isinstance(I.obj(x), Arr) and I.obj(x).kind == "ndarray" and not (cp is not None and I.truth(cp) is True):
            return I.view(x, ("mkframe", idx, cols), "frame")
        n = I.freeze(x)
        if n.kind == "frame" and is_const(idx, None) and is_const(cols, None):
            return I.view(x, ("same",), "frame")
        return I.wrap(N("mkframe", n, idx, cols, kind="frame"))

    return I.lift(d, f)


@handler("pandas.concat")
def h_concat(I, name, args, kwargs):
    its = concrete_items(I, rawarg(args, kwargs, 0, "objs"), 50)
    ax = arg(I, args, kwargs, 1, "axis", const(0))
    if is_const(ax, "columns"):
        ax = const(1)
    if its is not None and is_const(ax, 1):
        return I.wrap(N("concat1", *[I.freeze(x) for x in its], kind="frame"))
    return I.wrap(N("concat0", I.freeze(rawarg(args, kwargs, 0, "objs")), ax, kind="any"))


@handler("pandas.Timedelta", "pandas.to_timedelta")
def h_td(I, name, args, kwargs):
    v = arg(I, args, kwargs, 0, "value" if name.endswith("Timedelta") else "arg")
    if v.kind in ARRAYISH:
        return N("todelta", v, arg(I, args, kwargs, 1, "unit"), kind="any")
    unit = arg(I, args, kwargs, 1, "unit")
    kw = tuple((k, I.freeze(x)) for k, x in sorted(kwargs.items()) if k not in ("value", "unit", "arg"))
    if kw and len(kw) == 1 and is_const(v, None):
        v, unit = kw[0][1], const({"days": "D", "weeks": "W", "hours": "h", "minutes": "min", "seconds": "s"}.get(kw[0][0], kw[0][0]))
    if v.kind == "timedelta":
        return v
    if is_const(v, 0):
        return N("timedelta", const(0), const("D"), kind="timedelta")
    return N("timedelta", v, unit, kind="timedelta")


@handler("pandas.Timestamp", "pandas.to_datetime")
def h_ts(I, name, args, kwargs):
    v = I.freeze(args[0]) if args else NONE
    return I.wrap(N("totime", v, kind="timestamp" if v.kind not in ARRAYISH else ("series" if v.kind == "series" else "dtindex")))


@handler("pandas.date_range", "pandas.bdate_range")
def h_dr(I, name, args, kwargs):
    s, e, p, f = arg(I, args, kwargs, 0, "start"), arg(I, args, kwargs, 1, "end"), arg(I, args, kwargs, 2, "periods"), arg(I, args, kwargs, 3, "freq")
    nm = arg(I, args, kwargs, 6, "name")
    if is_const(f, None) and name.endswith("bdate_range"):
        f = const("B")
    rest = tuple((k, I.freeze(x)) for k, x in sorted(kwargs.items()) if k not in ("start", "end", "periods", "freq", "name"))
    return I.wrap(N("f", "date_range", s, e, p, f, nm, *((rest,) if rest else ()), kind="dtindex"))


@handler("pandas.DatetimeIndex", "pandas.Index")
def h_dti(I, name, args, kwargs):
    n = I.freeze(args[0] if args else kwargs.get("data"))
    k = "dtindex" if "Datetime" in name else "index"
    return I.wrap(N("mkindex", n, kind=k))


@handler("pandas.infer_freq")
def h_if(I, name, args, kwargs):
    return N("f", "pandas.infer_freq", arg(I, args, kwargs, 0, "index"), kind="any")


# ---- scipy.stats
@handler("scipy.stats.norm", "scipy.stats.t", "scipy.stats.multivariate_normal", "scipy.stats.lognorm")
def h_frozen(I, name, args, kwargs):
    d = name.split(".")[-1]
    if d == "multivariate_normal":
        ps = (arg(I, args, kwargs, 0, "mean"), arg(I, args, kwargs, 1, "cov", const(1)))
        extra = tuple((k, I.freeze(v)) for k, v in sorted(kwargs.items()) if k not in ("mean", "cov"))
        return N("dist", d, *ps, kind="dist") if not extra else N("dist", d, *ps, ("kw", extra), kind="dist")
    if d == "norm":
        return N("dist", d, arg(I, args, kwargs, 0, "loc", const(0)), arg(I, args, kwargs, 1, "scale", const(1)), kind="dist")
    return N("dist", d, tuple(I.freeze(a) for a in args), tuple((k, I.freeze(v)) for k, v in sorted(kwargs.items())), kind="dist")


@handler("scipy.stats.norm.logpdf", "scipy.stats.norm.pdf", "scipy.stats.norm.cdf")
def h_norm(I, name, args, kwargs):
    x = arg(I, args, kwargs, 0, "x")
    fn = name.split(".")[-1]
    loc, sc = arg(I, args, kwargs, 1, "loc", const(0)), arg(I, args, kwargs, 2, "scale", const(1))
    return dist_method(I, N("dist", "norm", loc, sc, kind="dist"), fn, x)


@handler("scipy.stats.multivariate_normal.logpdf", "scipy.stats.multivariate_normal.pdf")
def h_mvn(I, name, args, kwargs):
    x = arg(I, args, kwargs, 0, "x")
    d = N("dist", "multivariate_normal", arg(I, args, kwargs, 1, "mean"), arg(I, args, kwargs, 2, "cov", const(1)), kind="dist")
    return dist_method(I, d, name.split(".")[-1], x)


@handler("scipy.stats.t.cdf")
def h_tcdf(I, name, args, kwargs):
    x = arg(I, args, kwargs, 0, "x")
    df = arg(I, args, kwargs, 1, "df")
    loc, sc = arg(I, args, kwargs, 2, "loc", const(0)), arg(I, args, kwargs, 3, "scale", const(1))
    if not is_const(loc, 0):
        x = arith("sub", x, loc)
    if not is_const(sc, 1):
        x = arith("truediv", x, sc)
    return I.wrap(N("tcdf", x, df, kind="ndarray" if x.kind in ARRAYISH else "float"))


def dist_method(I, d, fn, x):
    k = "ndarray" if x.kind in ARRAYISH else "float"
    if d.args[0] == "norm" and fn == "cdf":
        z = x
        if not is_const(d.args[1], 0):
            z = arith("sub", z, d.args[1])
        if not is_const(d.args[2], 1):
            z = arith("truediv", z, d.args[2])
        return I.wrap(N("f", "scipy.stats.norm.cdf", z, kind=k))
    return I.wrap(N("logdens" if fn == "logpdf" else "dens_" + fn, d, x, kind=k))


# ---- builtins
@handler("len")
def b_len(I, name, args, kwargs):
    return I.lift(args[0], lambda v: inst_len(I, v))


def inst_len(I, v):
    if isinstance(v, Ref) and isinstance(I.obj(v), InstO) and isinstance(I.obj(v).cls, ClassV):
        f, _ = I.find_attr(I.obj(v).cls, "__len__")
        if f is not None:
            return I.call(f, [v], {})
    return seq_len(I, v)


@handler("range")
def b_range(I, name, args, kwargs):
    ns = [I.freeze(a) for a in args]
    if len(ns) == 1:
        ns = [const(0), ns[0], const(1)]
    elif len(ns) == 2:
        ns.append(const(1))
    return SpecialV("range", a=ns[0], b=ns[1], c=ns[2], frozen=N("range", *ns, kind="range"))


@handler("enumerate")
def b_enum(I, name, args, kwargs):
    st = arg(I, args, kwargs, 1, "start", const(0))
    return SpecialV("enumerate", it=args[0], start=st, frozen=N("enumerate", I.freeze(args[0]), st))


@handler("zip")
def b_zip(I, name, args, kwargs):
    return SpecialV("zip", its=list(args), frozen=N("zip", *[I.freeze(a) for a in args]))


@handler("reversed")
def b_rev(I, name, args, kwargs):
    return SpecialV("reversed", it=args[0], frozen=N("reversed", I.freeze(args[0])))


@handler("map")
def b_map(I, name, args, kwargs):
    return SpecialV("map", f=args[0], its=list(args[1:]), frozen=N("mapobj", *[I.freeze(a) for a in args]))


@handler("itertools.combinations")
def b_comb(I, name, args, kwargs):
    return SpecialV("combinations", it=args[0], r=arg(I, args, kwargs, 1, "r"), frozen=N("combinations", I.freeze(args[0]), I.freeze(args[1])))


@handler("itertools.product")
def b_prod(I, name, args, kwargs):
    its = list(args)
    if "repeat" in kwargs and is_const(I.freeze(kwargs["repeat"])):
        its = its * I.freeze(kwargs["repeat"]).args[0]
    ls = [concrete_items(I, x, 50) for x in its]
    if all(l is not None for l in ls):
        import itertools
        return SpecialV("items", items=[TupleV(t) for t in itertools.product(*ls)], frozen=N("product", *[I.freeze(a) for a in args]))
    return SpecialV("product", its=its, frozen=N("product", *[I.freeze(a) for a in args]))


@handler("isinstance")
def b_isinst(I, name, args, kwargs):
    return isinstance_model(I, args[0], args[1])


@handler("issubclass")
def b_issub(I, name, args, kwargs):
    if isinstance(args[0], ClassV):
        for c in class_list(I, args[1]):
            if any(c is x or isinstance(c, ExtV) and isinstance(x, ExtV) and c.name == x.name for x in I.mro(args[0])):
                return TRUE
        return FALSE
    if isinstance(args[0], ExtV) and isinstance(args[1], ExtV):
        return const(args[0].name == args[1].name)
    return N("issubclass", I.freeze(args[0]), I.freeze(args[1]), kind="bool")


@handler("type")
def b_type(I, name, args, kwargs):
    return type_of(I, args[0])


@handler("int")
def b_int(I, name, args, kwargs):
    if not args:
        return const(0)
    n = I.freeze(args[0])
    if n.kind in ("int",):
        return n
    if n.op == "const" and isinstance(n.args[0], (int, float)) and n.args[0] == n.args[0] and abs(n.args[0]) != float("inf"):
        return const(int(n.args[0]))
    return N("int", n, kind="int")


@handler("float", "numpy.float64")
def b_float(I, name, args, kwargs):
    if not args:
        return const(0.0)
    n = I.freeze(args[0])
    if n.op == "const" and isinstance(n.args[0], (int, float)):
        return const(float(n.args[0]))
    if n.op == "const" and isinstance(n.args[0], str) and n.args[0] in ("nan", "NaN"):
        return N("nan", kind="float")
    if n.op == "const" and n.args[0] in ("inf", "-inf"):
        return const(float(n.args[0]))
    if n.kind in ("float", "num"):
        return retag(n, "float") if n.kind == "num" and n.op not in ("sym",) else n
    if n.op == "phi":
        return mkphi(n.args[0], b_float(I, name, [n.args[1]], {}), b_float(I, name, [n.args[2]], {}))
    return N("float", n, kind="float")


@handler("bool")
def b_bool(I, name, args, kwargs):
    return I.as_bool(args[0]) if args else FALSE


@handler("str", "repr", "format")
def b_str(I, name, args, kwargs):
    n = I.freeze(args[0]) if args else const("")
    if n.op == "const" and isinstance(n.args[0], (str, int)) and name == "str":
        return const(str(n.args[0]))
    if name in ("str", "format") and len(args) == 1:
        return fmt_part(n)
    return N("str", n, name, kind="str")


@handler("abs", "math.fabs", "operator.abs")
def b_abs(I, name, args, kwargs):
    return I.lift(args[0], lambda v: I.wrap(ew1("abs", I.freeze(v))))


@handler("pow", "math.pow")
def b_pow(I, name, args, kwargs):
    return I.binop("pow", args[0], args[1])


@handler("math.exp", "math.log", "math.sqrt", "math.log1p", "math.expm1")
def b_math(I, name, args, kwargs):
    if name == "math.log" and len(args) == 2:
        return I.binop("truediv", call_ext(I, "numpy.log", args[:1], {}), call_ext(I, "numpy.log", args[1:], {}))
    return call_ext(I, "numpy." + name[5:], args, kwargs)


@handler("round", "numpy.round", "numpy.around", "numpy.rint")
def b_round(I, name, args, kwargs):
    n = I.freeze(args[0])
    d = arg(I, args, kwargs, 1, "ndigits", arg(I, [], kwargs, 0, "decimals"))
    k = n.kind if n.kind in ARRAYISH else ("int" if name == "round" and is_const(d, None) else "float")
    return I.wrap(N("round", n, d, kind=k))


@handler("min", "max")
def b_minmax(I, name, args, kwargs):
    op = "minimum" if name == "min" else "maximum"
    if len(args) == 1:
        its = concrete_items(I, args[0], 60)
        if its is None:
            return I.wrap(mkred(name, asnode_array(I.freeze(args[0])), NONE, NONE, FALSE))
    else:
        its = list(args)
    if any(isinstance(x, PhiV) for x in its):
        its = [I.freeze(x) for x in its]
    if not its:
        return N("opaque", "emptyminmax", I.new_uid())
    ns = [I.freeze(x) for x in its]
    r = ns[0]
    for x in ns[1:]:
        if r.op == "const" and x.op == "const":
            r = const((min if name == "min" else max)(r.args[0], x.args[0]))
        elif r is x:
            continue
        else:
            a, b = sorted((r, x), key=lambda t: t.id)
            r = N(op, a, b, kind=ekind(r.kind, x.kind))
    return I.wrap(r)


@handler("sum", "math.fsum")
def b_sum(I, name, args, kwargs):
    its = concrete_items(I, args[0], 100)
    st = args[1] if len(args) > 1 else kwargs.get("start", const(0))
    if its is not None:
        r = st
        for x in its:
            r = I.binop("add", r, x)
        return r
    n = I.freeze(args[0])
    if n.op == "maplist" and not n.args[2]:
        return I.wrap(N("foldsum", I.freeze(st), n.args[0], n.args[1], n.args[3], kind=n.args[0].kind))
    return I.wrap(mkred("sum", asnode_array(n), NONE, NONE, FALSE))


@handler("any", "all")
def b_anyall(I, name, args, kwargs):
    its = concrete_items(I, args[0], 100)
    if its is not None:
        cs = [I.as_bool(x) for x in its]
        return disj(cs) if name == "any" else conj(cs)
    n = I.freeze(args[0])
    if n.kind in ARRAYISH:
        return mkred(name, n, NONE, NONE, FALSE)
    if n.op == "maplist":
        b, L, cs, bv = n.args
        b = I.as_bool(b)
        if name == "any":
            b = mknot(b)
        if cs:
            b = disj([mknot(c) for c in cs] + [b])
        r = N("red", "all", N("maplist", b, L, (), bv, kind="list"), NONE, NONE, FALSE, kind="bool")
        return mknot(r) if name == "any" else r
    return N("red", name, n, NONE, NONE, FALSE, kind="bool")


@handler("print")
def b_print(I, name, args, kwargs):
    I.event("print", args=[I.freeze(a) for a in args])
    return NONE


@handler("list")
def b_list(I, name, args, kwargs):
    if not args:
        return I.alloc(ListO([]))
    its = concrete_items(I, args[0], 200)
    if its is not None:
        return I.alloc(ListO(its))
    v = args[0]
    if isinstance(v, SpecialV) and v.tag in ("range", "enumerate", "zip", "map", "reversed", "combinations", "product"):
        uid = I.new_uid()
        e, desc = loop_elem(I, v, uid)
        return I.alloc(ListO(None, sym=mkmap(I.freeze(e), uid, desc, [])))
    if isinstance(v, Ref) and isinstance(I.obj(v), ListO):
        return I.alloc(ListO(None, sym=I.obj(v).sym))
    n = I.freeze(v)
    if n.op in ("maplist",):
        return I.alloc(ListO(None, sym=n))
    if n.kind == "index":
        return I.alloc(ListO(None, sym=N("tolist", mkvalues(n), kind="list")))
    return I.alloc(ListO(None, sym=N("listof", n, kind="list")))


@handler("tuple")
def b_tuple(I, name, args, kwargs):
    if not args:
        return TupleV([])
    its = concrete_items(I, args[0], 200)
    if its is not None:
        return TupleV(its)
    return N("tupleof", I.freeze(args[0]), kind="tuple")


@handler("set", "frozenset")
def b_set(I, name, args, kwargs):
    its = concrete_items(I, args[0], 200) if args else []
    if its is not None:
        return SpecialV("set", items=its, frozen=N("set", *[I.freeze(x) for x in its], kind="set"))
    return N("setof", I.freeze(args[0]), kind="set")


@handler("dict", "collections.OrderedDict")
def b_dict(I, name, args, kwargs):
    ref = I.alloc(DictO({}))
    if args:
        src = args[0]
        if isinstance(src, Ref) and isinstance(I.obj(src), DictO):
            dict_update(I, ref, src)
        else:
            its = concrete_items(I, src, 200)
            if its is not None:
                for t in its:
                    u = I.unpack(t, 2)
                    dict_set(I, ref, u[0], u[1])
            else:
                I.mut(ref).sym = I.freeze(src)
    for k, v in kwargs.items():
        dict_set(I, ref, const(k), v)
    return ref


@handler("sorted")
def b_sorted(I, name, args, kwargs):
    its = concrete_items(I, args[0], 200)
    if its is not None and all(isinstance(x, Node) and x.op == "const" for x in its) and "key" not in kwargs:
        rv = I.truth(kwargs["reverse"]) if "reverse" in kwargs else False
        try:
            return I.alloc(ListO([const(v) for v in sorted((x.args[0] for x in its), reverse=bool(rv))]))
        except TypeError:
            pass
    return I.alloc(ListO(None, sym=N("sortedlist", I.freeze(args[0]), tuple((k, I.freeze(v)) for k, v in sorted(kwargs.items())), kind="list")))


@handler("getattr")
def b_getattr(I, name, args, kwargs):
    n = I.freeze(args[1])
    if n.op == "const":
        if len(args) > 2 and isinstance(args[0], Ref) and isinstance(I.obj(args[0]), InstO):
            o = I.obj(args[0])
            if n.args[0] not in o.attrs and not (isinstance(o.cls, ClassV) and I.find_attr(o.cls, n.args[0])[0] is not None):
                return args[2]
        return I.getattr(args[0], n.args[0])
    return N("getattr", I.freeze(args[0]), n)


@handler("setattr", "object.__setattr__")
def b_setattr(I, name, args, kwargs):
    n = I.freeze(args[1])
    I.setattr(args[0], n.args[0] if n.op == "const" else "?", args[2])
    return NONE


@handler("hasattr")
def b_hasattr(I, name, args, kwargs):
    n = I.freeze(args[1])
    v = args[0]
    if n.op == "const" and isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            return const(n.args[0] in o.attrs or I.find_attr(o.cls, n.args[0])[0] is not None)
        if isinstance(o, Arr):
            pd_only = {"index", "iloc", "loc", "rolling", "name", "to_numpy", "columns"}
            if n.args[0] in pd_only:
                return const(o.kind in ("series", "frame") and not (n.args[0] == "columns" and o.kind == "series") and not (n.args[0] == "name" and o.kind == "frame") or (o.kind in ("index", "dtindex") and n.args[0] in ("name", "to_numpy")))
    return N("hasattr", I.freeze(v), n, kind="bool")


@handler("callable")
def b_callable(I, name, args, kwargs):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, PartialV, MethV, ExtV, ClassV)):
        return TRUE
    k = kind_of(I, v)
    if k in ("any",):
        return N("callable", I.freeze(v), kind="bool")
    return FALSE


@handler("property", "functools.cached_property", "abc.abstractproperty")
def b_prop(I, name, args, kwargs):
    return WrapV("property", args[0])


@handler("staticmethod")
def b_static(I, name, args, kwargs):
    return WrapV("static", args[0])


@handler("classmethod")
def b_cls(I, name, args, kwargs):
    return WrapV("class", args[0])


@handler("abc.abstractmethod", "typing.final", "typing.overload", "typing.runtime_checkable", "functools.singledispatch", "typing.no_type_check")
def b_ident(I, name, args, kwargs):
    return args[0]


@handler("dataclasses.dataclass")
def b_dc(I, name, args, kwargs):
    if args:
        return args[0]
    return ExtV("dataclasses.dataclass")


@handler("functools.lru_cache", "functools.cache")
def b_cache(I, name, args, kwargs):
    I.event("memoise", api=name)
    if args and isinstance(args[0], (FuncV, WrapV)):
        return SpecialV("memo", func=args[0], frozen=N("memo", I.freeze(args[0])))
    return SpecialV("memodeco")


@handler("object.__init__", "super.__init__")
def b_oi(I, name, args, kwargs):
    return NONE


@handler("time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "os.urandom", "os.getpid", "uuid.uuid4", "uuid.uuid1",
         "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today", "datetime.datetime.today", "pandas.Timestamp.now", "secrets.randbits", "secrets.token_bytes", "secrets.randbelow")
def b_nondet(I, name, args, kwargs):
    """a value of the environment, another one each time"""
    I.event("nondet", api=name)
    return N("nondet", name, const(I.new_uid()), kind="int" if name.endswith(("_ns", "getpid", "randbits", "randbelow")) else "float" if name.startswith("time.") else "any")


@handler("object", "id", "hash", "vars", "dir")
def b_misc(I, name, args, kwargs):
    return N("call", name, tuple(I.freeze(a) for a in args), const(I.new_uid()))


@handler("slice")
def b_slice(I, name, args, kwargs):
    ns = [I.freeze(a) for a in args]
    if len(ns) == 1:
        ns = [NONE, ns[0]]
    while len(ns) < 3:
        ns.append(NONE)
    return mkslice(*ns[:3])


@handler("iter", "typing.cast", "copy.deepcopy_")
def b_iter(I, name, args, kwargs):
    if name == "typing.cast":
        return args[1]
    return args[0]


@handler("next")
def b_next(I, name, args, kwargs):
    its = concrete_items(I, args[0], 100)
    if its:
        return its[0]
    n = I.freeze(args[0])
    if n.op == "maplist" and not n.args[2]:
        return I.wrap(node_elem(n, const(0)))
    if len(args) > 1:
        return PhiV(N("opaque", "next", I.new_uid(), kind="bool"), N("next", n), args[1])
    return N("next", n)


@handler("copy.copy", "copy.deepcopy")
def b_copy(I, name, args, kwargs):
    return deep_copy(I, args[0], name.endswith("deepcopy"))


def deep_copy(I, v, deep):
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Arr):
            return I.wrap(I.content(v), **o.meta) if o.kind in ARRAYISH else v
        c = o.copy()
        c.owner = None
        if deep:
            if isinstance(c, InstO):
                c.attrs = {k: deep_copy(I, x, True) for k, x in c.attrs.items()}
            elif isinstance(c, ListO) and c.items is not None:
                c.items = [deep_copy(I, x, True) for x in c.items]
            elif isinstance(c, DictO):
                c.items = {k: deep_copy(I, x, True) for k, x in c.items.items()}
        return I.alloc(c)
    return v


@handler("functools.wraps")
def b_wraps(I, name, args, kwargs):
    return SpecialV("wraps", target=args[0])


@handler("functools.update_wrapper")
def b_uw(I, name, args, kwargs):
    if isinstance(args[0], FuncV):
        args[0].wrapped = args[1]
    return args[0]


@handler("functools.partial")
def b_partial(I, name, args, kwargs):
    return PartialV(args[0], list(args[1:]), dict(kwargs))


@handler("functools.reduce")
def b_reduce(I, name, args, kwargs):
    its = concrete_items(I, args[1], 100)
    if its is not None:
        if len(args) > 2:
            its = [args[2]] + its
        r = its[0]
        for x in its[1:]:
            r = I.call(args[0], [r, x], {})
        return r
    return N("reduce", *[I.freeze(a) for a in args])


@handler("inspect.signature")
def b_sig(I, name, args, kwargs):
    f = args[0]
    while isinstance(f, FuncV) and f.wrapped is not None:
        f = f.wrapped
    if isinstance(f, BoundV):
        return SpecialV("signature", func=f.func, skip=1)
    if isinstance(f, FuncV):
        return SpecialV("signature", func=f, skip=0)
    if isinstance(f, ClassV):
        init, _ = I.find_attr(f, "__init__")
        if isinstance(init, FuncV):
            return SpecialV("signature", func=init, skip=1)
    return N("call", name, (I.freeze(f),))


@handler("typing.get_type_hints", "inspect.get_annotations")
def b_hints(I, name, args, kwargs):
    f = args[0]
    while isinstance(f, FuncV) and f.wrapped is not None:
        f = f.wrapped
    if isinstance(f, FuncV):
        d = I.alloc(DictO({}))
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None:
                I.obj(d).items[p.arg] = annotation_value(I, f, p.annotation)
        return d
    return N("call", name, (I.freeze(f),))


def annotation_value(I, f, ann):
    from .interp import Frame
    fr = Frame(f, f.env, I.st.pc)
    I.frames.append(fr)
    try:
        return I.eval(ann)
    finally:
        I.frames.pop()


@handler("joblib.Parallel")
def b_par(I, name, args, kwargs):
    return SpecialV("parallel", frozen=N("parallel"))


@handler("joblib.delayed")
def b_del(I, name, args, kwargs):
    return SpecialV("delayed", func=args[0])


@handler("warnings.warn")
def b_warn(I, name, args, kwargs):
    I.event("warn", args=[I.freeze(a) for a in args])
    return NONE


# ---- logging / io
@handler("logging.getLogger")
def l_get(I, name, args, kwargs):
    return N("logger", I.freeze(args[0]) if args else const(""), kind="logger")


@handler("logging.StreamHandler", "logging.FileHandler", "logging.NullHandler", "logging.handlers.RotatingFileHandler")
def l_h(I, name, args, kwargs):
    n = N("handlerobj", name.split(".")[-1], const(I.new_uid()), tuple(I.freeze(a) for a in args), kind="handler")
    I.event("handler-create", api=name, node=n)
    return n


@handler("logging.Formatter")
def l_f(I, name, args, kwargs):
    return N("formatter", tuple(I.freeze(a) for a in args), kind="any")


# file paths: the package lives at a fixed unknown place, paths below it are computed
def path_text(n):
    """the text of a known path, else None"""
    if n.op == "path":
        n = n.args[0]
    return n.args[0] if n.op == "const" and isinstance(n.args[0], str) else None


def mkpath(n):
    t = path_text(n)
    return n if n.kind == "path" and t is None else N("path", const(os.path.normpath(t)) if t is not None else n, kind="path")


def joinpath(a, *bs):
    r = mkpath(a)
    for b in bs:
        x, y = path_text(r), path_text(b)
        r = mkpath(const(os.path.join(x, y))) if x is not None and y is not None else N("pathjoin", r, b, kind="path")
    return r


def path_attr(n, name):
    t = path_text(n)
    if t is not None:
        q = pathlib.PurePosixPath(t)
        if name == "parent":
            return mkpath(const(str(q.parent)))
        if name == "parents":
            return TupleV([mkpath(const(str(x))) for x in q.parents])
        if name == "parts":
            return TupleV([const(x) for x in q.parts])
        return const(getattr(q, name))
    return N("path" + name, n, kind="path" if name == "parent" else ("str" if name in ("name", "stem", "suffix") else "any"))


@handler("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath")
def p_path(I, name, args, kwargs):
    return joinpath(I.freeze(args[0]) if args else const("."), *[I.freeze(a) for a in args[1:]])


def exists(p):
    return N("pathexists", mkpath(p), kind="bool")


@handler("open", "io.open", "gzip.open", "bz2.open", "gzip.GzipFile")
def p_open(I, name, args, kwargs):
    f = args[0] if args else kwargs.get("file", kwargs.get("filename", kwargs.get("fileobj", NONE)))
    if name == "gzip.GzipFile" and is_const(I.freeze(f), None):
        f = kwargs.get("fileobj", NONE)
    mode = arg(I, args, kwargs, 1, "mode", const("r" if "gzip" not in name else "rb"))
    f = I.freeze(f)
    if f.kind == "str":
        f = mkpath(f)
    n = N("fileobj", name, f, mode, const(I.new_uid()), kind="file")
    I.event("open", api=name, target=f, mode=mode, node=n, encoding=I.freeze(kwargs.get("encoding", NONE)))
    return n


def csv_source(n, comp):
    """(path, compression) of what read_csv is given"""
    if n.op == "fileobj" and n.args[0] in ("gzip.open", "gzip.GzipFile"):
        p, c = csv_source(n.args[1], NONE)
        return p, const("gzip") if is_const(c, None) else N("csvsource", p, c)
    if n.op == "fileobj" and n.args[0] in ("open", "io.open"):
        return csv_source(n.args[1], NONE)
    if n.kind in ("path", "str"):
        n = mkpath(n)
        t = path_text(n)
        if is_const(comp, "infer") and t is not None:
            comp = const({"gz": "gzip", "bz2": "bz2", "zip": "zip", "xz": "xz"}.get(t.rsplit(".", 1)[-1]))
        return n, comp
    if n.kind == "file" and is_const(comp, "infer"):
        comp = NONE
    return n, comp


NEUTRAL = {"low_memory": None, "engine": ("c", "python"), "sep": (",",), "delimiter": (",", None), "header": (0, "infer"), "encoding": ("utf-8", "utf8", None), "memory_map": None, "cache_dates": None, "date_format": None}


@handler("pandas.read_csv")
def p_csv(I, name, args, kwargs):
    args, kwargs = list(args), dict(kwargs)
    if "filepath_or_buffer" in kwargs:
        args = [kwargs.pop("filepath_or_buffer")]
    if len(args) > 1:
        kwargs["sep"] = args.pop(1)
    vals, rest = canon_args(I, name, args, kwargs)
    rest = [(k, v) for k, v in rest if not (k in NEUTRAL and (NEUTRAL[k] is None or v.op == "const" and v.args[0] in NEUTRAL[k]))]
    src, comp = csv_source(vals[0], vals[3])
    if vals[2].op == "list" and len(vals[2].args) == 1 and is_const(vals[2].args[0], 0) and is_const(vals[1], 0):
        vals[2] = TRUE
    if vals[1].op == "const" and isinstance(vals[1].args[0], str):
        vals[1] = N("columnnamed", vals[1])
    n = N("f", name, src, *vals[1:3], comp, *([("kw", tuple(rest))] if rest else []), kind="frame")
    I.event("read", target=src, node=n)
    csv_columns(I, n, src, comp, vals[1], rest)
    return I.wrap(n)


CSVCOLS = {}


def csv_columns(I, n, src, comp, index_col, rest):
    """the column names of a packaged csv file, read from the source tree"""
    t = path_text(src)
    if t is None or not t.startswith("/where/it/is/") or rest or not is_const(comp, "gzip", None):
        return
    q = t.replace("/where/it/is", I.pk.root, 1)
    try:
        with (gzip.open if is_const(comp, "gzip") else open)(q, "rt", encoding="utf-8") as fh:
            names = next(csv.reader(fh))
    except (OSError, StopIteration, ValueError):
        return
    if is_const(index_col) and isinstance(index_col.args[0], int) and 0 <= index_col.args[0] < len(names):
        del names[index_col.args[0]]
    elif not is_const(index_col, None):
        return
    CSVCOLS[n.id] = N("list", *[const(x) for x in names], kind="list")


@handler("os.path.join")
def p_join(I, name, args, kwargs):
    return joinpath(*[I.freeze(a) for a in args])


@handler("os.path.dirname")
def p_dir(I, name, args, kwargs):
    return path_attr(mkpath(I.freeze(args[0])), "parent")


@handler("os.path.basename")
def p_base(I, name, args, kwargs):
    return path_attr(mkpath(I.freeze(args[0])), "name")


@handler("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath")
def p_abs(I, name, args, kwargs):
    return mkpath(I.freeze(args[0]))


@handler("os.path.exists", "os.path.isfile")
def p_ex(I, name, args, kwargs):
    return exists(I.freeze(args[0]))


@handler("importlib.resources.files")
def p_files(I, name, args, kwargs):
    m = I.freeze(args[0])
    if m.op == "const" and m.args[0] in I.pk.files and I.pk.is_package(m.args[0]):
        return mkpath(const(os.path.dirname("/where/it/is/" + I.pk.files[m.args[0]])))
    return NotImplemented


# pydantic core schemas: a schema is the function it validates with
CS = "pydantic_core.core_schema."


@handler(*[CS + f"{i}_{w}_validator_function" for i in ("no_info", "with_info") for w in ("plain", "after", "before")], CS + "general_plain_validator_function")
def h_validator(I, name, args, kwargs):
    f = args[0] if args else kwargs["function"]
    inner = args[1] if len(args) > 1 else kwargs.get("schema")
    return SpecialV("schema", kind=name.split("_")[-3], func=f, inner=inner, info="with_info" in name or "general" in name, frozen=N("schema", name, I.freeze(f), kind="any"))


@handler(CS + "chain_schema")
def h_chain(I, name, args, kwargs):
    its = concrete_items(I, args[0] if args else kwargs["steps"], 20)
    if its is None:
        return NotImplemented
    return SpecialV("schema", kind="chain", steps=list(its), frozen=N("schema", name, tuple(I.freeze(i) for i in its), kind="any"))


@handler(CS + "any_schema")
def h_anyschema(I, name, args, kwargs):
    return SpecialV("schema", kind="chain", steps=[], frozen=N("schema", name, kind="any"))


@handler(CS + "is_instance_schema")
def h_isinstschema(I, name, args, kwargs):
    c = args[0] if args else kwargs["cls"]
    return SpecialV("schema", kind="isinstance", cls=c, frozen=N("schema", name, I.freeze(c), kind="any"))


@handler(CS + "json_or_python_schema", CS + "lax_or_strict_schema")
def h_jsonpy(I, name, args, kwargs):
    s = kwargs.get("python_schema", kwargs.get("lax_schema", args[-1] if args else None))
    return NotImplemented if s is None else s


def run_schema(I, s, v):
    """validate the value v with the schema s"""
    if not isinstance(s, SpecialV) or s.tag != "schema":
        return N("validated", I.freeze(s), I.freeze(v))
    d = s.data
    if d["kind"] == "chain":
        for t in d["steps"]:
            v = run_schema(I, t, v)
            if I.st is None:
                return v
        return v
    if d["kind"] == "isinstance":
        return N("validated", d["frozen"], I.freeze(v))
    a = [N("validation_info", kind="any")] if d["info"] else []
    if d["kind"] == "after" and d["inner"] is not None:
        v = run_schema(I, d["inner"], v)
    if I.st is None:
        return v
    v = I.call(d["func"], [v] + a, {})
    if d["kind"] == "before" and d["inner"] is not None and I.st is not None:
        v = run_schema(I, d["inner"], v)
    return v
