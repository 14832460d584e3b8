"""Typed-array annotations accept exactly matching data."""
from sa.ir import const
from .common import *

EXPLAIN = """Each annotation class is instantiated with the admissible shapes, element types and column maps, its pydantic core schema is built and the
validators captured from it (chains, plain/before/after validators) are interpreted on every kind of value with symbolic sizes. The returned
value and the exact condition and kind of the error are compared with the acceptance rule in spec/util.py."""
ASSUMPTIONS = ["pydantic runs the validators of a chain schema in order and lets a TypeError through unchanged", "numpy.can_cast and pandas is_dtype_equal are operators shared with the definition"]

C = "quantfinlib.util._custom_types._Custom"
n, m, k = dim("n", 0), dim("m", 0), dim("k", 0)
VALUES = {
    "series": lambda S: S.arr("s", "series", (n,)), "frame": lambda S: S.arr("f", "frame", (n, m)), "0-d array": lambda S: S.arr("q", "ndarray", ()), "1-d array": lambda S: S.arr("v", "ndarray", (n,)),
    "2-d array": lambda S: S.arr("a", "ndarray", (n, m)), "3-d array": lambda S: S.arr("c", "ndarray", (n, m, k)), "list": lambda S: S.lst([real("r"), real("t")]), "number": lambda S: real("r"),
    "text": lambda S: sym("t", "str"), "none": lambda S: NONE, "date index": lambda S: S.arr("d", "dtindex", (n,)),
}


def tup(*xs):
    return lambda S: interp.TupleV([const(x) if isinstance(x, (str, int)) else x for x in xs])



N3 = dim("want", 0)
SHAPES = {"*": lambda S: const("*"), "('*',)": tup("*"), "(3,)": tup(3), "('4',)": tup("4"), "('*','*')": tup("*", "*"), "('*',2)": tup("*", 2), "(5,'*')": tup(5, "*"), "(n1,n2)": tup(N3, dim("want2", 0)), "(3,'*',1)": tup(3, "*", 1), "()": tup()}
TYPES = {"any type": None, "float64": "FLOAT64", "int_": "INT_", "bool_": "BOOL_"}
SSHAPES = {"*": lambda S: const("*"), "7": lambda S: const(7), "0": lambda S: const(0), "1": lambda S: const(1), "n": lambda S: N3, "(3,)": tup(3)}
FSHAPES = {"*": lambda S: const("*"), "(4,2)": tup(4, 2), "(n1,n2)": tup(N3, dim("want2", 0)), "(3,)": tup(3)}


def typ(S, name, none):
    t = TYPES[name]
    return S.attr("spec_util." + t) if t else (S.attr("spec_util.ANY_TYPE") if none is Ellipsis else NONE)


def columns(S, which):
    if which == "no columns":
        return NONE
    if which == "a list":
        return S.lst([const("x")])
    d = {"one column": {"x": "FLOAT64"}, "two columns": {"x": "FLOAT64", "y": "INT_"}, "empty map": {}}[which]
    o = S.call("spec_util.mapping", *[v for q, t in d.items() for v in (const(q), S.attr("spec_util." + t))])
    return o


def schema(S, cls, **kw):
    o = S.I.call(S.attr(C + cls), [], kw)
    src = sym("source", "any")
    return S.meth(o, "__get_pydantic_core_schema__", src, sym("handler", "any"))


def check(ctx):
    for vn, mk in VALUES.items():
        for tn in TYPES:
            for sn, sh in SHAPES.items():
                name = f"array annotation shape={sn} dtype={tn} [{vn}]"
                ctx.run("acceptance", name, accepts, ctx, name, mk, lambda S, v: S.I.call(schema(S, "NumpyArrayPydanticAnnotation", shape=sh(S), dtype=typ(S, tn, ...)), [v], {}),
                        lambda S: S.call("spec_util.array_matches", mk(S), sh(S), typ(S, tn, None)))
            for sn, sh in SSHAPES.items():
                name = f"series annotation shape={sn} dtype={tn} [{vn}]"
                ctx.run("acceptance", name, accepts, ctx, name, mk, lambda S, v: S.I.call(schema(S, "PandasSeriesPydanticAnnotation", shape=sh(S), dtype=typ(S, tn, None)), [v], {}),
                        lambda S: S.call("spec_util.series_matches", mk(S), sh(S), typ(S, tn, None)))
            for cn in ("no columns", "one column", "two columns", "empty map", "a list"):
                for sn, sh in FSHAPES.items():
                    name = f"frame annotation columns={cn} shape={sn} dtype={tn} [{vn}]"
                    ctx.run("acceptance", name, accepts, ctx, name, mk, lambda S, v: S.I.call(schema(S, "PandasDataFramePydanticAnnotation", shape=sh(S), dtype=typ(S, tn, None), columns=columns(S, cn)), [v], {}),
                            lambda S: S.call("spec_util.frame_matches", mk(S), columns(S, cn), typ(S, tn, None), sh(S)))
        for cls, ref, want in (("NumpyArray", "array_matches", lambda S: [const("*"), NONE]), ("PandasSeries", "series_matches", lambda S: [const("*"), NONE]), ("PandasDataFrame", "frame_matches", lambda S: [NONE, NONE, const("*")])):
            if cls == "NumpyArray":
                continue
            name = f"{cls} annotation without arguments [{vn}]"
            ctx.run("acceptance", name, accepts, ctx, name, mk, lambda S, v: S.I.call(schema(S, cls + "PydanticAnnotation"), [v], {}), lambda S: S.call("spec_util." + ref, mk(S), *want(S)))


def accepts(ctx, name, mk, f, g):
    held = []

    def run(S):
        v = mk(S)
        r = f(S, v)
        held.append(S.I.st is not None and isinstance(v, interp.Ref) and not (isinstance(r, interp.Ref) and r.loc == v.loc))
        return r
    a, b = equal(ctx, "acceptance", name, run, g)
    if held and held[0]:
        ctx.refute("value returned unchanged", name, "the accepted value is not the caller's own object")
    elif not a.dead:
        ctx.proved("value returned unchanged", name, "the caller's own object")
    wrong = [e for e in a.raises() if e.data["exc"] != "TypeError" and not e.data.get("implicit")]
    if wrong:
        ctx.refute("type error on rejection", name, f"rejects with {wrong[0].data['exc']}", wrong[0].loc)
    elif a.raises():
        ctx.proved("type error on rejection", name, f"{len(a.raises())} raises")
