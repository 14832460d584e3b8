"""Input validators reject exactly the inputs they document."""
from sa.ir import const
from .common import *

EXPLAIN = """The two validating decorators are applied to a probe function with positional, defaulted and keyword-only parameters, for every choice of named
arguments, and the decorated probe is interpreted with each kind of value (series, frame, arrays of zero to three dimensions with symbolic
sizes, lists, numbers, text, None) passed by position, by keyword or not at all. Its result and the exact condition under which it raises
ValueError are compared with spec/util.py; the wrapped function must receive the caller's objects themselves."""
ASSUMPTIONS = ["inspect.signature/bind_partial follow Python's documented call binding"]

V = "quantfinlib.util._validate."
n, m, k = dim("n", 0), dim("m", 0), dim("k", 0)
VALUES = {
    "series": lambda S, q: S.arr(q, "series", (n,), elem="float"), "frame": lambda S, q: S.arr(q, "frame", (n, m), elem="float"), "1-d array": lambda S, q: S.arr(q, "ndarray", (n,)),
    "2-d array": lambda S, q: S.arr(q, "ndarray", (n, m)), "3-d array": lambda S, q: S.arr(q, "ndarray", (n, m, k)), "0-d array": lambda S, q: S.arr(q, "ndarray", ()),
    "list": lambda S, q: S.lst([real("r"), real("s")]), "number": lambda S, q: real(q), "text": lambda S, q: sym(q, "str"), "none": lambda S, q: NONE, "dict": lambda S, q: S.I.alloc(interp.DictO({})),
    "tuple": lambda S, q: interp.TupleV([real("r"), real("s")]), "date index": lambda S, q: S.arr(q, "dtindex", (n,)),
}
NAMES = (("a",), ("b",), ("c",), ("a", "b"), ("b", "a"), ("a", "b", "c"), ())


def check(ctx):
    for deco, ref, good in (("validate_series_or_1Darray", "validated_1d", "series"), ("validate_frame_or_2Darray", "validated_2d", "frame")):
        for names in NAMES:
            for vn in VALUES:
                for where in ("a by position", "a by keyword", "b by position", "b by keyword", "c", "all"):
                    if names not in (("a",), ("a", "b", "c")) and where not in ("all", "b by keyword"):
                        continue
                    name = f"{deco}{names!r} [{where} = {vn}]"
                    ctx.run("validation", name, equal, ctx, "validation", name, lambda S: impl(S, deco, names, vn, where, good), lambda S: reference(S, ref, names, vn, where, good))


def arguments(S, vn, where, good):
    ok = VALUES[good](S, "fine")
    v = VALUES[vn](S, "v")
    if where == "a by position":
        return [v], {}
    if where == "a by keyword":
        return [], {"a": v}
    if where == "b by position":
        return [ok, v], {}
    if where == "b by keyword":
        return [ok], {"b": v}
    if where == "c":
        return [ok], {"c": v}
    return [v, VALUES[vn](S, "w")], {"c": VALUES[vn](S, "u")}


def impl(S, deco, names, vn, where, good):
    f = S.I.call(S.call(V + deco, *names), [S.attr("spec_util.probe")], {})
    a, kw = arguments(S, vn, where, good)
    return S.I.call(f, a, kw)


def reference(S, ref, names, vn, where, good):
    a, kw = arguments(S, vn, where, good)
    return S.call("spec_util." + ref, interp.TupleV([const(x) for x in names]), *a, **kw)
