"""Library calls leave global state alone."""
import ast
from .drive import *

EXPLAIN = """The bodies of all modules and then every public callable, with every admissible container kind and option, are interpreted. Every effect on
process-wide state is an event: warning filters, numpy and pandas settings, the global random generators, logging calls, the environment, the
working directory, standard output, files opened for writing, attributes or items assigned on other libraries or on modules. Effects inside
warnings.catch_warnings, numpy.errstate and similar restoring blocks are local. After each call every object that existed after import is
compared with its import-time state, so caches, counters, mutable defaults and shared default objects changed by a call are found too."""
ASSUMPTIONS = ["the standard library and numpy/pandas/scipy calls used keep to their documented effects", "the library's own logger gets its initial level at import"]
BAD = {"warnings-config": "changes the warning filters", "numpy-config": "changes the numpy settings", "pandas-config": "changes the pandas options", "global-seed": "seeds the global random generator",
       "global-rng": "draws from the global random generator", "logging-config": "configures logging", "handler-create": "creates a log handler", "logging": "changes a logger", "environ-write": "changes the environment",
       "process-state": "changes process state", "print": "writes to standard output", "fs-write": "writes to the file system", "network": "uses the network", "ext-attr-write": "assigns to another library",
       "module-attr-write": "assigns to a module", "global-write": "assigns a module-level name", "class-attr-write": "assigns a class attribute"}
LOCAL = {"warnings-config": ("warnings.catch_warnings",), "numpy-config": ("numpy.errstate", "numpy.printoptions"), "pandas-config": ("pandas.option_context",), "ext-attr-write": ("pandas.option_context", "warnings.catch_warnings")}
RANDOM = ("quantfinlib.math.cov._random_cov", "quantfinlib.math.cov._random_cor")
STATE_CALLS = ("sys.path.", "sys.modules", "sys.stdout.", "sys.stderr.", "os.environ", "warnings.filters", "pandas.options", "numpy.core.", "sys.setswitchinterval", "sys.set", "threading.excepthook", "atexit.register", "gc.", "faulthandler.", "tracemalloc.", "multiprocessing.set_", "importlib.reload", "site.")
REPORTS = {"_logging.configure_logger"}


def check(ctx):
    S = ctx.session()
    ctx.run("import", "import", imported, ctx, S)
    seen = set()
    for area, name, f in drives():
        if name.startswith("_random_"):
            continue
        ctx.run("effects", name, one, ctx, name, f, seen)
    ctx.count("functions_interpreted", len(seen))
    ctx.run("private drawing helpers", "_random_cov", helpers, ctx)


def scoped(events):
    """events with the names of the restoring context managers they are inside of"""
    stack = []
    for e in events:
        if e.type == "with-enter":
            v = e.data["value"]
            stack.append(str(v.args[0]) if v.args and isinstance(v.args[0], str) else v.op)
        elif e.type == "with-exit":
            if stack:
                stack.pop()
        else:
            yield e, tuple(stack)


def effects(events, base=None):
    for e, inside in scoped(events):
        if not possible(e):
            continue
        what = BAD.get(e.type)
        if what is None:
            if e.type == "open" and ir.is_const(e.data["mode"]) and set(str(e.data["mode"].args[0])) & set("wax+"):
                what = "opens a file for writing"
            elif e.type == "unknown-ext" and str(e.data["name"]).startswith(STATE_CALLS):
                what = "changes process state"
            elif e.type == "func-attr-write" and base is not None and e.data["func"] in base:
                what = "assigns an attribute of a module-level function"
            elif e.type == "opaque-attr-write" and isinstance(e.data["obj"], ir.Node) and e.data["obj"].op in ("logger", "getlogger"):
                what = "changes a logger"
            else:
                continue
        if any(x in LOCAL.get(e.type, ()) for x in inside):
            continue
        if e.type == "logging" and e.data.get("what") in READS:
            continue
        yield e, what + detail(e)


def published(S):
    """functions bound to names when the package has been imported"""
    return {v for ref in S.I.modules.values() for v in getattr(S.base.heap.get(ref), "vars", {}).values() if isinstance(v, interp.FuncV)}


READS = ("getChild", "isEnabledFor", "getEffectiveLevel", "hasHandlers", "getLogger", "handle", "makeRecord", "findCaller")


def detail(e):
    d = e.data
    x = d.get("api") or d.get("what") or (f"{d['obj']}.{d.get('name', '')}" if isinstance(d.get("obj"), str) else None) or d.get("name")
    return f" ({x})" if isinstance(x, str) else ""


def possible(e):
    return not any(infeasible(c, p) for c, p in e.pc)


def own_level(e):
    """the level of the library's own logger"""
    t = e.data.get("target")
    return e.type == "logging" and e.data.get("what") == "setLevel" and isinstance(t, ir.Node) and t.op in ("logger", "getlogger", "call") and "quantfinlib" in ir.show(t, 200)


def imported(ctx, S):
    n = 0
    for e, what in effects(S.load_events):
        if e.type == "class-attr-write" or e.type == "global-write" or own_level(e):
            continue
        n += 1
        ctx.refute("importing changes nothing outside", "import of " + (e.loc[0] if e.loc else "?"), what, e.loc)
    mods = sorted(S.pk.trees)
    for m in mods:
        ctx.count("modules_imported")
    if not n:
        ctx.proved("importing changes nothing outside", "import", f"{len(mods)} module bodies")


def one(ctx, name, f, seen):
    S = ctx.session()
    S.I.unroll_while = 0
    before = dict(S.base.heap)
    S.I.functions_seen = set()
    f(S)
    seen |= S.I.functions_seen
    ctx.count("calls_analysed")
    bad = {}
    for e, what in effects(S.events, published(S)):
        bad.setdefault((what, e.loc), e)
    for (what, loc), e in bad.items():
        ctx.refute("no global effect", name, what, loc)
    if not bad:
        ctx.proved("no global effect", name)
    if S.I.st is not None:
        changed = [(loc, o) for loc, o in before.items() if S.I.st.heap.get(loc) is not o and differs(o, S.I.st.heap.get(loc))]
        for loc, o in changed:
            ctx.refute("nothing created at import is changed", name, f"{label(S, loc, o)} is changed by the call")
        if not changed:
            ctx.proved("nothing created at import is changed", name)


def differs(a, b):
    if type(a) is not type(b):
        return True
    for q in ("items", "attrs", "content", "sym", "vars", "names", "cells"):
        x, y = getattr(a, q, None), getattr(b, q, None)
        if x is y:
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            if set(x) != set(y) or any(not same(x[k], y[k]) for k in x):
                return True
        elif isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y) or any(not same(p, q2) for p, q2 in zip(x, y)):
                return True
        elif not same(x, y):
            return True
    return False


def same(x, y):
    return x is y or isinstance(x, interp.Ref) and isinstance(y, interp.Ref) and x.loc == y.loc


def label(S, loc, o):
    for m, ref in S.I.modules.items():
        if ref == loc:
            return f"a module-level name of {m}"
        vs = getattr(S.base.heap.get(ref), "vars", None)
        for q, v in (vs or {}).items():
            if isinstance(v, interp.Ref) and v.loc == loc:
                return f"{m}.{q}"
    return f"an object ({type(o).__name__}) created at import, such as a default value or a cache,"


def helpers(ctx):
    """the two random-matrix helpers are the only functions that may draw from the global generator"""
    S = ctx.session()
    for q in RANDOM:
        S.reset()
        try:
            S.call(q, dim("n"))
        except Missing:
            continue
        for e, what in effects(S.events):
            if e.type != "global-rng":
                ctx.refute("no global effect", q.rsplit(".", 1)[1], what, e.loc)
        ctx.count("calls_analysed")
