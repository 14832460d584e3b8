"""Logger configuration is idempotent and releases its resources."""
import itertools
from sa.ir import const
from sa.entry import Session
from .common import *

EXPLAIN = """The package is interpreted with the standard logging objects replaced by the model in spec/logmodel.py. From every logger state with up to three
handlers of any kind, and after every sequence of up to three configuration calls, the configured logger (level, handlers with level, format,
file and open/closed state), the set of open files and the fate of the previous handlers are compared with the definition. Every call that is
shown to leave a state depending only on its own arguments makes longer histories equivalent to one call."""
ASSUMPTIONS = ["the model of logging.Logger, Handler, StreamHandler, FileHandler and Formatter in spec/logmodel.py", "no other thread changes the handlers during the call"]

L = "spec_logmodel."
NAMES = ("getLogger", "StreamHandler", "FileHandler", "NullHandler", "Handler", "Formatter", "Logger")
KINDS = {"stream": ("StreamHandler", ()), "file": ("FileHandler", ("old.log",)), "null": ("NullHandler", ())}
CALLS = {
    "default": lambda i: ({}, {}), "level": lambda i: ({"verbosity": sym(f"level{i}", "int")}, {"verbosity": sym(f"level{i}", "int")}),
    "file": lambda i: ({"verbosity": sym(f"level{i}", "int"), "log_to_file": const(True)}, {"verbosity": sym(f"level{i}", "int"), "to_file": const(True)}),
    "file at path": lambda i: ({"verbosity": sym(f"level{i}", "int"), "log_to_file": const(True), "log_file_path": sym(f"path{i}", "str")}, {"verbosity": sym(f"level{i}", "int"), "to_file": const(True), "path": sym(f"path{i}", "str")}),
    "path only": lambda i: ({"log_file_path": sym(f"path{i}", "str")}, {"path": sym(f"path{i}", "str")}),
}


def check(ctx):
    over = {f"logging.{n}": L + n for n in NAMES} | {"logging.handlers.RotatingFileHandler": L + "RotatingFileHandler"}
    S = Session(package=ctx.package(), overrides=over)
    for k in range(4):
        for before in itertools.combinations_with_replacement(KINDS, k):
            for c in CALLS:
                one(ctx, S, before, (c,))
    for h in itertools.product(("default", "file", "file at path"), repeat=2):
        one(ctx, S, (), h)
    for h in itertools.product(("level", "file at path"), repeat=3):
        one(ctx, S, (), h)
    for c in CALLS:
        ctx.run("import", "import", imported, ctx, S, c)


def handlers(S, before):
    lg = S.attr("quantfinlib.util._logging.logger")
    hs = []
    for i, k in enumerate(before):
        cls, a = KINDS[k]
        h = S.call(L + cls, *[x for x in a])
        S.meth(h, "setLevel", sym(f"old{i}", "int"))
        S.meth(lg, "addHandler", h)
        hs.append(h)
    return lg, S.lst(hs)


def formats(S, lg):
    """the format of the console handler"""
    v = S.I.freeze(S.I.getattr(lg, "handlers"))
    return v


def one(ctx, S, before, calls):
    name = f"logger with {list(before)} handlers, calls {list(calls)}"
    ctx.run("configuration", name, step, ctx, S, name, before, calls)


def step(ctx, S, name, before, calls):
    S.reset()
    lg, hs = handlers(S, before)
    old = S.I.freeze(S.call(L + "other_loggers"))
    for i, c in enumerate(calls):
        S.call("quantfinlib.util._logging.configure_logger", **CALLS[c](i)[0])
    ctx.count("histories")
    if any(e.type in ("logging-config", "logging", "handler-create") or e.type.startswith("opaque") for e in S.events):
        ctx.undecided("configuration", name, "uses logging calls outside the model")
        return
    if S.I.st is None:
        r = [e for e in S.events if e.type == "raise"]
        ctx.refute("configuration", name, f"raises {r[-1].data['exc'] if r else ''}", r[-1].loc if r else None)
        return
    got = S.I.freeze(S.call(L + "state", lg, hs))
    others = S.I.freeze(S.call(L + "other_loggers"))
    first = S.I.getattr(lg, "handlers")
    items = S.I.obj(first).items
    fmt = const("default")
    if items:
        fmt = S.I.getitem(S.call(L + "described", items[0]), const(6))
        if S.I.freeze(fmt) is const("default"):
            ctx.refute("format", name, "the console handler has no format of its own")
    S2 = S
    lits = S.I.st.pc
    want = S2.call(L + "configured", hs, fmt, **CALLS[calls[-1]](len(calls) - 1)[1])
    if lits:
        ctx.count("conditional_states")
    compare_values(ctx, "configuration", name, got, S.I.freeze(want))
    if old is others:
        ctx.proved("other loggers untouched", name, "")
    else:
        ctx.refute("other loggers untouched", name, f"{ir.show(old, 200)} became {ir.show(others, 200)}")


def imported(ctx, S, c):
    S.reset()
    lg = S.attr("quantfinlib.util._logging.logger")
    n = S.I.obj(S.I.getattr(lg, "handlers")).items
    if n == []:
        ctx.proved("import", "import", "no handler and no file before the logger is configured")
    else:
        ctx.refute("import", "import", "handlers are installed at import")
