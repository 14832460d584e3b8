"""Dataset loaders read their own file and keep its index."""
from sa.ir import const
from .common import *

EXPLAIN = """Each loader is interpreted from its call down to the file access: the path it opens is computed from the location of the source file, the way the
file is decompressed and parsed is reduced to (file, compression, parser options), and the returned frame and the error for a missing file are
compared with the reference loader in spec/util.py. The packaged file itself must exist in the source tree, and no other file may be opened,
written or fetched."""
ASSUMPTIONS = ["pandas.read_csv with given options is an operator shared with the definition", "the package is not moved while it runs"]

D = "quantfinlib.datasets."
LOADERS = ("load_vix", "load_treasury_rates", "load_equity_indices")


def check(ctx):
    for f in LOADERS:
        ctx.run("loader", f, loader, ctx, f)
    for name, mk in {"no path": None, "none": lambda S: NONE, "text": lambda S: const("docs/index.md"), "any text": lambda S: sym("rel", "str"), "path": lambda S: S.call("spec_util.Path", "a/b")}.items():
        args = (lambda S: []) if mk is None else (lambda S: [mk(S)])
        ctx.run("project root", f"get_project_root [{name}]", equal, ctx, "project root", f"get_project_root [{name}]", lambda S: S.call("quantfinlib.util.get_project_root", *args(S)), lambda S: S.call("spec_util.project_path", *(args(S) or [NONE])))


def loader(ctx, f):
    import os
    a, b = equal(ctx, "loader", f, lambda S: S.call(D + f), lambda S: S.call("spec_util.dataset", f))
    compare_raises(ctx, "missing file", f, a, b, exc=("FileNotFoundError",))
    want = {ir.show(e.data["target"], 300) for e in b.events if e.type == "read"}
    for e in a.events:
        if e.type in ("fs-write", "network", "process-state") or e.type == "open" and ir.is_const(e.data["mode"]) and set(str(e.data["mode"].args[0])) & set("wa+x"):
            ctx.refute("only reads its file", f, f"{e.type} {e.data.get('api', '')}", e.loc)
        if e.type == "read" and ir.show(e.data["target"], 300) not in want:
            ctx.refute("only reads its file", f, f"reads {ir.show(e.data['target'], 200)}", e.loc)
    opened = [e for e in a.events if e.type == "read" and isinstance(e.data["target"], ir.Node)]
    for e in opened:
        t = e.data["target"]
        if t.op == "path" and t.args[0].op == "const":
            q = t.args[0].args[0].replace("/where/it/is", ctx.repo, 1)
            if os.path.isfile(q):
                ctx.proved("packaged file exists", f, t.args[0].args[0].replace("/where/it/is/", ""))
            else:
                ctx.refute("packaged file exists", f, "no such file in the source tree: " + t.args[0].args[0].replace("/where/it/is/", ""), e.loc)
    if not a.dead:
        bad = {x.op for x in ir.reachable(a.value)} & ALTER
        if bad:
            ctx.refute("rows and values kept", f, "the parsed data goes through " + ", ".join(sorted(bad)))
        else:
            ctx.proved("rows and values kept", f, "no row-dropping or filling operation on the parsed data")


ALTER = {"dropna", "drop_duplicates", "fillna", "interpolate", "resample", "asfreq", "where_na", "nlargest", "nsmallest", "sample", "round", "ffill", "bfill", "cumsum", "pct_change"}
