"""Every name, export and attribute used exists on every path."""
import ast
from sa.scope import Scopes, Containers
from sa.interp import Interp
from .drive import *
from . import G04

EXPLAIN = """Two analyses. (1) Over the syntax tree of every module and function: imports (also of the installed third-party packages, whose names are read
from their source and stub files), __all__ lists, global and builtin names, attributes of imported modules, attributes of self (over the whole
class family), and local names that no assignment can reach. (2) Over every path of every driven call (all container kinds and options, plus one
unknown value for every option): reads of locals that are unassigned on that path, names that are not defined, attributes missing from instances,
None, arrays, series, frames or modules, calls with missing or unexpected arguments, and every module imported first in a fresh state (import cycles)."""
ASSUMPTIONS = ["an attribute or name whose existence is decided outside the analysed source (C extensions, module __getattr__) is not judged"]
KINDS = {"unbound": "a local name is read before it is assigned", "unresolved-name": "a name is not defined anywhere", "missing-attr": "an attribute is not defined",
         "import-missing": "an imported name does not exist", "bad-call": "a function is called with arguments it does not take", "none-attr": "an attribute of None is used", "not-callable": "a value that is not callable is called"}


def check(ctx):
    pk = ctx.package()
    sc = Scopes(pk)
    ctx.run("names resolve", "syntax tree", static, ctx, sc)
    for m in sc.mods:
        ctx.run("importing first", m, first, ctx, m)
    cont = Containers(sc.ext)
    guards = guarded(pk)
    for area, name, f in drives():
        ctx.run("names on paths", name, paths, ctx, name, f, cont, guards)
    for param, name, options, tempting, f in G04.selectors():
        ctx.run("names on paths", f"{name} with unknown {param}", paths, ctx, f"{name} with unknown {param}", lambda S: f(S, const("no-such-option")), cont, guards, True)


def static(ctx, sc):
    def put(rule, construct, ok, detail, loc):
        ctx.count("references_resolved")
        if ok is False:
            ctx.refute(rule, construct, detail, loc)
        elif ok is None:
            ctx.count("references_outside_the_source")

    files = sc.pk.files
    for m, line, what, ok in sc.imports():
        if ok is False and tried(sc.pk.trees[m], line, ("ImportError", "ModuleNotFoundError")):
            ok = None
        put("imported names exist", f"{m}: {what}", ok, "not provided by the module", (files[m], line, m))
    for m, line, name, ok in sc.exports():
        put("exported names exist", f"{m}: __all__ entry {name!r}", ok, "not defined in the module", (files[m], line, m))
    for m, scope, name, line, ok in sc.globals_used():
        if ok is False and tried(sc.pk.trees[m], line, ("NameError",)):
            ok = None
        put("used names are defined", f"{m}.{scope}: {name}", ok, "neither a module-level name nor a builtin", (files[m], line, scope))
    for m, line, name, ok in sc.module_attributes():
        if ok is False and tried(sc.pk.trees[m], line, ("AttributeError",)):
            ok = None
        put("module attributes exist", f"{m}: {name}", ok, "not provided by the module", (files[m], line, m))
    for m, cls, meth, a, line, ok in sc.self_attributes():
        if ok is False and tried(sc.pk.trees[m], line, ("AttributeError",)):
            ok = None
        put("attributes of self are defined", f"{m}.{cls}.{meth}: {a}", ok, "no class of the family defines or assigns it", (files[m], line, f"{cls}.{meth}"))
    for m, q, fn in sc.functions():
        ctx.count("functions_analysed")
        for name, line in sc.unassigned(fn):
            if tried(sc.pk.trees[m], line, ("NameError", "UnboundLocalError")):
                continue
            put("locals are assigned before use", f"{m}.{q}: {name}", False, "no assignment can reach this read", (files[m], line, q))
    ctx.proved("names resolve", "all modules", f"{ctx.counts.get('references_resolved', 0)} references in {len(sc.mods)} modules")


def tried(tree, line, excs):
    return any(a <= line <= b and (names is None or set(names) & set(excs)) for a, b, names in guards_of(tree))


def guards_of(tree):
    """(first line, last line, caught exception names or None for everything) of every try body"""
    if not hasattr(tree, "_guards"):
        out = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    t = h.type
                    names = None if t is None else [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
                    if names and set(names) & {"Exception", "BaseException"}:
                        names = None
                    out.append((n.body[0].lineno, n.body[-1].end_lineno, names))
            elif isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and "suppress" in ast.dump(i.context_expr.func) for i in n.items):
                out.append((n.body[0].lineno, n.body[-1].end_lineno, None))
        tree._guards = out
    return tree._guards


def guarded(pk):
    files = {v: k for k, v in pk.files.items()}

    def f(loc, excs):
        m = files.get(loc[0]) if loc else None
        return m is not None and tried(pk.trees[m], loc[1], excs)
    return f


def first(ctx, mod):
    """the module is the first one imported in a fresh process"""
    pk = ctx.package()
    I = Interp(pk)
    I.overrides = {}
    parts = mod.split(".")
    for i in range(1, len(parts) + 1):
        I.load_module(".".join(parts[:i]))
    ctx.count("modules_imported_first")
    bad = [e for e in I.events if e.type in KINDS]
    for e in bad:
        ctx.refute("every module can be imported first", mod, KINDS[e.type] + ": " + detail(e), e.loc)
    if not bad:
        ctx.proved("every module can be imported first", mod)


def detail(e):
    d = e.data
    if e.type == "bad-call":
        return f"{d['func']}: {d['err']}"
    return ".".join(str(d[q]) for q in ("obj", "module", "name", "what") if isinstance(d.get(q), str))


PLAIN = {"sym", "const", "param", "eq", "ne", "lt", "le", "gt", "ge", "not", "and", "or", "isnone", "is", "in", "dim", "add", "sub", "mul", "neg", "phi", "bool", "tuple", "dims", "ndim", "mod", "floordiv"}


def plain(c):
    """the condition speaks of arguments and sizes only"""
    return all(x.op in PLAIN for x in ir.reachable(c))


def entered(c, p):
    """the loop over a range of plain bounds is entered"""
    return p and c.op == "loopcond" and all(x.op in PLAIN or x.op in ("iter", "range", "loopcond") for x in ir.reachable(c))


OWNBASES = {"ABC", "object", "Protocol", "Generic"}


def nowhere(S, e):
    """the attribute is stored or defined nowhere in the package and the class has no foreign base: it exists on no path"""
    if e.type != "missing-attr" or not isinstance(e.data.get("name"), str):
        return False
    memo = S.__dict__.setdefault("_attr_names", {})
    if not memo:
        names, bases, per = set(), {}, {}
        for t in S.pk.trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    bases.setdefault(n.name, []).extend(n.bases)
                    mine = per.setdefault(n.name, set())
                    for q in n.body:
                        mine |= {y.id for y in ast.walk(q) if isinstance(y, ast.Name)} | ({q.name} if hasattr(q, "name") else set())
                        mine |= {y.attr for y in ast.walk(q) if isinstance(y, ast.Attribute) and not isinstance(y.ctx, ast.Load)}
                        mine |= {y.value for y in ast.walk(q) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
                elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                    names.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    names.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else "*")
        memo["names"], memo["bases"], memo["per"] = names, bases, per

    def family(c):
        out, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += [b.id for b in memo["bases"].get(x, []) if isinstance(b, ast.Name)] + [q for q, bs in memo["bases"].items() if any(isinstance(b, ast.Name) and b.id == x for b in bs)]
        return out

    def own(c, seen=()):
        return c in memo["bases"] and c not in seen and all((isinstance(b, ast.Name) and (b.id in OWNBASES or own(b.id, seen + (c,)))) or isinstance(b, ast.Subscript) and ast.unparse(b.value) in OWNBASES for b in memo["bases"][c])
    a, c = e.data["name"], e.data.get("obj")
    return "*" not in memo["names"] and a not in memo["names"] and own(c) and not any(a in memo["per"].get(q, ()) for q in family(c))


EXCS = {"unbound": ("UnboundLocalError", "NameError"), "unresolved-name": ("NameError",), "missing-attr": ("AttributeError",), "none-attr": ("AttributeError",), "arr-attr": ("AttributeError",), "bad-call": ("TypeError",), "not-callable": ("TypeError",), "import-missing": ("ImportError",)}


def paths(ctx, name, f, cont, guards, unknown=False):
    S = ctx.session()
    S.I.unroll_while = 0
    f(S)
    ctx.count("calls_analysed")
    bad, odd = {}, {}
    n = 0
    for e in S.events:
        if e.type == "arr-attr":
            n += 1
            ns = cont.names(e.data["kind"])
            a = e.data["name"]
            if ns is None or a in ns or a.startswith("__") or a.isupper() and e.data["kind"] in ("frame", "series") or e.data["kind"] == "frame" and not e.data.get("call"):
                continue
            what = f"{e.data['kind']} has no attribute {a!r}"
        elif e.type in KINDS:
            what = KINDS[e.type] + ": " + detail(e)
            if e.type in ("none-attr", "not-callable", "bad-call") and unknown:
                continue
        else:
            continue
        if guards(e.loc, EXCS[e.type]) or any(infeasible(c, p) for c, p in e.pc):
            continue
        (bad if nowhere(S, e) or all(plain(c) or entered(c, p) or e.type == "bad-call" and p and c.op == "loopcond" for c, p in e.pc) else odd)[what, e.loc] = e
    ctx.count("attributes_resolved", n)
    for (what, loc), e in bad.items():
        ctx.refute("names on paths", name, what, loc)
    for (what, loc), e in odd.items():
        if (what, loc) not in bad:
            ctx.undecided("names on paths", name, what, loc)
    if not bad and not odd:
        ctx.proved("names on paths", name)
