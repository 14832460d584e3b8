"""Name resolution over the syntax tree: scopes, imports, exports, definite assignment, attributes of the package's classes."""
import ast
import builtins
import glob
import os
import re
import symtable

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__annotations__", "__class__", "__module__", "__qualname__", "__dict__"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]


class Installed:
    """names provided by the installed third-party and standard modules, read from their source or stub files"""

    def __init__(self, roots=None):
        self.roots = roots or sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + sorted(glob.glob("/usr/lib/python3.*")) + sorted(glob.glob("/usr/local/lib/python3.*"))
        self.memo = {}

    def files(self, mod):
        for r in self.roots:
            p = os.path.join(r, *mod.split("."))
            out = [q for q in (p + ".py", p + ".pyi", os.path.join(p, "__init__.py"), os.path.join(p, "__init__.pyi")) if os.path.exists(q)]
            if out:
                return out
            if os.path.isdir(p) or glob.glob(p + ".*.so") or os.path.exists(p + ".so"):
                return []
        return None

    def names(self, mod):
        """the names of a module, or None when they cannot be told from its files"""
        if mod in self.memo:
            return self.memo[mod]
        self.memo[mod] = None
        fs = self.files(mod)
        if not fs:
            return None
        out, sure = set(), True
        for f in fs:
            try:
                with open(f, encoding="utf-8") as fh:
                    text = fh.read()
                tree = ast.parse(text)
            except (OSError, SyntaxError, ValueError):
                return None
            o, dynamic, s = self.of_tree(tree, mod, os.path.basename(f).startswith("__init__"))
            out |= o
            sure = sure and s
            if dynamic:  # names made at run time: any word of the file may be one
                out |= set(re.findall(r"\w+", text))
            d = os.path.dirname(f)
            if os.path.basename(f).startswith("__init__"):
                for x in os.listdir(d):
                    out.add(x.split(".")[0])
        self.memo[mod] = out if sure else None
        return self.memo[mod]

    def of_tree(self, tree, mod, package):
        out, dynamic, sure = set(), False, True
        for n in ast.walk(tree):
            if isinstance(n, FUNCS + (ast.ClassDef,)):
                out.add(n.name)
                if n.name == "__getattr__" and n in tree.body:
                    dynamic = True
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name != "*":
                        out.add(a.asname or a.name)
                        continue
                    base = n.module or ""
                    if n.level:
                        parts = mod.split(".") if package else mod.split(".")[:-1]
                        parts = parts[: len(parts) - (n.level - 1)]
                        base = ".".join(parts + ([n.module] if n.module else []))
                    sub = self.names(base)
                    if sub is None:
                        sure = False
                    else:
                        out |= sub
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in ("globals", "setattr", "exec", "attach", "_attach") or isinstance(f, ast.Attribute) and f.attr in ("attach", "attach_stub"):
                    dynamic = True
            elif isinstance(n, ast.Attribute) and n.attr == "modules" and isinstance(n.value, ast.Name) and n.value.id == "sys":
                dynamic = True
        return out, dynamic, sure


class Containers:
    """attribute names of the array and pandas classes of the installed libraries"""

    FILES = {"series": ("core/series.py", "core/base.py", "core/generic.py", "core/arraylike.py", "core/indexing.py", "core/accessor.py", "core/ops/*.py", "core/strings/accessor.py", "core/indexes/accessors.py", "core/arrays/categorical.py", "plotting/_core.py"),
             "frame": ("core/frame.py", "core/base.py", "core/generic.py", "core/arraylike.py", "core/indexing.py", "core/accessor.py", "core/ops/*.py", "plotting/_core.py"),
             "index": ("core/indexes/*.py", "core/base.py", "core/arraylike.py", "core/accessor.py", "core/ops/*.py", "core/arrays/datetimes.py", "core/arrays/datetimelike.py"),
             "dtindex": ("core/indexes/*.py", "core/base.py", "core/arraylike.py", "core/accessor.py", "core/ops/*.py", "core/arrays/datetimes.py", "core/arrays/datetimelike.py")}

    def __init__(self, ext):
        self.ext, self.memo = ext, {}

    def names(self, kind):
        if kind not in self.memo:
            self.memo[kind] = self.load(kind)
        return self.memo[kind]

    def load(self, kind):
        if kind == "ndarray":
            for f in self.ext.files("numpy") or ():
                if f.endswith(".pyi"):
                    with open(f, encoding="utf-8") as fh:
                        out = set()
                        found = 0
                        for c in ast.parse(fh.read()).body:
                            if isinstance(c, ast.ClassDef) and c.name in ("_ArrayOrScalarCommon", "ndarray"):
                                found += 1
                                out |= {n.name for n in ast.walk(c) if isinstance(n, FUNCS)} | {n.id for n in ast.walk(c) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                        return out if found == 2 else None
            return None
        fs = self.ext.files("pandas")
        if not fs or kind not in self.FILES:
            return None
        out = set()
        for pat in self.FILES[kind]:
            for f in glob.glob(os.path.join(os.path.dirname(fs[0]), pat)):
                with open(f, encoding="utf-8") as fh:
                    out |= set(re.findall(r"\w+", fh.read()))
        return out if len(out) > 300 else None


class Scopes:
    def __init__(self, pk, skip=("spec_",)):
        self.pk = pk
        self.mods = [m for m in sorted(pk.trees) if not m.startswith(skip)]
        self.ext = Installed()
        self._names = {}

    # -------------------------------------------------------------- modules
    def base(self, mod, n):
        if not n.level:
            return n.module
        parts = mod.split(".")
        if not self.pk.is_package(mod):
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def module_names(self, mod):
        """every name some statement of the module body can bind, or None when unknowable"""
        if mod in self._names:
            return self._names[mod]
        self._names[mod] = set()
        out, sure = set(), True
        for n in ast.walk(self.pk.trees[mod]):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec", "vars"):
                sure = False
            if isinstance(n, ast.Global):
                out |= set(n.names)
        for n in self.body_nodes(self.pk.trees[mod]):
            if isinstance(n, FUNCS + (ast.ClassDef,)):
                out.add(n.name)
                if n.name == "__getattr__":
                    sure = False
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Import):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name != "*":
                        out.add(a.asname or a.name)
                        continue
                    b = self.base(mod, n)
                    sub = self.module_names(b) if b in self.pk.trees else self.ext.names(b)
                    if sub is None:
                        sure = False
                    else:
                        out |= {x for x in sub if not x.startswith("_")}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                out.add(n.rest)
        self._names[mod] = out if sure else None
        return self._names[mod]

    def body_nodes(self, root):
        """nodes of a scope without those of nested functions and classes"""
        todo = list(ast.iter_child_nodes(root))
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, FUNCS + (ast.ClassDef, ast.Lambda)):
                todo += getattr(n, "decorator_list", [])
                continue
            todo += ast.iter_child_nodes(n)

    def provides(self, mod, name):
        """does module mod provide name? True, False or None (unknown)"""
        if mod in self.pk.trees:
            if f"{mod}.{name}" in self.pk.trees:
                return True
            ns = self.module_names(mod)
            return None if ns is None else name in ns or name in BUILTINS and name.startswith("__")
        if mod.split(".")[0] == self.pk.pkg:
            return False
        if self.ext.files(f"{mod}.{name}") is not None:
            return True
        ns = self.ext.names(mod)
        return None if ns is None else name in ns or name.startswith("__")

    # ------------------------------------------------------------- obligations
    def imports(self):
        """(module, line, what, ok)"""
        for m in self.mods:
            for n in ast.walk(self.pk.trees[m]):
                if isinstance(n, ast.ImportFrom):
                    b = self.base(m, n)
                    for a in n.names:
                        if a.name == "*":
                            yield m, n.lineno, f"from {b} import *", self.exists(b)
                        else:
                            yield m, n.lineno, f"from {b} import {a.name}", self.provides(b, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        yield m, n.lineno, f"import {a.name}", self.exists(a.name)

    def exists(self, mod):
        if mod in self.pk.trees:
            return True
        if mod.split(".")[0] == self.pk.pkg:
            return False
        return True if self.ext.files(mod) is not None else None

    def exports(self):
        for m in self.mods:
            for n in self.pk.trees[m].body:
                t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                if any(isinstance(x, ast.Name) and x.id == "__all__" for x in t) and isinstance(n.value, (ast.List, ast.Tuple)):
                    for e in n.value.elts:
                        if isinstance(e, ast.Constant) and isinstance(e.value, str):
                            yield m, e.lineno, e.value, self.provides(m, e.value)

    def globals_used(self):
        """(module, scope, name, line, ok) for every name looked up at module level or among the builtins"""
        for m in self.mods:
            ns = self.module_names(m)
            top = symtable.symtable(self.pk.texts[m], self.pk.files[m], "exec")
            lines = {}
            for n in ast.walk(self.pk.trees[m]):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    lines.setdefault(n.id, n.lineno)
            todo = [top]
            while todo:
                t = todo.pop()
                todo += t.get_children()
                for s in t.get_symbols():
                    name = s.get_name()
                    if not s.is_referenced() or name not in lines:
                        continue
                    if t.get_type() in ("module", symtable.SymbolTableType.MODULE if hasattr(symtable, "SymbolTableType") else "module"):
                        look = True
                    else:
                        look = s.is_global()
                    if look:
                        yield m, t.get_name(), name, lines[name], None if ns is None else name in ns or name in BUILTINS

    def module_attributes(self):
        """(module, line, dotted, ok) for every attribute taken of an imported module"""
        for m in self.mods:
            tree = self.pk.trees[m]
            alias = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    b = self.base(m, n)
                    for a in n.names:
                        q = f"{b}.{a.name}"
                        if q in self.pk.trees or b.split(".")[0] != self.pk.pkg and self.ext.files(q) is not None and (self.ext.names(b) is None or a.name not in self.defs(b)):
                            alias[a.asname or a.name] = q
            stored = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for f in ast.walk(tree) if isinstance(f, FUNCS + (ast.Lambda,)) for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute):
                    ch, x = [n.attr], n.value
                    while isinstance(x, ast.Attribute):
                        ch.append(x.attr)
                        x = x.value
                    if not isinstance(x, ast.Name) or x.id not in alias or x.id in stored:
                        continue
                    ch.reverse()
                    mod = alias[x.id]
                    ok = True
                    for a in ch[:-1]:
                        q = f"{mod}.{a}"
                        if q in self.pk.trees or self.ext.files(q) is not None and (self.ext.files(mod) is not None) and a not in self.defs(mod):
                            mod = q
                        else:
                            ok = None
                            break
                    if ok:
                        yield m, n.lineno, ".".join([x.id] + ch), self.provides(mod, ch[-1])

    def defs(self, mod):
        """functions and classes a third-party module defines itself (they may hide a submodule of the same name)"""
        out = set()
        for f in self.ext.files(mod) or ():
            try:
                with open(f, encoding="utf-8") as fh:
                    for n in ast.parse(fh.read()).body:
                        if isinstance(n, FUNCS + (ast.ClassDef,)):
                            out.add(n.name)
            except (OSError, SyntaxError):
                pass
        return out

    # ------------------------------------------------- definite assignment
    def functions(self):
        for m in self.mods:
            def rec(node, q):
                for n in ast.iter_child_nodes(node):
                    if isinstance(n, FUNCS):
                        yield m, f"{q}.{n.name}" if q else n.name, n
                        yield from rec(n, f"{q}.{n.name}" if q else n.name)
                    elif isinstance(n, ast.ClassDef):
                        yield from rec(n, f"{q}.{n.name}" if q else n.name)
                    else:
                        yield from rec(n, q)
            yield from rec(self.pk.trees[m], "")

    def unassigned(self, fn):
        """(name, line) read where no assignment of the local name can have been executed, or deleted on every way there"""
        return Assigned(fn).run()

    # ------------------------------------------------------------ attributes
    def classes(self):
        out = {}
        for m in self.mods:
            for n in ast.walk(self.pk.trees[m]):
                if isinstance(n, ast.ClassDef):
                    out.setdefault(n.name, []).append((m, n))
        return out

    def self_attributes(self):
        """(module, class, method, attr, line, ok)"""
        cl = self.classes()
        info = {}
        for name, defs in cl.items():
            if len(defs) > 1:
                info[name] = None
                continue
            m, c = defs[0]
            attrs, opaque = set(), False
            bases = []
            for b in c.bases:
                x = b.value if isinstance(b, ast.Subscript) else b
                bn = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                bases.append(bn)
                if bn not in cl and bn not in ("object", "ABC", "Generic", "Protocol"):
                    opaque = True
            if c.keywords and any(k.arg != "metaclass" for k in c.keywords):
                opaque = True
            if c.decorator_list:
                opaque = True
            for n in c.body:
                if isinstance(n, FUNCS + (ast.ClassDef,)):
                    attrs.add(n.name)
                    if n.name in ("__getattr__", "__getattribute__"):
                        opaque = True
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        attrs |= set(bound_names(t))
                elif not isinstance(n, (ast.Expr, ast.Pass)):
                    attrs |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(n) if isinstance(x, FUNCS)}
            for n in ast.walk(c):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    attrs.add(n.attr)
                if isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__"):
                    opaque = True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
                    opaque = True
            info[name] = (m, c, bases, attrs, opaque)
        stored = {n.attr for m in self.mods for n in ast.walk(self.pk.trees[m]) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self")}

        def ancestors(name, seen=()):
            out = {name}
            for b in (info.get(name) or (0, 0, ()))[2]:
                if b in info and b not in seen:
                    out |= ancestors(b, seen + (name,))
            return out
        anc = {n: ancestors(n) for n in info}
        for name, i in info.items():
            if i is None:
                continue
            m, c, _, _, _ = i
            related = set()
            for d in info:
                if name in anc[d]:
                    related |= anc[d]
            if any(info[r] is None or info[r][4] for r in related):
                opaque = True
            else:
                opaque = False
            have = set(stored)
            for r in related:
                if info[r]:
                    have |= info[r][3]
            for f in c.body:
                if not isinstance(f, FUNCS) or not f.args.args or any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list):
                    continue
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                        ok = n.attr in have or hasattr(object, n.attr) or n.attr in ("__dict__", "__class__", "__module__", "__doc__", "__name__", "__qualname__", "__annotations__")
                        yield m, name, f.name, n.attr, n.lineno, True if ok else None if opaque else False


class Assigned:
    """forward may-assigned analysis; a read of a local that no assignment can reach is reported"""

    def __init__(self, fn):
        self.fn = fn
        self.bad = []
        self.locals = set()
        decl = set()
        for n in Scopes.body_nodes(None, ast.Module(fn.body, [])):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                decl |= set(n.names)
        self.locals = self.binds(fn.body) - decl

    def binds(self, body):
        out = set()
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, FUNCS + (ast.ClassDef,)):
                out.add(n.name)
                todo += n.decorator_list
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, COMPS):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                todo += [n.generators[0].iter]
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                out.add(n.rest)
            todo += ast.iter_child_nodes(n)
        return out

    def run(self):
        a = self.fn.args
        env = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        self.seq(self.fn.body, env)
        return self.bad

    def reads(self, n, env):
        """expressions: check reads, add walrus targets"""
        if n is None:
            return
        own = set()
        for x in ast.walk(n):
            if isinstance(x, COMPS):
                for g in x.generators:
                    own |= set(bound_names(g.target))
            if isinstance(x, (ast.Lambda,) + FUNCS):
                own |= {q.arg for q in x.args.args + x.args.kwonlyargs + x.args.posonlyargs} | ({x.args.vararg.arg} if x.args.vararg else set()) | ({x.args.kwarg.arg} if x.args.kwarg else set())
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                env.add(x.target.id)
        for x in ast.walk(n):
            if isinstance(x, ast.Lambda):
                own |= {y.id for y in ast.walk(x.body) if isinstance(y, ast.Name)}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals and x.id not in env and x.id not in own:
                self.bad.append((x.id, x.lineno))

    def seq(self, body, env):
        """env after the statements, or None when the end is not reached"""
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        t = type(s)
        if t in (ast.Return, ast.Raise):
            for c in ast.iter_child_nodes(s):
                self.reads(c, env)
            return None
        if t in (ast.Break, ast.Continue):
            self.out = getattr(self, "out", set()) | env
            return None
        if t is ast.If:
            self.reads(s.test, env)
            v = s.test.value if isinstance(s.test, ast.Constant) else None
            a = None if v is not None and not v else self.seq(s.body, set(env))
            b = None if v is not None and v else self.seq(s.orelse, set(env))
            if a is None or b is None:
                return a if b is None else b
            return a | b
        if t in (ast.For, ast.AsyncFor, ast.While):
            if t is ast.While:
                every = env | self.binds(s.body)
                self.reads(s.test, set(every))
                self.reads(s.test, env) if False else None
            else:
                self.reads(s.iter, env)
                every = env | set(bound_names(s.target)) | self.binds(s.body)
            self.seq(s.body, set(every))
            after = self.seq(s.orelse, set(every)) if s.orelse else set(every)
            return every if after is None else after | every
        if t in (ast.Try, getattr(ast, "TryStar", ast.Try)):
            every = env | self.binds(s.body)
            a = self.seq(s.body, set(env))
            outs = []
            if a is not None:
                a = self.seq(s.orelse, a)
            outs.append(a)
            for h in s.handlers:
                self.reads(h.type, set(every))
                outs.append(self.seq(h.body, every | ({h.name} if h.name else set())))
            live = [o for o in outs if o is not None]
            if s.finalbody:
                al = every | self.binds(s.orelse) | {x for h in s.handlers for x in self.binds(h.body)}
                f = self.seq(s.finalbody, set(al))
                if f is None:
                    return None
                live = [o | f for o in live]
            return set().union(*live) if live else None
        if t in (ast.With, ast.AsyncWith):
            for i in s.items:
                self.reads(i.context_expr, env)
                if i.optional_vars is not None:
                    env = env | set(bound_names(i.optional_vars))
            every = env | self.binds(s.body)
            a = self.seq(s.body, set(env))
            return every if a is None else a
        if t is ast.Match:
            self.reads(s.subject, env)
            out = set(env)
            for c in s.cases:
                e = env | self.binds([c.pattern])
                self.reads(c.guard, e)
                a = self.seq(c.body, set(e))
                out |= a or set()
            return out
        if t in FUNCS + (ast.ClassDef,):
            for d in s.decorator_list:
                self.reads(d, env)
            if t is not ast.ClassDef:
                for d in s.args.defaults + s.args.kw_defaults:
                    self.reads(d, env)
            return env | {s.name}
        if t in (ast.Import, ast.ImportFrom):
            return env | {a.asname or a.name.split(".")[0] for a in s.names}
        if t in (ast.Global, ast.Nonlocal, ast.Pass):
            return env
        if t is ast.Delete:
            return env - set(x for g in s.targets if isinstance(g, ast.Name) for x in [g.id])
        if t is ast.AugAssign:
            self.reads(s.value, env)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in env:
                    self.bad.append((s.target.id, s.lineno))
                return env | {s.target.id}
            self.reads(s.target, env)
            return env
        if t is ast.AnnAssign:
            self.reads(s.value, env)
            if isinstance(s.target, ast.Name):
                return env | {s.target.id} if s.value is not None else env
            self.reads(s.target, env)
            return env
        if t is ast.Assign:
            self.reads(s.value, env)
            for g in s.targets:
                self.reads(g, env)
                env = env | set(bound_names(g))
            return env
        for c in ast.iter_child_nodes(s):
            self.reads(c, env)
        return env
