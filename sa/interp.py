"""Abstract interpreter: lowers the package's ASTs to the value graph of ir.py.

The abstract state is a heap (environments, instances, lists, dicts, arrays) and a
path condition.  Branches whose condition the abstract domains cannot decide are
both analysed and joined with gated phi nodes; symbolic loops are summarised with
mu nodes; calls inside the package are inlined.  Library calls are interpreted by
the transfer functions in models.py.  Nothing of the analysed package is imported
or executed.
"""

from __future__ import annotations

import ast
import os

from . import ir
from .ir import N, Node, const, NONE, TRUE, FALSE, is_const, cval, ARRAYISH, NUMERIC


# ---------------------------------------------------------------- values
class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Ref({self.loc})"


class TupleV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"TupleV{self.items}"


class ExtV:
    """external (library) object identified by its dotted name"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


LOGNAMES = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log", "print"}
FLOATNAMES = {"float", "builtins.float", "numpy.float64", "numpy.double", "numpy.float_"}


class ReadDict(dict):
    """keyword arguments that remember which were looked at"""

    def __init__(self, d):
        super().__init__(d)
        self.read = set()

    def _all(self):
        self.read.update(dict.keys(self))

    def __getitem__(self, k):
        self.read.add(k)
        return super().__getitem__(k)

    def get(self, k, default=None):
        self.read.add(k)
        return super().get(k, default)

    def pop(self, k, *d):
        self.read.add(k)
        return super().pop(k, *d)

    def items(self):
        self._all()
        return super().items()

    def values(self):
        self._all()
        return super().values()

    def keys(self):
        self._all()
        return super().keys()

    def __iter__(self):
        self._all()
        return super().__iter__()

    def copy(self):
        self._all()
        return dict(self)


class ReadList(list):
    """positional arguments that remember which were looked at"""

    def __init__(self, xs):
        super().__init__(xs)
        self.read = set()

    def __getitem__(self, i):
        self.read.update(range(len(self))[i] if isinstance(i, slice) else [range(len(self))[i]])
        return super().__getitem__(i)

    def __iter__(self):
        self.read.update(range(len(self)))
        return super().__iter__()

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)


class FuncV:
    __slots__ = ("node", "module", "env", "name", "defaults", "kwdefaults", "wrapped", "cls", "is_gen")

    def __init__(self, node, module, env, name, defaults, kwdefaults, cls=None):
        self.node, self.module, self.env, self.name = node, module, env, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.wrapped = None
        self.is_gen = _has_yield(node)

    def __repr__(self):
        return f"Func({self.module}.{self.name})"


class ClassV:
    __slots__ = ("name", "module", "bases", "attrs", "node")

    def __init__(self, name, module, bases, attrs, node):
        self.name, self.module, self.bases, self.attrs, self.node = name, module, bases, attrs, node

    def __repr__(self):
        return f"Class({self.module}.{self.name})"


class ModV:
    __slots__ = ("name", "env")

    def __init__(self, name, env):
        self.name, self.env = name, env


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class MethV:
    """library method bound to a value: (obj, name)"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PartialV:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class WrapV:
    """descriptor: staticmethod / classmethod / property"""

    __slots__ = ("kind", "func", "setter")

    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class SuperV:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class SpecialV:
    """model-level objects (signatures, bound arguments, iterators ...)"""

    __slots__ = ("tag", "data")

    def __init__(self, tag, **data):
        self.tag, self.data = tag, data

    def __repr__(self):
        return f"Special({self.tag})"


class PhiV:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"PhiV({ir.show(self.cond,2)},{self.a},{self.b})"


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


# ---------------------------------------------------------------- heap objects
class Arr:
    __slots__ = ("kind", "content", "base", "path", "owner", "meta")

    def __init__(self, kind, content=None, base=None, path=None, owner=None, meta=None):
        self.kind, self.content, self.base, self.path, self.owner = kind, content, base, path, owner
        self.meta = meta or {}

    def copy(self):
        return Arr(self.kind, self.content, self.base, self.path, self.owner, dict(self.meta))


class ListO:
    __slots__ = ("items", "sym", "owner")

    def __init__(self, items=None, sym=None, owner=None):
        self.items, self.sym, self.owner = (list(items) if items is not None else None), sym, owner

    def copy(self):
        return ListO(self.items, self.sym, self.owner)


class DictO:
    __slots__ = ("items", "sym", "owner")

    def __init__(self, items=None, sym=None, owner=None):
        self.items, self.sym, self.owner = dict(items or {}), sym, owner

    def copy(self):
        return DictO(self.items, self.sym, self.owner)


class InstO:
    __slots__ = ("cls", "attrs", "owner")

    def __init__(self, cls, attrs=None, owner=None):
        self.cls, self.attrs, self.owner = cls, dict(attrs or {}), owner

    def copy(self):
        return InstO(self.cls, self.attrs, self.owner)


class EnvO:
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "locals_")

    def __init__(self, vars=None, parent=None):
        self.vars, self.parent = dict(vars or {}), parent
        self.globals_, self.nonlocals, self.locals_ = set(), set(), set()

    def copy(self):
        e = EnvO(self.vars, self.parent)
        e.globals_, e.nonlocals, e.locals_ = self.globals_, self.nonlocals, self.locals_
        return e


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def fork(self, *facts):
        return State(dict(self.heap), self.pc + tuple(facts))


class Event:
    __slots__ = ("type", "data", "pc", "loc", "stack")

    def __init__(self, type, data, pc, loc, stack):
        self.type, self.data, self.pc, self.loc, self.stack = type, data, pc, loc, stack

    def __repr__(self):
        return f"Event({self.type},{self.data},{self.loc})"


class Frame:
    __slots__ = ("func", "returns", "yields", "env", "entry_pc", "self_val", "loops", "handlers")

    def __init__(self, func, env, entry_pc):
        self.func, self.env, self.entry_pc = func, env, entry_pc
        self.returns, self.yields = [], []
        self.loops, self.handlers = [], []
        self.self_val = None


class AnalysisLimit(Exception):
    pass


def _has_yield(node):
    if not hasattr(node, "body") or isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def _assigned_names(fn):
    out, glob, nonl = set(), set(), set()
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else []
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    out.add(sub.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob - nonl, glob, nonl


class Package:
    """Parsed source tree."""

    def __init__(self, root, pkg="quantfinlib"):
        self.root, self.pkg = root, pkg
        self.trees, self.files, self.texts = {}, {}, {}
        base = os.path.join(root, pkg)
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    txt = fh.read()
                self.trees[mod] = ast.parse(txt, rel)
                self.files[mod] = rel
                self.texts[mod] = txt

    def add_text(self, mod, rel, txt):
        self.trees[mod] = ast.parse(txt, rel)
        self.files[mod] = rel
        self.texts[mod] = txt

    def is_package(self, mod):
        return self.files.get(mod, "").endswith("__init__.py")


BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "band", ast.BitOr: "bor",
    ast.BitXor: "bxor", ast.LShift: "lshift", ast.RShift: "rshift",
}
CMPOPS = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}
NEG = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}


class Interp:
    MAX_DEPTH = 60
    MAX_UNROLL = 80
    unroll_while = 0
    MAX_STEPS = 400000

    def __init__(self, package):
        self.pk = package
        self.next_loc = 1
        self.events = []
        self.frames = []
        self.st = State({}, ())
        self.modules = {}  # name -> env loc
        self.mod_loading = set()
        self.functions_seen = set()
        self.calls_seen = 0
        self.memo = {}
        self.steps = 0
        self.suppress = 0
        self.overrides = {}
        self.uid = 0
        self.unknown_ext = {}
        self.sym_range = {}
        self.truth_hook = []
        self.call_hooks = {}  # qualified function -> python callable (summaries)
        from . import models

        self.models = models

    # ------------------------------------------------------------ utilities
    def new_uid(self):
        self.uid += 1
        return self.uid

    def alloc(self, obj):
        loc = self.next_loc
        self.next_loc += 1
        self.st.heap[loc] = obj
        return Ref(loc)

    def obj(self, ref):
        return self.st.heap.get(ref.loc)

    def mut(self, ref):
        o = self.st.heap[ref.loc].copy()
        self.st.heap[ref.loc] = o
        return o

    def event(self, type_, **data):
        if self.suppress:
            return
        stack = tuple(f.func.name for f in self.frames if f.func is not None)
        self.events.append(Event(type_, data, self.st.pc if self.st else (), ir.cur_loc(), stack))

    def wrap(self, node, **meta):
        """array-kinded terms become fresh heap arrays; others stay terms"""
        if isinstance(node, Node) and node.kind in ARRAYISH:
            return self.alloc(Arr(node.kind, content=node, meta=meta))
        return node

    def fresh(self, value, **meta):
        return self.wrap(self.freeze(value), **meta)

    def content(self, ref):
        o = self.obj(ref)
        if o.base is None:
            return o.content
        b = self.content(Ref(o.base))
        return self.models.apply_path(b, o.path, o.kind)

    def view(self, ref, path, kind):
        """a view of heap array `ref` through one path step"""
        r = self.alloc(Arr(kind, base=ref.loc, path=path, owner=None))
        src = self.obj(ref)
        if kind == src.kind == "series" and "name" in src.meta:
            self.obj(r).meta["name"] = src.meta["name"]
        return r

    def root_owner(self, ref):
        o = self.obj(ref)
        seen = 0
        while isinstance(o, Arr) and o.base is not None and seen < 50:
            if o.owner:
                return o.owner
            o = self.st.heap[o.base]
            seen += 1
        return getattr(o, "owner", None)

    def set_content(self, ref, node, how="write"):
        """in-place update of a heap array (through views to the base)"""
        o = self.obj(ref)
        owner = self.root_owner(ref)
        if owner:
            self.event("mutate", owner=owner, how=how)
        self._set_content(ref, node)

    def _set_content(self, ref, node):
        o = self.obj(ref)
        if o.base is None:
            o = self.mut(ref)
            o.content = node
        else:
            bref = Ref(o.base)
            b = self.content(bref)
            self._set_content(bref, self.models.put_path(b, o.path, node))

    def freeze(self, v):
        """value -> pure term"""
        if isinstance(v, Node):
            return v
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Arr):
                return self.content(v)
            if isinstance(o, ListO):
                if o.items is not None:
                    return N("list", *[self.freeze(x) for x in o.items], kind="list")
                return o.sym
            if isinstance(o, DictO):
                if o.sym is not None:
                    return N("dictplus", o.sym, tuple((k, self.freeze(x)) for k, x in sorted(o.items.items(), key=lambda t: repr(t[0]))), kind="dict")
                return N("dict", tuple((repr(k), self.freeze(x)) for k, x in o.items.items()), kind="dict")
            if isinstance(o, InstO):
                return N("inst", o.cls.name if isinstance(o.cls, ClassV) else str(o.cls), v.loc, kind="inst")
            return N("obj", v.loc)
        if isinstance(v, TupleV):
            return N("tuple", *[self.freeze(x) for x in v.items], kind="tuple")
        if isinstance(v, ExtV):
            return N("ext", v.name, kind="ext")
        if isinstance(v, FuncV):
            return N("func", f"{v.module}.{v.name}", kind="func")
        if isinstance(v, ClassV):
            return N("class", f"{v.module}.{v.name}", kind="type")
        if isinstance(v, BoundV):
            return N("bound", self.freeze(v.func), self.freeze(v.self), kind="func")
        if isinstance(v, MethV):
            return N("meth", self.freeze(v.obj), v.name, kind="func")
        if isinstance(v, PartialV):
            return N("partial", self.freeze(v.func), tuple(self.freeze(a) for a in v.args),
                     tuple((k, self.freeze(a)) for k, a in sorted(v.kwargs.items())), kind="func")
        if isinstance(v, PhiV):
            return mkphi(v.cond, self.freeze(v.a), self.freeze(v.b))
        if isinstance(v, SpecialV):
            f = v.data.get("frozen")
            return f if f is not None else N("special", v.tag, id(v))
        if v is UNDEF:
            return N("undef")
        if isinstance(v, ModV):
            return N("module", v.name)
        return N("opaque", type(v).__name__, self.new_uid())

    # map an operation over PhiV alternatives
    def lift(self, v, f):
        if isinstance(v, PhiV):
            t = self.truth(v.cond)
            if t is True:
                return self.lift(v.a, f)
            if t is False:
                return self.lift(v.b, f)
            s0 = self.st
            self.st = s0.fork((v.cond, True))
            ra = self.lift(v.a, f)
            sa = self.st
            self.st = s0.fork((v.cond, False))
            rb = self.lift(v.b, f)
            sb = self.st
            if sa is None and sb is None:
                self.st = None
                return NONE
            if sa is None:
                self.st = sb
                return rb
            if sb is None:
                self.st = sa
                return ra
            self.st, (r,) = self.merge(v.cond, sa, sb, s0, extra=[(ra, rb)])
            return r
        return f(v)

    # ------------------------------------------------------------ merging
    def merge_value(self, cond, a, b):
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        if isinstance(a, Node) and isinstance(b, Node):
            return mkphi(cond, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_value(cond, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.name == b.name:
            return a
        if isinstance(a, PhiV) and a.cond is cond:
            a = a.a
        if isinstance(b, PhiV) and b.cond is cond:
            b = b.b
        return PhiV(cond, a, b)

    def merge_obj(self, cond, a, b):
        if type(a) is not type(b):
            return a
        if isinstance(a, Arr):
            o = a.copy()
            if a.base is None and b.base is None and a.content is not None and b.content is not None:
                o.content = mkphi(cond, a.content, b.content)
            return o
        if isinstance(a, ListO):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListO([self.merge_value(cond, x, y) for x, y in zip(a.items, b.items)], owner=a.owner)
            fa = a.sym if a.items is None else N("list", *[self.freeze(x) for x in a.items], kind="list")
            fb = b.sym if b.items is None else N("list", *[self.freeze(x) for x in b.items], kind="list")
            return ListO(None, sym=mkphi(cond, fa, fb), owner=a.owner)
        if isinstance(a, DictO):
            out = {}
            for k in list(a.items) + [k for k in b.items if k not in a.items]:
                va, vb = a.items.get(k, UNDEF), b.items.get(k, UNDEF)
                out[k] = self.merge_value(cond, va, vb)
            return DictO(out, sym=a.sym if a.sym is b.sym else N("opaque", "dict", self.new_uid()), owner=a.owner)
        if isinstance(a, InstO):
            out = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                out[k] = self.merge_value(cond, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF))
            return InstO(a.cls, out, owner=a.owner)
        if isinstance(a, EnvO):
            e = a.copy()
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                e.vars[k] = self.merge_value(cond, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF))
            return e
        return a

    def merge(self, cond, a, b, base, extra=()):
        """join two live states forked from `base` on `cond` (true -> a)"""
        heap = {}
        st = State(heap, ())
        self.st = st
        ah, bh = a.heap, b.heap
        for loc, oa in ah.items():
            ob = bh.get(loc)
            if ob is None or ob is oa:
                heap[loc] = oa
        for loc, ob in bh.items():
            if loc not in ah:
                heap[loc] = ob
        # objects present in both and different (resolve on the joint heap)
        diff = [loc for loc, oa in ah.items() if loc in bh and bh[loc] is not oa]
        for loc in diff:
            heap[loc] = ah[loc]
        merged = {}
        for loc in diff:
            merged[loc] = self.merge_obj(cond, ah[loc], bh[loc])
        heap.update(merged)
        out = []
        for va, vb in extra:
            out.append(self.merge_value(cond, va, vb))
        # facts common to both sides survive
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
            n += 1
        fa = set(pa[n:]) & set(pb[n:])
        st.pc = pa[:n] + tuple(f for f in pa[n:] if f in fa)
        return st, out

    def merge_many(self, entries, base_pc_len):
        """entries: list of (state, value).  Join into one state/value using the
        decision tree of their path conditions."""
        entries = [e for e in entries if e[0] is not None]
        if not entries:
            self.st = None
            return None
        if len(entries) == 1:
            self.st = entries[0][0]
            return entries[0][1]

        def rec(es, depth):
            if len(es) == 1:
                return es[0]
            # find the first condition (after depth) on which the entries split
            d = depth
            while True:
                firsts = []
                for s, v in es:
                    firsts.append(s.pc[d] if d < len(s.pc) else None)
                if all(f == firsts[0] for f in firsts) and firsts[0] is not None:
                    d += 1
                    continue
                break
            conds = {f[0] for f in firsts if f is not None}
            if len(conds) == 1 and all(f is not None for f in firsts):
                c = next(iter(conds))
                t = [e for e, f in zip(es, firsts) if f[1] is True]
                f_ = [e for e, f in zip(es, firsts) if f[1] is False]
                if t and f_:
                    ra, rb = rec(t, d + 1), rec(f_, d + 1)
                    st, (v,) = self.merge(c, ra[0], rb[0], None, extra=[(ra[1], rb[1])])
                    return (st, v)
            # irregular: sequential ite on the conjunction of the first entry's facts
            s, v = es[0]
            facts = s.pc[d:]
            c = conj([x if p else mknot(x) for x, p in facts]) if facts else N("opaque", "path", self.new_uid(), kind="bool")
            rest = rec(es[1:], d)
            st, (vv,) = self.merge(c, s, rest[0], None, extra=[(v, rest[1])])
            return (st, vv)

        st, v = rec(entries, base_pc_len)
        self.st = st
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """three-valued truth of a value: True/False/None"""
        if isinstance(v, Node):
            return self.truth_node(v)
        if isinstance(v, (FuncV, ClassV, BoundV, MethV, PartialV, ExtV, ModV)):
            return True
        if isinstance(v, TupleV):
            return len(v.items) > 0
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                return len(o.items) > 0 if o.items is not None else None
            if isinstance(o, DictO):
                return (len(o.items) > 0) if o.sym is None or o.items else None
            if isinstance(o, InstO):
                return True
            if isinstance(o, Arr):
                return self.truth_node(self.content(v))
            return None
        if isinstance(v, PhiV):
            c = self.truth(v.cond)
            if c is True:
                return self.truth(v.a)
            if c is False:
                return self.truth(v.b)
            a, b = self.truth(v.a), self.truth(v.b)
            return a if a == b else None
        if v is UNDEF:
            return None
        return None

    def truth_node(self, n):
        if n.op == "const":
            try:
                return bool(n.args[0])
            except Exception:
                return None
        for c, p in reversed(self.st.pc):
            if c is n:
                return p
        if n.op == "not":
            t = self.truth_node(n.args[0])
            return None if t is None else (not t)
        if n.op in NEG:
            nn = N(NEG[n.op], *n.args, kind="bool")
            sw = None
            for c, p in self.st.pc:
                if c is nn:
                    return not p
        if n.op == "and":
            ts = [self.truth_node(a) for a in n.args]
            if any(t is False for t in ts):
                return False
            if all(t is True for t in ts):
                return True
        if n.op == "or":
            ts = [self.truth_node(a) for a in n.args]
            if any(t is True for t in ts):
                return True
            if all(t is False for t in ts):
                return False
        if n.op == "phi":
            c = self.truth_node(n.args[0])
            if c is True:
                return self.truth_node(n.args[1])
            if c is False:
                return self.truth_node(n.args[2])
            a, b = self.truth_node(n.args[1]), self.truth_node(n.args[2])
            if a == b and a is not None:
                return a
        for c, p in self.st.pc:
            if p and c.op == "and" and n in c.args:
                return True
            if not p and c.op == "or" and n in c.args:
                return False
            if p and c.op == "not" and c.args[0] is n:
                return False
            if not p and c.op == "not" and c.args[0] is n:
                return True
        r = self.models.truth_of(self, n)
        if r is not None:
            return r
        for h in self.truth_hook:
            r = h(n)
            if r is not None:
                return r
        return None

    def as_bool(self, v):
        """term for the truth value of v (used as branch condition)"""
        if isinstance(v, PhiV):
            return mkphi(v.cond, self.as_bool(v.a), self.as_bool(v.b))
        t = self.truth(v)
        if t is True:
            return TRUE
        if t is False:
            return FALSE
        n = self.freeze(v)
        if n.kind in ("bool", "any") or n.op in CMP_OPS or n.op in ("and", "or", "not"):
            return n
        return N("bool", n, kind="bool")

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        tree = self.pk.trees.get(name)
        if tree is None:
            return None
        # parent packages are imported first
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if parent in self.pk.trees:
                self.load_module(parent)
                if name in self.modules:
                    return self.modules[name]
        env = EnvO({"__name__": const(name), "__file__": const("/where/it/is/" + self.pk.files[name])})
        ref = self.alloc(env)
        self.modules[name] = ref.loc
        saved_frames, saved_loc = self.frames, ir.cur_loc()
        fn = _ModFunc(name)
        self.frames = saved_frames + [Frame(fn, ref.loc, self.st.pc)]
        self.exec_block(tree.body)
        self.frames = saved_frames
        ir.set_loc(saved_loc)
        return ref.loc

    def modattr(self, modname, attr):
        loc = self.load_module(modname)
        if loc is None:
            o = self.overrides.get(f"{modname}.{attr}")
            return self.modattr(*o.rsplit(".", 1)) if o else ExtV(f"{modname}.{attr}")
        env = self.st.heap[loc]
        if attr in env.vars:
            return env.vars[attr]
        sub = f"{modname}.{attr}"
        if sub in self.pk.trees:
            self.load_module(sub)
            return ModV(sub, self.modules[sub])
        return None

    # ------------------------------------------------------------ statements
    def loc_of(self, node):
        f = self.frames[-1].func if self.frames else None
        mod = f.module if f is not None else "?"
        return (self.pk.files.get(mod, mod), getattr(node, "lineno", 0), f.name if f is not None else "?")

    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise AnalysisLimit("step budget exceeded")
        ir.set_loc(self.loc_of(s))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.event("unsupported", what=type(s).__name__)
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.pk.pkg or a.name in self.pk.trees:
                self.load_module(a.name)
                if a.asname:
                    self.setvar(a.asname, ModV(a.name, self.modules.get(a.name)))
                else:
                    self.load_module(top)
                    self.setvar(top, ModV(top, self.modules.get(top)))
            else:
                self.setvar(a.asname or top, ExtV(canon_ext(a.name if a.asname else top)))

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            cur = self.frames[-1].func.module
            parts = cur.split(".")
            if not self.pk.is_package(cur):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[: len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([s.module] if s.module else []))
        if mod in self.pk.trees:
            self.load_module(mod)
            for a in s.names:
                if a.name == "*":
                    env = self.st.heap[self.modules[mod]]
                    for k, v in env.vars.items():
                        if not k.startswith("_"):
                            self.setvar(k, v)
                    continue
                v = self.modattr(mod, a.name)
                if v is None:
                    self.event("import-missing", module=mod, name=a.name)
                    v = N("opaque", f"missing:{mod}.{a.name}")
                self.setvar(a.asname or a.name, v)
        else:
            if mod.split(".")[0] == self.pk.pkg:
                self.event("import-missing", module=mod, name=",".join(a.name for a in s.names))
            for a in s.names:
                self.setvar(a.asname or a.name, ExtV(canon_ext(f"{mod}.{a.name}")))

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            ir.set_loc(self.loc_of(s))
            v = self.call(dv, [v], {})
        self.setvar(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, name):
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {p.arg: self.eval(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        f = FuncV(node, fr.func.module, fr.env, name, defaults, kwd)
        return f

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        for k in s.keywords:
            self.eval(k.value)
        fr = self.frames[-1]
        env = self.alloc(EnvO({}, parent=fr.env))
        saved = self.frames
        self.frames = saved + [Frame(_ModFunc(fr.func.module, s.name), env.loc, self.st.pc)]
        self.exec_block(s.body)
        self.frames = saved
        attrs = self.st.heap[env.loc].vars
        doc = ast.get_docstring(s, clean=False)
        attrs = dict(attrs)
        attrs.setdefault("__doc__", const(doc) if doc else NONE)
        cls = ClassV(s.name, fr.func.module, bases, attrs, s)
        for v in attrs.values():
            w = v.func if isinstance(v, WrapV) else v
            if isinstance(w, FuncV) and w.cls is None and w.env == env.loc:
                # methods close over the enclosing scope, not the class body
                w.cls = cls
                w.env = fr.env
                w.name = f"{s.name}.{w.name}" if "." not in w.name else w.name
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.setvar(s.name, v)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st is None:
            return
        self.frames[-1].returns.append((self.st, v))
        self.st = None

    def s_Assign(self, s):
        v = self.eval(s.value)
        if self.st is None:
            return
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.st is None:
                return
            self.assign(s.target, v)

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.getvar(s.target.id)
        elif isinstance(s.target, ast.Attribute):
            base = self.eval(s.target.value)
            old = self.getattr(base, s.target.attr)
        else:
            base = self.eval(s.target.value)
            idx = self.eval_index(s.target.slice)
            old = self.getitem(base, idx)
        rhs = self.eval(s.value)
        if self.st is None:
            return

        def upd(o):
            if isinstance(o, Ref):
                ob = self.obj(o)
                if isinstance(ob, Arr):
                    new = self.freeze(self.binop(op, o, rhs))
                    if ob.kind in ("index", "dtindex"):
                        return self.wrap(new)
                    self.set_content(o, N("assignall", self.content(o), new, kind=ob.kind) if new.kind != ob.kind and new.kind not in ARRAYISH else retag(new, ob.kind), how=f"{op}=")
                    return o
                if isinstance(ob, ListO) and op == "add":
                    self.models.list_extend(self, o, rhs)
                    return o
            return self.binop(op, o, rhs)

        new = self.lift(old, upd)
        if self.st is None:
            return
        if isinstance(s.target, ast.Name):
            self.setvar(s.target.id, new)
        elif isinstance(s.target, ast.Attribute):
            self.setattr(base, s.target.attr, new)
        else:
            # view writes already went through for arrays
            if isinstance(old, Ref) and isinstance(self.obj(old), Arr) and self.obj(old).base is not None:
                return
            self.setitem(base, idx, new)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack(v, None)
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, N("opaque", "star", self.new_uid()))
                    return
                i = star[0]
                tail = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.alloc(ListO(items[i: len(items) - tail])))
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            if self.st is not None:
                self.setattr(base, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval_index(t.slice)
            if self.st is not None:
                self.setitem(base, idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, n):
        if isinstance(v, TupleV):
            items = list(v.items)
        elif isinstance(v, Ref) and isinstance(self.obj(v), ListO) and self.obj(v).items is not None:
            items = list(self.obj(v).items)
        elif isinstance(v, Node) and v.op in ("tuple", "list"):
            items = [self.wrap(x) for x in v.args]
        elif isinstance(v, Node) and v.op == "const" and isinstance(v.args[0], (tuple, str)):
            items = [const(x) for x in v.args[0]]
        elif isinstance(v, PhiV) and n is not None:
            a = self.unpack(v.a, n)
            b = self.unpack(v.b, n)
            return [self.merge_value(v.cond, x, y) for x, y in zip(a, b)]
        elif n is not None:
            fv = self.freeze(v)
            if fv.op == "phi":
                parts = [self.models.elem_of(self, v, i) for i in range(n)]
                return parts
            return [self.models.elem_of(self, v, i) for i in range(n)]
        else:
            return None
        if n is not None and len(items) != n:
            self.event("raise", exc="ValueError", msg=f"unpack {len(items)} into {n}", implicit=True)
            items = (items + [N("opaque", "unpack", self.new_uid())] * n)[:n]
        return items

    def s_If(self, s):
        cv = self.eval(s.test)
        if self.st is None:
            return
        c = self.as_bool(cv)
        t = self.truth_node(c)
        if t is True:
            self.exec_block(s.body)
            return
        if t is False:
            self.exec_block(s.orelse)
            return
        c, pos = strip_not(c)
        s0 = self.st
        self.st = s0.fork((c, pos))
        self.exec_block(s.body)
        a = self.st
        self.st = s0.fork((c, not pos))
        self.exec_block(s.orelse)
        b = self.st
        self.join2(c if pos else c, a if pos else b, b if pos else a, s0)

    def join2(self, c, a, b, s0):
        if a is None:
            self.st = b
        elif b is None:
            self.st = a
        else:
            self.st, _ = self.merge(c, a, b, s0)

    def s_Assert(self, s):
        cv = self.eval(s.test)
        if self.st is None:
            return
        c = self.as_bool(cv)
        t = self.truth_node(c)
        if t is True:
            return
        c2, pos = strip_not(c)
        s0 = self.st
        self.st = s0.fork((c2, not pos)) if t is None else s0
        self.do_raise("AssertionError", s)
        if t is False:
            self.st = None
        else:
            self.st = s0.fork((c2, pos))

    def do_raise(self, exc, node, value=None, implicit=False):
        ir.set_loc(self.loc_of(node))
        self.event("raise", exc=exc, value=value, implicit=implicit)
        # innermost handler in the frame stack
        for fr in reversed(self.frames):
            if fr.handlers:
                fr.handlers[-1].append((self.st, exc, value))
                break
        self.st = None

    def s_Raise(self, s):
        exc = "Exception"
        val = None
        if s.exc is not None:
            e = s.exc
            v = self.eval(e)
            if self.st is None:
                return
            val = v
            exc = self.models.exc_name(self, v)
        self.do_raise(exc, s, val)

    def s_Try(self, s):
        fr = self.frames[-1]
        s0 = self.st.fork()
        fr.handlers.append([])
        ncalls = self.calls_seen
        self.exec_block(s.body)
        raised = fr.handlers.pop()
        normal = self.st
        if normal is not None and s.orelse:
            self.exec_block(s.orelse)
            normal = self.st
        outs = []
        if s.handlers:
            # any library call in the body may raise as well
            may = N("opaque", "mayraise", self.new_uid(), kind="bool")
            cand = [(x[0], x[1], x[2]) for x in raised]
            handled = False
            for h in s.handlers:
                names = self.models.handler_names(self, h)
                sel = [x for x in cand if names is None or x[1] in names or x[1] == "Exception" or self.models.exc_matches(x[1], names)]
                cand = [x for x in cand if x not in sel]
                ent = [(x[0], NONE) for x in sel]
                imp = s0.fork((may, True))
                ent.append((imp, NONE))
                for e, _ in ent:
                    self.st = e.fork()
                    if h.name:
                        self.setvar(h.name, N("opaque", "exc", self.new_uid(), kind="exc"))
                    self.exec_block(h.body)
                    if self.st is not None:
                        outs.append((self.st, NONE))
            for x in cand:
                # not handled here: propagates
                for f2 in reversed(self.frames):
                    if f2.handlers:
                        f2.handlers[-1].append(x)
                        break
            if normal is not None:
                normal = State(normal.heap, s0.pc + ((may, False),) + normal.pc[len(s0.pc):])
        ents = ([(normal, NONE)] if normal is not None else []) + outs
        if ents:
            self.merge_many(ents, len(s0.pc))
        else:
            self.st = None
        if s.finalbody:
            if self.st is None:
                # run the finaliser for its effects on the abrupt exits
                self.st = s0.fork()
                self.exec_block(s.finalbody)
                self.st = None
            else:
                self.exec_block(s.finalbody)

    s_TryStar = s_Try

    def s_With(self, s):
        ctxs = []
        for it in s.items:
            v = self.eval(it.context_expr)
            if self.st is None:
                return
            self.event("with-enter", value=self.freeze(v))
            ev = self.models.with_enter(self, v)
            ctxs.append((v, ev))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ev)
        self.exec_block(s.body)
        if self.st is not None:
            for v, ev in reversed(ctxs):
                self.event("with-exit", value=self.freeze(v))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                idx = self.eval_index(t.slice)
                self.models.delitem(self, base, idx)
            elif isinstance(t, ast.Attribute):
                self.eval(t.value)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Match(self, s):
        subj = self.eval(s.subject)
        if self.st is None:
            return
        s0 = self.st
        outs = []
        cur = s0
        for case in s.cases:
            if cur is None:
                break
            self.st = cur
            conds = self.match_pat(case.pattern, subj)
            if case.guard is not None:
                conds.append(self.as_bool(self.eval(case.guard)))
            c = conj(conds) if conds else TRUE
            t = self.truth_node(c)
            if t is False:
                cur = self.st
                continue
            base = self.st
            self.st = base if t is True else base.fork((c, True))
            self.exec_block(case.body)
            if self.st is not None:
                outs.append((self.st, NONE))
            cur = None if t is True else base.fork((c, False))
        if cur is not None:
            outs.append((cur, NONE))
        self.merge_many(outs, len(s0.pc))

    def match_pat(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return [self.as_bool(self.compare("eq", subj, self.eval(p.value)))]
        if isinstance(p, ast.MatchSingleton):
            return [self.as_bool(self.compare_is(subj, const(p.value)))]
        if isinstance(p, ast.MatchOr):
            return [disj([conj(self.match_pat(q, subj)) for q in p.patterns])]
        if isinstance(p, ast.MatchAs):
            cs = self.match_pat(p.pattern, subj) if p.pattern else []
            if p.name:
                self.setvar(p.name, subj)
            return cs
        return [N("opaque", "match", self.new_uid(), kind="bool")]

    # ------------------------------------------------------------ loops
    def s_Break(self, s):
        self.frames[-1].loops[-1]["break"].append((self.st, NONE))
        self.st = None

    def s_Continue(self, s):
        self.frames[-1].loops[-1]["continue"].append((self.st, NONE))
        self.st = None

    def run_body(self, body, base_len):
        fr = self.frames[-1]
        ctx = {"break": [], "continue": []}
        fr.loops.append(ctx)
        self.exec_block(body)
        fr.loops.pop()
        ents = ctx["continue"] + ([(self.st, NONE)] if self.st is not None else [])
        if ents:
            self.merge_many(ents, base_len)
        else:
            self.st = None
        return ctx["break"]

    def s_For(self, s):
        it = self.eval(s.iter)
        if self.st is None:
            return
        self.for_loop(it, s.target, s.body, s.orelse)

    def for_loop(self, it, target, body, orelse):
        items = self.models.concrete_items(self, it, self.MAX_UNROLL)
        if items is not None:
            breaks = []
            base_len = len(self.st.pc)
            live = isinstance(it, Ref) and isinstance(self.obj(it), ListO)
            i = 0
            while i < len(items):
                if self.st is None:
                    break
                self.assign(target, items[i])
                breaks += self.run_body(body, base_len)
                i += 1
                if live and self.st is not None:
                    # the loop sees changes the body makes to the list it runs over
                    now = self.models.concrete_items(self, it, self.MAX_UNROLL)
                    items = now if now is not None and i <= self.MAX_UNROLL else items
            if self.st is not None and orelse:
                self.exec_block(orelse)
            if breaks:
                ents = ([(self.st, NONE)] if self.st is not None else []) + breaks
                self.merge_many(ents, base_len)
            return
        uid = self.new_uid()
        elem, desc = self.models.loop_elem(self, it, uid)
        self.sym_loop(uid, desc, None, target, elem, body, orelse)

    def s_While(self, s):
        # unroll while the test is decidable (bounded)
        c0 = self.as_bool(self.eval(s.test))
        if self.st is None:
            return
        if self.truth_node(c0) is False:
            self.exec_block(s.orelse)
            return
        if self.truth_node(c0) is True and c0.op == "const" and not isinstance(s.test, ast.Constant):
            st0, ev0 = self.st, len(self.events)
            self.st = st0.fork()
            breaks, base_len, c = [], len(st0.pc), c0
            for _ in range(16):
                if self.truth_node(c) is not True or c.op != "const":
                    break
                breaks += self.run_body(s.body, base_len)
                if self.st is None:
                    break
                c = self.as_bool(self.eval(s.test))
                if self.st is None:
                    break
            if self.st is None or self.truth_node(c) is False:
                if self.st is not None and s.orelse:
                    self.exec_block(s.orelse)
                if breaks:
                    self.merge_many(([(self.st, NONE)] if self.st is not None else []) + breaks, base_len)
                return
            self.st = st0
            del self.events[ev0:]
        if self.unroll_while:
            return self.unrolled_while(s, self.unroll_while)
        uid = self.new_uid()
        self.sym_loop(uid, N("while", uid), s.test, None, None, s.body, s.orelse)

    def unrolled_while(self, s, depth):
        """the first `depth` iterations, each under its own path condition; longer runs are left out"""
        base_len = len(self.st.pc)
        exits, breaks = [], []
        while True:
            c = self.as_bool(self.eval(s.test))
            if self.st is None:
                break
            t = self.truth_node(c)
            k, pos = strip_not(c)
            if t is not True:
                st = self.st
                self.st = st.fork() if t is False else st.fork((k, not pos))
                if s.orelse:
                    self.exec_block(s.orelse)
                if self.st is not None:
                    exits.append((self.st, NONE))
                self.st = st
            if t is False or depth == 0:
                break
            if t is not True:
                self.st = self.st.fork((k, pos))
            breaks += self.run_body(s.body, len(self.st.pc))
            if self.st is None:
                break
            depth -= 1
        self.st = None
        if exits or breaks:
            self.merge_many(exits + breaks, base_len)

    def snapshot_slots(self, heap):
        return heap

    def changed_slots(self, h0, h1):
        out = []
        for loc, o1 in h1.items():
            o0 = h0.get(loc)
            if o0 is None or o0 is o1:
                continue
            if isinstance(o1, Arr):
                if o1.base is None and (o0.content is not o1.content):
                    out.append((loc, "content"))
            elif isinstance(o1, EnvO):
                for k, v in o1.vars.items():
                    if not same_value(o0.vars.get(k, UNDEF), v):
                        out.append((loc, "var", k))
            elif isinstance(o1, InstO):
                for k, v in o1.attrs.items():
                    if not same_value(o0.attrs.get(k, UNDEF), v):
                        out.append((loc, "attr", k))
            elif isinstance(o1, ListO):
                if o0.items is None or o1.items is None:
                    if o0.sym is not o1.sym or (o0.items is None) != (o1.items is None):
                        out.append((loc, "list"))
                elif len(o0.items) != len(o1.items) or any(not same_value(a, b) for a, b in zip(o0.items, o1.items)):
                    out.append((loc, "list"))
            elif isinstance(o1, DictO):
                for k, v in o1.items.items():
                    if not same_value(o0.items.get(k, UNDEF), v):
                        out.append((loc, "item", k))
                if o0.sym is not o1.sym:
                    out.append((loc, "dictsym"))
        return out

    def slot_get(self, heap, slot):
        o = heap.get(slot[0])
        if o is None:
            return UNDEF
        if slot[1] == "content":
            return o.content
        if slot[1] == "var":
            return o.vars.get(slot[2], UNDEF)
        if slot[1] == "attr":
            return o.attrs.get(slot[2], UNDEF)
        if slot[1] == "item":
            return o.items.get(slot[2], UNDEF)
        if slot[1] == "list":
            if o.items is not None:
                return N("list", *[self.freeze(x) for x in o.items], kind="list")
            return o.sym
        if slot[1] == "dictsym":
            return o.sym if o.sym is not None else N("dict", (), kind="dict")
        return UNDEF

    def slot_set(self, slot, v):
        loc = slot[0]
        o = self.st.heap[loc].copy()
        self.st.heap[loc] = o
        if slot[1] == "content":
            o.content = v
        elif slot[1] == "var":
            o.vars[slot[2]] = v
        elif slot[1] == "attr":
            o.attrs[slot[2]] = v
        elif slot[1] == "item":
            o.items[slot[2]] = v
        elif slot[1] == "list":
            o.items, o.sym = None, v
        elif slot[1] == "dictsym":
            o.sym = v

    def sym_loop(self, uid, desc, test, target, elem, body, orelse):
        s0 = self.st
        slots = []
        kinds = {}
        nev = len(self.events)
        fr = self.frames[-1]
        base_len = len(s0.pc)

        def kind_of(v):
            if isinstance(v, Node):
                return v.kind
            if isinstance(v, Ref):
                o = self.st.heap.get(v.loc)
                if isinstance(o, Arr):
                    return o.kind
                if isinstance(o, ListO):
                    return "list"
            return "any"

        def install(final):
            """set every changed slot to its mu value"""
            self.st = s0.fork()
            mus = {}
            for i, sl in enumerate(slots):
                init = self.slot_get(s0.heap, sl)
                k = kinds.get(sl) or (kind_of(init) if init is not UNDEF else "any")
                mid = (uid, i)
                m = N("mu", mid, kind=k)
                self.st = self.st
                saved = self.st
                self.st = State(s0.heap, s0.pc)
                fin = self.freeze(init) if init is not UNDEF else N("undef")
                self.st = saved
                ir.mu_defs[mid] = {"init": fin, "next": None, "loop": desc, "slot": sl}
                mus[sl] = (m, mid)
                if sl[1] in ("content", "list", "dictsym"):
                    self.slot_set(sl, m)
                elif k in ARRAYISH:
                    self.slot_set(sl, self.alloc(Arr(k, content=m)))
                elif k == "list" and isinstance(init, Ref):
                    self.slot_set(sl, self.alloc(ListO(None, sym=m)))
                else:
                    self.slot_set(sl, m)
            return mus

        breaks = []
        mus = {}
        rounds = 0
        self.suppress += 1
        ylen, rlen = len(fr.yields), len(fr.returns)
        handler_len = [len(h) for f in self.frames for h in f.handlers]
        while True:
            rounds += 1
            final = rounds > 1 and not grew
            if final:
                self.suppress -= 1
            mus = install(final)
            head = self.st
            cond = None
            if test is not None:
                cond = self.as_bool(self.eval(test))
                if self.st is None:
                    if not final:
                        self.suppress -= 1
                    return
            c, pos = strip_not(cond) if cond is not None else (N("loopcond", uid, desc, kind="bool"), True)
            headst = self.st
            self.st = headst.fork((c, pos))
            if target is not None:
                self.assign(target, elem)
            breaks = self.run_body(body, base_len + 1)
            end = self.st
            if final:
                break
            # discard what the discovery pass recorded
            del fr.yields[ylen:]
            del fr.returns[rlen:]
            grew = False
            ends = ([end] if end is not None else []) + [b[0] for b in breaks]
            for e in ends:
                for sl in self.changed_slots(head.heap, e.heap):
                    if sl[0] in s0.heap and sl not in slots:
                        slots.append(sl)
                        grew = True
                    if sl[0] in s0.heap:
                        saved = self.st
                        self.st = e
                        k1 = kind_of(self.slot_get(e.heap, sl))
                        init = self.slot_get(s0.heap, sl)
                        self.st = s0
                        k0 = kind_of(init) if init is not UNDEF else None
                        self.st = saved
                        k = k1 if k0 is None else join_kind(k0, k1)
                        if kinds.get(sl) != k and sl in kinds and rounds < 4:
                            grew = True
                        if sl not in kinds or rounds < 4:
                            kinds[sl] = k
            if rounds > 6:
                grew = False
        # record next values
        for sl, (m, mid) in mus.items():
            if end is not None:
                saved = self.st
                self.st = end
                nv = self.slot_get(end.heap, sl)
                nx = self.freeze(nv) if nv is not UNDEF else N("undef")
                self.st = saved
            else:
                nx = m
            ir.mu_defs[mid]["next"] = nx
        for sl, (m, mid) in mus.items():
            ir.mu_defs[mid]["test"] = (c, pos) if test is not None else None
            ir.mu_defs[mid]["breaks"] = len(breaks)
        # loop exit state
        exits = []
        ex = headst.fork((c, not pos))
        self.st = ex
        for sl, (m, mid) in mus.items():
            # summarise recognised folds
            closed = self.models.close_mu(self, m, mid, desc)
            if closed is not None:
                k = m.kind
                if sl[1] in ("content", "list", "dictsym"):
                    self.slot_set(sl, closed)
                elif k in ARRAYISH:
                    self.slot_set(sl, self.alloc(Arr(k, content=closed)))
                elif k == "list":
                    self.slot_set(sl, self.alloc(ListO(None, sym=closed)))
                else:
                    self.slot_set(sl, closed)
        ex = State(ex.heap, s0.pc + (((c, not pos),) if test is not None else ()))
        self.st = ex
        if orelse:
            self.exec_block(orelse)
        if self.st is not None:
            exits.append((self.st, NONE))
        if breaks:
            brk = N("opaque", "broke", uid, kind="bool")
            bent = [(State(b.heap, s0.pc + ((brk, True),) + b.pc[len(s0.pc):]), NONE) for b, _ in breaks]
            exits = [(State(e.heap, s0.pc + ((brk, False),) + e.pc[len(s0.pc):]), NONE) for e, _ in exits]
            exits += bent
        self.merge_many(exits, base_len)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise AnalysisLimit("step budget exceeded")
        if self.st is None:
            return NONE
        m = getattr(self, "e_" + type(e).__name__, None)
        old = ir.cur_loc()
        if hasattr(e, "lineno"):
            ir.set_loc(self.loc_of(e))
        if m is None:
            self.event("unsupported", what=type(e).__name__)
            return N("opaque", type(e).__name__, self.new_uid())
        v = m(e)
        return v

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, complex) or isinstance(v, bytes):
            return N("const", repr(v))
        return const(v)

    def e_Name(self, e):
        return self.getvar(e.id)

    def e_Attribute(self, e):
        b = self.eval(e.value)
        if self.st is None:
            return NONE
        return self.getattr(b, e.attr)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = self.models.concrete_items(self, v, self.MAX_UNROLL)
                if it is None:
                    return N("opaque", "startuple", self.new_uid())
                out += it
            else:
                out.append(self.eval(x))
        return TupleV(out)

    def e_List(self, e):
        t = self.e_Tuple(e)
        if isinstance(t, TupleV):
            return self.alloc(ListO(t.items))
        return t

    def e_Set(self, e):
        t = self.e_Tuple(e)
        return SpecialV("set", items=list(t.items), frozen=N("set", *[self.freeze(x) for x in t.items], kind="set")) if isinstance(t, TupleV) else t

    def e_Dict(self, e):
        d = DictO({})
        ref = self.alloc(d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                self.models.dict_update(self, ref, src)
                continue
            kv = self.eval(k)
            vv = self.eval(v)
            if self.st is None:
                return NONE
            self.models.dict_set(self, ref, kv, vv)
        return ref

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if self.st is None:
            return NONE
        ir.set_loc(self.loc_of(e))
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, PhiV):
            return self.lift(a, lambda x: self.binop(op, x, b))
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: self.binop(op, a, x))
        return self.models.binop(self, op, a, b)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if self.st is None:
            return NONE
        if isinstance(e.op, ast.Not):
            return mknot(self.as_bool(v))

        def f(x):
            return self.models.unop(self, {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "binv"}[type(e.op)], x)

        return self.lift(v, f)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        return self.boolop(e.values, is_and)

    def boolop(self, values, is_and):
        v = self.eval(values[0])
        if self.st is None or len(values) == 1:
            return v
        c = self.as_bool(v)
        t = self.truth_node(c)
        if t is not None:
            if t is is_and:
                return self.boolop(values[1:], is_and)
            return v if not isinstance(v, Node) or v.kind != "bool" else c
        s0 = self.st
        c2, pos = strip_not(c)
        self.st = s0.fork((c2, pos if is_and else not pos))
        r = self.boolop(values[1:], is_and)
        s1 = self.st
        other = s0.fork((c2, (not pos) if is_and else pos))
        if s1 is None:
            self.st = other
            return v
        rb = isinstance(r, Node) and (r.kind == "bool" or r.op in CMP_OPS or r.op in ("and", "or", "not"))
        vb = isinstance(v, Node) and (v.kind == "bool" or v.op in CMP_OPS or v.op in ("and", "or", "not"))
        if rb and vb:
            res = conj([c, r]) if is_and else disj([c, r])
            self.st, _ = self.merge(c2, s1 if (pos if is_and else not pos) else other, other if (pos if is_and else not pos) else s1, s0)
            return res
        # general: value semantics
        sel_true = (r, v) if is_and else (v, r)
        ta, tb = (s1, other) if is_and else (other, s1)
        if not pos:
            sel_true = (sel_true[1], sel_true[0])
            ta, tb = tb, ta
        self.st, (res,) = self.merge(c2, ta, tb, s0, extra=[sel_true])
        return res

    def e_IfExp(self, e):
        c = self.as_bool(self.eval(e.test))
        if self.st is None:
            return NONE
        t = self.truth_node(c)
        if t is True:
            return self.eval(e.body)
        if t is False:
            return self.eval(e.orelse)
        c, pos = strip_not(c)
        s0 = self.st
        self.st = s0.fork((c, pos))
        va = self.eval(e.body)
        sa = self.st
        self.st = s0.fork((c, not pos))
        vb = self.eval(e.orelse)
        sb = self.st
        if sa is None:
            self.st = sb
            return vb
        if sb is None:
            self.st = sa
            return va
        if pos:
            self.st, (r,) = self.merge(c, sa, sb, s0, extra=[(va, vb)])
        else:
            self.st, (r,) = self.merge(c, sb, sa, s0, extra=[(vb, va)])
        return r

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = []
        for op, rhs in zip(e.ops, e.comparators):
            right = self.eval(rhs)
            if self.st is None:
                return NONE
            ir.set_loc(self.loc_of(e))
            if isinstance(op, ast.Is):
                r = self.compare_is(left, right)
            elif isinstance(op, ast.IsNot):
                r = mknot(self.as_bool(self.compare_is(left, right)))
            elif isinstance(op, ast.In):
                r = self.models.contains(self, right, left)
            elif isinstance(op, ast.NotIn):
                r = mknot(self.as_bool(self.models.contains(self, right, left)))
            else:
                r = self.compare(CMPOPS[type(op)], left, right)
            res.append(r)
            left = right
        if len(res) == 1:
            return res[0]
        return conj([self.as_bool(r) for r in res])

    def compare(self, op, a, b):
        if isinstance(a, PhiV):
            return self.lift(a, lambda x: self.compare(op, x, b))
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: self.compare(op, a, x))
        return self.models.compare(self, op, a, b)

    def compare_is(self, a, b):
        if isinstance(a, PhiV):
            return self.lift(a, lambda x: self.compare_is(x, b))
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: self.compare_is(a, x))
        return self.models.compare_is(self, a, b)

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not self._shadowed("super"):
            return self.make_super(e)
        f = self.eval(e.func)
        if self.st is None:
            return NONE
        args, kwargs = [], {}
        opaque_star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                it = self.models.concrete_items(self, v, 500)
                if it is None:
                    opaque_star = True
                else:
                    args += it
            else:
                args.append(self.eval(a))
            if self.st is None:
                return NONE
        for k in e.keywords:
            v = self.eval(k.value)
            if self.st is None:
                return NONE
            if k.arg is None:
                d = self.models.dict_items(self, v)
                if d is None:
                    kwargs["**"] = v
                else:
                    kwargs.update(d)
            else:
                kwargs[k.arg] = v
        if opaque_star:
            self.event("unsupported", what="starargs")
            return N("opaque", "starcall", self.new_uid())
        ir.set_loc(self.loc_of(e))
        self.cur_call = e
        return self.call(f, args, kwargs)

    def _shadowed(self, name):
        loc = self.frames[-1].env
        while loc is not None:
            env = self.st.heap[loc]
            if name in env.vars:
                return True
            loc = env.parent
        return False

    def make_super(self, e):
        fr = self.frames[-1]
        if e.args:
            c = self.eval(e.args[0])
            s = self.eval(e.args[1]) if len(e.args) > 1 else None
            return SuperV(c, s)
        cls = None
        for f in reversed(self.frames):
            if f.func is not None and getattr(f.func, "cls", None) is not None:
                return SuperV(f.func.cls, f.self_val)
        return N("opaque", "super", self.new_uid())

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.setvar(e.target.id, v)
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                if self.st is None:
                    return NONE
                parts.append(self.models.fmt_part(self.freeze(x), v.conversion, "" if v.format_spec is None else ast.dump(v.format_spec)))
        return self.models.mkfstr(parts)

    def e_FormattedValue(self, e):
        return N("fmt", self.freeze(self.eval(e.value)), kind="str")

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Slice(self, e):
        def g(x):
            return self.freeze(self.eval(x)) if x is not None else NONE

        return mkslice(g(e.lower), g(e.upper), g(e.step))

    def eval_index(self, e):
        return self.eval(e)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        if self.st is None:
            return NONE
        i = self.eval_index(e.slice)
        if self.st is None:
            return NONE
        ir.set_loc(self.loc_of(e))
        return self.getitem(b, i)

    def getitem(self, b, i):
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: self.getitem(x, i))
        return self.models.getitem(self, b, i)

    def setitem(self, b, i, v):
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: (self.setitem(x, i, v), NONE)[1])
        return self.models.setitem(self, b, i, v)

    def _comp(self, e, elt_fn, kind):
        """comprehensions: concrete sources unroll, symbolic ones give map nodes"""
        fr = self.frames[-1]
        env = self.alloc(EnvO({}, parent=fr.env))
        saved_env = fr.env
        fr.env = env.loc
        out = []
        symbolic = []
        try:
            def rec(gi):
                if self.st is None:
                    return
                if gi == len(e.generators):
                    out.append(elt_fn())
                    return
                g = e.generators[gi]
                it = self.eval(g.iter)
                if self.st is None:
                    return
                items = self.models.concrete_items(self, it, self.MAX_UNROLL)
                if items is None:
                    uid = self.new_uid()
                    elem, desc = self.models.loop_elem(self, it, uid)
                    self.assign(g.target, elem)
                    conds = []
                    for c in g.ifs:
                        cv = self.as_bool(self.eval(c))
                        conds.append(cv)
                    symbolic.append((uid, desc, conds))
                    s0 = self.st
                    pcl = len(s0.pc)
                    self.st = s0.fork((N("loopcond", uid, desc, kind="bool"), True), *[(c, True) for c in conds])
                    rec(gi + 1)
                    if self.st is not None:
                        self.st = State(self.st.heap, s0.pc)
                    else:
                        self.st = s0
                    return
                for x in items:
                    if self.st is None:
                        return
                    self.assign(g.target, x)
                    skip = False
                    pend = []
                    for c in g.ifs:
                        cv = self.as_bool(self.eval(c))
                        t = self.truth_node(cv)
                        if t is False:
                            skip = True
                            break
                        if t is None:
                            pend.append(cv)
                    if skip:
                        continue
                    if pend:
                        # membership unknown: whole result becomes symbolic
                        symbolic.append((None, N("filter", conj(pend)), []))
                    rec(gi + 1)

            rec(0)
        finally:
            fr.env = saved_env
        return out, symbolic

    def _comp_finish(self, out, symbolic, kind):
        if not symbolic:
            return out, None
        elt = self.freeze(out[0]) if len(out) == 1 else N("list", *[self.freeze(x) for x in out], kind="list")
        node = elt
        for uid, desc, conds in reversed(symbolic):
            node = self.models.mkmap(node, uid, desc, conds)
        return None, node

    def e_ListComp(self, e):
        out, symb = self._comp(e, lambda: self.eval(e.elt), "list")
        if self.st is None:
            return NONE
        items, node = self._comp_finish(out, symb, "list")
        if items is not None:
            return self.alloc(ListO(items))
        return self.alloc(ListO(None, sym=node))

    def e_GeneratorExp(self, e):
        out, symb = self._comp(e, lambda: self.eval(e.elt), "list")
        if self.st is None:
            return NONE
        items, node = self._comp_finish(out, symb, "list")
        if items is not None:
            return TupleV(items)
        return node

    def e_SetComp(self, e):
        v = self.e_ListComp(e)
        return N("call", "set", self.freeze(v), kind="set")

    def e_DictComp(self, e):
        out, symb = self._comp(e, lambda: TupleV([self.eval(e.key), self.eval(e.value)]), "dict")
        if self.st is None:
            return NONE
        if symb:
            items, node = self._comp_finish(out, symb, "dict")
            return self.alloc(DictO({}, sym=node))
        ref = self.alloc(DictO({}))
        for t in out:
            self.models.dict_set(self, ref, t.items[0], t.items[1])
        return ref

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        if self.st is None:
            return NONE
        self.frames[-1].yields.append((self.st.fork(), v))
        self.event("yield", value=v, heap=self.st.heap)
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        items = self.models.concrete_items(self, v, self.MAX_UNROLL)
        for x in items or [v]:
            self.frames[-1].yields.append((self.st.fork(), x))
        return NONE

    # ------------------------------------------------------------ names
    def getvar(self, name):
        fr = self.frames[-1]
        loc = fr.env
        first = True
        while loc is not None:
            env = self.st.heap[loc]
            if name in env.vars:
                v = env.vars[name]
                return self.check_undef(v, name)
            if name in env.locals_ and first:
                self.event("unbound", name=name, definite=True)
                self.do_raise("UnboundLocalError", _Pos(ir.cur_loc()), implicit=True)
                return NONE
            first = False
            loc = env.parent
        b = self.models.builtin(name)
        if b is not None:
            return b
        self.event("unresolved-name", name=name)
        return N("opaque", f"name:{name}", self.new_uid())

    def check_undef(self, v, name):
        if v is UNDEF:
            self.event("unbound", name=name, definite=True)
            self.do_raise("UnboundLocalError", _Pos(ir.cur_loc()), implicit=True)
            return NONE
        if isinstance(v, PhiV) and has_undef(v):
            def pick(x):
                if x is UNDEF:
                    self.event("unbound", name=name, definite=False)
                    self.do_raise("UnboundLocalError", _Pos(ir.cur_loc()), implicit=True)
                    return NONE
                return x

            return self.lift(v, pick)
        if isinstance(v, Node) and v.op == "phi" and any(a.op == "undef" for a in v.args[1:]):
            pass
        return v

    def setvar(self, name, v):
        fr = self.frames[-1]
        loc = fr.env
        env = self.st.heap[loc]
        if name in env.globals_:
            loc = self.modules[fr.func.module]
        elif name in env.nonlocals:
            p = env.parent
            while p is not None and name not in self.st.heap[p].vars:
                p = self.st.heap[p].parent
            loc = p if p is not None else loc
        o = self.st.heap[loc].copy()
        if name in env.globals_:
            self.event("global-write", name=name, module=fr.func.module)
        o.vars[name] = v
        self.st.heap[loc] = o

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        out = []

        def lin(c):
            if not isinstance(c, ClassV):
                return [c]
            seqs = [lin(b) for b in c.bases] + [list(c.bases)]
            return [c] + merge_mro(seqs)

        try:
            return lin(cls)
        except ValueError:
            return [cls]

    def find_attr(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def bind_attr(self, v, inst, cls):
        if isinstance(v, WrapV):
            if v.kind == "static":
                return v.func
            if v.kind == "class":
                return BoundV(v.func, cls)
            if v.kind in ("property", "cached_property"):
                return self.call(v.func, [inst], {})
        if isinstance(v, (FuncV,)):
            return BoundV(v, inst)
        if isinstance(v, PartialV) and v.data.get("method") if hasattr(v, "data") else False:
            return BoundV(v, inst)
        return v

    def getattr(self, b, name):
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: self.getattr(x, name))
        if isinstance(b, ModV):
            v = self.modattr(b.name, name)
            if v is None:
                self.event("missing-attr", obj=b.name, name=name)
                return N("opaque", f"{b.name}.{name}", self.new_uid())
            return v
        if isinstance(b, ExtV):
            return self.models.ext_attr(self, b, name)
        if isinstance(b, SuperV):
            selfcls = None
            if isinstance(b.self, Ref):
                o = self.obj(b.self)
                selfcls = o.cls if isinstance(o, InstO) else None
            elif isinstance(b.self, ClassV):
                selfcls = b.self
            v, c = self.find_attr(selfcls or b.cls, name, after=b.cls)
            if v is None:
                if name == "__init__":
                    return ExtV("object.__init__")
                return N("opaque", f"super.{name}", self.new_uid())
            return self.bind_attr(v, b.self, selfcls or b.cls)
        if isinstance(b, ClassV):
            v, c = self.find_attr(b, name)
            if v is None:
                if name == "__name__":
                    return const(b.name)
                return N("opaque", f"{b.name}.{name}", self.new_uid())
            if isinstance(v, WrapV):
                if v.kind == "static":
                    return v.func
                if v.kind == "class":
                    return BoundV(v.func, b)
            return v
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, InstO):
                if name in o.attrs:
                    v = o.attrs[name]
                    if v is UNDEF or (isinstance(v, PhiV) and has_undef(v)):
                        return self.check_undef_attr(v, name)
                    return v
                if isinstance(o.cls, ClassV):
                    v, c = self.find_attr(o.cls, name)
                    if v is not None:
                        return self.bind_attr(v, b, o.cls)
                    if name == "__class__":
                        return o.cls
                    if name == "__dict__":
                        return self.alloc(DictO(o.attrs))
                    self.event("missing-attr", obj=o.cls.name, name=name)
                    return N("getattr", self.freeze(b), name)
        if b is NONE and not name.startswith("__"):
            self.event("none-attr", name=name)
            self.do_raise("AttributeError", _Pos(ir.cur_loc()), implicit=True)
            return NONE
        return self.models.getattr(self, b, name)

    def check_undef_attr(self, v, name):
        def pick(x):
            if x is UNDEF:
                self.event("missing-attr", obj="instance", name=name)
                self.do_raise("AttributeError", _Pos(ir.cur_loc()), implicit=True)
                return NONE
            return x

        return self.lift(v, pick)

    def setattr(self, b, name, v):
        if isinstance(b, PhiV):
            return self.lift(b, lambda x: (self.setattr(x, name, v), NONE)[1])
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, InstO):
                if isinstance(o.cls, ClassV):
                    pv, _ = self.find_attr(o.cls, name)
                    if isinstance(pv, WrapV) and pv.kind == "property" and getattr(pv, "setter", None):
                        return self.call(pv.setter, [b, v], {})
                self.event("attr-write", obj=b.loc, name=name, value=v, owner=o.owner)
                o = self.mut(b)
                o.attrs[name] = v
                return
            if isinstance(o, Arr):
                return self.models.arr_setattr(self, b, name, v)
        if isinstance(b, ClassV):
            b.attrs[name] = v
            self.event("class-attr-write", cls=b.name, name=name)
            return
        if isinstance(b, ModV):
            self.event("module-attr-write", module=b.name, name=name)
            env = self.st.heap[b.env].copy()
            env.vars[name] = v
            self.st.heap[b.env] = env
            return
        if isinstance(b, ExtV):
            self.event("ext-attr-write", obj=b.name, name=name)
            return
        if isinstance(b, FuncV):
            self.event("func-attr-write", func=b, name=name)
            return
        self.event("opaque-attr-write", obj=self.freeze(b), name=name)

    strict_args = True

    # ------------------------------------------------------------ calls
    def checked(self, name, args, kwargs, r):
        """a transfer function that never read one of its arguments cannot have modelled it: its result is not the plain term"""
        left = [(i, list.__getitem__(args, i)) for i in range(len(args)) if i not in args.read]
        left += [(k, dict.get(kwargs, k)) for k in dict.keys(kwargs) if k not in kwargs.read]
        left = [(k, v) for k, v in left if not self.immaterial(name, k, v)]
        if not left or self.st is None:
            return r
        what = ("unread", name, tuple((k, self.freeze(v)) for k, v in left))
        return self.lift(r, lambda x: self.unread(x, what))

    def unread(self, r, what):
        if isinstance(r, Ref) and isinstance(self.obj(r), Arr):
            return self.wrap(N("unread", self.content(r), *what[1:], kind=self.obj(r).kind))
        if isinstance(r, Node) and r.op != "const":
            return N("unread", r, *what[1:], kind=r.kind)
        if not self.strict_args or r is NONE and not what[1].startswith(("numpy.", ".")):
            return r
        raise AnalysisLimit(f"argument {[k for k, _ in what[2]]} of {what[1]} is not modelled")

    def immaterial(self, name, k, v):
        if name.startswith(("pydantic", "joblib.Parallel", "warnings.", "logging.")) or name.split(".")[-1] in LOGNAMES:
            return True
        if k == "dtype" and isinstance(v, ExtV) and v.name in FLOATNAMES or k == "dtype" and isinstance(v, Node) and v.op == "const" and v.args[0] in ("float", "float64"):
            return True
        return k in ("copy", "order", "stacklevel") and not (k == "order" and name.split(".")[-1] in ("reshape", "ravel", "flatten", "resize"))

    def call(self, f, args, kwargs):
        if self.st is None:
            return NONE
        self.calls_seen += 1
        if isinstance(f, PhiV):
            return self.lift(f, lambda x: self.call(x, args, kwargs))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, WrapV):
            return self.call(f.func, args, kwargs)
        if isinstance(f, ExtV):
            a, kw = ReadList(args), ReadDict(kwargs)
            return self.checked(f.name, a, kw, self.models.call_ext(self, f.name, a, kw))
        if isinstance(f, MethV):
            a, kw = ReadList(args), ReadDict(kwargs)
            return self.checked("." + f.name, a, kw, self.models.call_method(self, f.obj, f.name, a, kw))
        if isinstance(f, SpecialV):
            return self.models.call_special(self, f, args, kwargs)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, InstO) and isinstance(o.cls, ClassV):
                v, c = self.find_attr(o.cls, "__call__")
                if v is not None:
                    return self.call(v, [f] + list(args), kwargs)
        if isinstance(f, Node) and f.op == "const" or isinstance(f, (TupleV,)):
            self.event("not-callable", what="None" if f is NONE else "a constant")
            self.do_raise("TypeError", _Pos(ir.cur_loc()), implicit=True)
            return NONE
        # calling an opaque value (a user callable)
        fz = [self.freeze(a) for a in args]
        fk = tuple((k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        self.event("call-opaque", func=self.freeze(f), args=fz, values=list(args))
        n = N("apply", self.freeze(f), tuple(fz), fk)
        return n

    def instantiate(self, cls, args, kwargs):
        inst = self.alloc(InstO(cls))
        init, c = self.find_attr(cls, "__init__")
        if init is not None:
            self.call(init, [inst] + list(args), kwargs)
            if self.st is None:
                return NONE
        else:
            # dataclass / namedtuple style
            if self.models.is_dataclass(self, cls):
                self.models.dataclass_init(self, cls, inst, args, kwargs)
            else:
                o = self.mut(inst)
                o.attrs["__args__"] = TupleV(args)
        return inst

    def bind(self, f, args, kwargs, partial=False):
        """python argument binding -> (mapping, error)"""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        m = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                m[pos[i]] = v
            else:
                extra.append(v)
        err = None
        if extra and a.vararg is None:
            err = f"too many positional arguments for {f.name}"
        if a.vararg is not None:
            m[a.vararg.arg] = TupleV(extra)
        kwonly = [p.arg for p in a.kwonlyargs]
        extrakw = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in m:
                    err = f"multiple values for {k}"
                m[k] = v
            else:
                extrakw[k] = v
        if a.kwarg is not None:
            m[a.kwarg.arg] = ("kwargs", extrakw)
        elif extrakw:
            err = f"unexpected keyword {sorted(extrakw)} for {f.name}"
        return m, err

    def call_func(self, f, args, kwargs):
        qn = f"{f.module}.{f.name}"
        if qn in self.call_hooks:
            r = self.call_hooks[qn](self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        depth = sum(1 for fr in self.frames if fr.func is f)
        if depth >= 3 or len(self.frames) > self.MAX_DEPTH:
            self.event("recursion", func=qn)
            return N("apply", self.freeze(f), tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in sorted(kwargs.items())))
        m, err = self.bind(f, args, kwargs)
        if err:
            self.event("bad-call", func=qn, err=err)
            self.do_raise("TypeError", _Pos(ir.cur_loc()), implicit=True)
            return NONE
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        nd = len(f.defaults)
        for p, d in zip(pos[len(pos) - nd:], f.defaults):
            m.setdefault(p, d)
        for k, d in f.kwdefaults.items():
            m.setdefault(k, d)
        missing = [p for p in pos + [x.arg for x in a.kwonlyargs] if p not in m]
        if missing:
            self.event("bad-call", func=qn, err=f"missing {missing}")
            self.do_raise("TypeError", _Pos(ir.cur_loc()), implicit=True)
            return NONE
        if a.kwarg is not None:
            v = m.get(a.kwarg.arg)
            d = v[1] if isinstance(v, tuple) else {}
            items = {k: x for k, x in d.items() if k != "**"}
            m[a.kwarg.arg] = self.alloc(DictO(items, sym=self.freeze(d["**"]) if "**" in d else None))
        self.functions_seen.add(qn)
        env = EnvO(m, parent=f.env)
        if not isinstance(f.node, ast.Lambda):
            loc, glob, nonl = _assigned_names(f.node)
            env.locals_, env.globals_, env.nonlocals = loc, glob, nonl
        ref = self.alloc(env)
        saved_loc = ir.cur_loc()
        fr = Frame(f, ref.loc, self.st.pc)
        if pos and f.cls is not None:
            fr.self_val = m.get(pos[0])
        entry_len = len(self.st.pc)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                return v
            self.exec_block(f.node.body)
            if self.st is not None:
                fr.returns.append((self.st, NONE))
            if f.is_gen:
                ys = fr.yields
                r = self.merge_many([(s, NONE) for s, _ in fr.returns], entry_len)
                if self.st is None:
                    if ys:
                        self.st = ys[-1][0]
                    else:
                        return NONE
                return SpecialV("gen", yields=ys, func=f, frozen=N("gen", qn, self.new_uid()))
            v = self.merge_many(fr.returns, entry_len)
            return v if v is not None else NONE
        finally:
            self.frames.pop()
            ir.set_loc(saved_loc)


class _ModFunc:
    def __init__(self, module, name="<module>"):
        self.module, self.name = module, name
        self.cls = None


class _Pos:
    def __init__(self, loc):
        self.lineno = loc[1] if loc else 0


def merge_mro(seqs):
    res = []
    seqs = [list(s) for s in seqs]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            c = s[0]
            if not any(any(_same_cls(c, x) for x in t[1:]) for t in seqs):
                break
        else:
            raise ValueError
        res.append(c)
        for s in seqs:
            if _same_cls(s[0], c):
                del s[0]


def _same_cls(a, b):
    if isinstance(a, ExtV) and isinstance(b, ExtV):
        return a.name == b.name
    return a is b


def has_undef(v):
    if v is UNDEF:
        return True
    if isinstance(v, PhiV):
        return has_undef(v.a) or has_undef(v.b)
    return False


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.loc == b.loc
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, ExtV) and isinstance(b, ExtV):
        return a.name == b.name
    return False


CMP_OPS = {"lt", "le", "gt", "ge", "eq", "ne", "is", "in"}


def join_kind(a, b):
    if a == b:
        return a
    if a in NUMERIC and b in NUMERIC:
        return "float" if "float" in (a, b) else "num"
    for k in ("frame", "series", "ndarray"):
        if k in (a, b) and (a in NUMERIC or b in NUMERIC or a in ARRAYISH and b in ARRAYISH):
            return k if (a in ARRAYISH and b in ARRAYISH) else "any"
    return "any"


def retag(n, kind):
    if n.kind == kind:
        return n
    return N(n.op, *n.args, kind=kind)


def mkphi(c, a, b):
    if a is b:
        return a
    if is_const(c, True):
        return a
    if is_const(c, False):
        return b
    if isinstance(c, Node) and c.op == "not":
        return mkphi(c.args[0], b, a)
    if isinstance(c, Node) and c.op == "ne":
        return mkphi(N("eq", *c.args, kind="bool"), b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return mknot(c)
    if a.kind == "bool" and b.kind == "bool":
        if is_const(a, True):
            return disj([c, b])
        if is_const(b, False):
            return conj([c, a])
        if is_const(a, False):
            return conj([mknot(c), b])
        if is_const(b, True):
            return disj([mknot(c), a])
    k = a.kind if a.kind == b.kind else join_kind(a.kind, b.kind)
    return N("phi", c, a, b, kind=k)


def mknot(c):
    if not isinstance(c, Node):
        return N("not", c, kind="bool")
    if c.op == "const":
        return const(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op in ("eq", "ne") and c.kind == "bool":
        return N(NEG[c.op], *c.args, kind="bool")
    return N("not", c, kind="bool")


def conj(cs):
    out = []
    for c in cs:
        if is_const(c, True):
            continue
        if is_const(c, False):
            return FALSE
        if c.op == "and":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return N("and", *out, kind="bool")


def disj(cs):
    out = []
    for c in cs:
        if is_const(c, False):
            continue
        if is_const(c, True):
            return TRUE
        if c.op == "or":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return N("or", *out, kind="bool")


def strip_not(c):
    pos = True
    while c.op == "not":
        c, pos = c.args[0], not pos
    if c.op == "ne":
        return N("eq", *c.args, kind="bool"), not pos
    return c, pos


def mkslice(a, b, c):
    if is_const(c, 1):
        c = NONE
    if is_const(a, 0) and is_const(c, None):
        a = NONE
    return N("slice", a, b, c, kind="slice")


_ALIASES = {
    "np": "numpy", "pd": "pandas",
}


def canon_ext(name):
    return name
