"""Entry points: load a package, make abstract inputs, run one public callable."""

from __future__ import annotations

from . import ir, interp, models
from . import shape as sh
from . import interval as iv
from . import m_core as C
from .ir import N, Node, const, NONE
from .interp import Interp, Package, Ref, TupleV, Arr, ListO, DictO, InstO, State


class Missing(Exception):
    """a public name the property is about does not exist"""


DECL = {}


def sym(name, kind="any", shape=None, rng=None, elem=None):
    """a symbolic input; the same name with another shape or range is another symbol"""
    shp = tuple(const(d) if isinstance(d, int) else d for d in shape) if shape is not None else None
    sig = (kind, tuple(d.id for d in shp) if shp is not None else None, rng, elem)
    seen = DECL.setdefault(name, [])
    if sig not in seen:
        seen.append(sig)
    v = seen.index(sig)
    n = N("sym", name, kind=kind) if v == 0 else N("sym", name, v, kind=kind)
    if shp is not None:
        sh.SYMSHAPE[n.id] = shp
    if rng is not None:
        iv.SYMRANGE[n.id] = rng
    if elem is not None:
        C.ELEMKIND[n.id] = elem
    return n


def lift(a):
    """plain python scalars as constants"""
    return const(a) if a is None or isinstance(a, (bool, int, float, str)) else a


class Session:
    """One interpreter with the package loaded; `fork()`ed states per entry."""

    def __init__(self, root="/repo", package=None, overrides=None):
        self.pk = package or Package(root)
        self.I = Interp(self.pk)
        self.I.overrides = overrides or {}
        for m in sorted(self.pk.trees):
            self.I.load_module(m)
        self.base = self.I.st
        self.load_events = list(self.I.events)
        self.I.events = []

    def reset(self):
        self.I.st = State(dict(self.base.heap), ())
        self.I.events = []
        self.I.frames = []
        self.I.suppress = 0
        self.I.steps = 0
        self.I.memo = {}
        return self.I

    def attr(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        v = self.I.modattr(mod, name)
        if v is None:
            raise Missing(dotted)
        return v

    def arr(self, name, kind="series", shape=None, owner=True, rng=None, elem=None):
        n = sym(name, kind, shape, rng, elem)
        return self.I.alloc(Arr(kind, content=n, owner=name if owner else None))

    def lst(self, items, name=None):
        return self.I.alloc(ListO(items, owner=name))

    def call(self, f, *args, **kwargs):
        if isinstance(f, str):
            f = self.attr(f)
        return self.I.call(f, [lift(a) for a in args], {k: lift(a) for k, a in kwargs.items()})

    def meth(self, obj, name, *args, **kwargs):
        return self.I.call(self.I.getattr(obj, name), [lift(a) for a in args], {k: lift(a) for k, a in kwargs.items()})

    @property
    def events(self):
        return self.I.events
