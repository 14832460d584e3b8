"""Hash-consed value-graph IR.

A Node is a pure term: op + args.  The abstract interpreter (interp.py) lowers
function bodies into such terms (gated SSA: joins are `phi`, loop-carried values
are `mu`), and the domains (dom_*.py) are bottom-up attribute evaluations over
the graph.  Nothing here runs the analysed code.
"""

from __future__ import annotations

ARRAYISH = {"series", "ndarray", "frame", "index", "dtindex"}
NUMERIC = {"int", "float", "num", "bool"}


class Node:
    __slots__ = ("op", "args", "id", "kind")

    def __repr__(self):
        return show(self)


_table: dict = {}
_nodes: list = []
srcloc: dict = {}  # node id -> (relpath, line, function)
_cur_loc = [None]


def set_loc(loc):
    _cur_loc[0] = loc


def cur_loc():
    return _cur_loc[0]


def _key(a):
    if isinstance(a, Node):
        return ("n", a.id)
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    if isinstance(a, bool):
        return ("b", a)
    if isinstance(a, float):
        return ("f", repr(a))
    if isinstance(a, int):
        return ("i", a)
    return (type(a).__name__, repr(a) if not isinstance(a, str) else a)


def N(op, *args, kind="any"):
    key = (op, kind) + tuple(_key(a) for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.kind = op, args, kind
        n.id = len(_nodes)
        _nodes.append(n)
        _table[key] = n
        if _cur_loc[0] is not None:
            srcloc[n.id] = _cur_loc[0]
    return n


def const(v):
    if v is None:
        k = "none"
    elif isinstance(v, bool):
        k = "bool"
    elif isinstance(v, int):
        k = "int"
    elif isinstance(v, float):
        k = "float"
    elif isinstance(v, str):
        k = "str"
    elif v is Ellipsis:
        k = "ellipsis"
    else:
        k = "any"
    return N("const", v, kind=k)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(n, *vals):
    if not (isinstance(n, Node) and n.op == "const"):
        return False
    if not vals:
        return True
    for v in vals:
        if type(n.args[0]) is type(v) and n.args[0] == v:
            return True
    return False


def cval(n):
    return n.args[0]


def children(n):
    out = []

    def rec(a):
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    for a in n.args:
        rec(a)
    return out


# mu definitions: mu id -> dict(init=Node, next=Node|None, loop=loop descriptor)
mu_defs: dict = {}


def reachable(n, through_mu=True):
    seen, stack = set(), [n]
    out = []
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        stack.extend(children(x))
        if through_mu and x.op == "mu":
            d = mu_defs.get(x.args[0])
            if d:
                for k in ("init", "next"):
                    if isinstance(d.get(k), Node):
                        stack.append(d[k])
    return out


def contains(n, pred, through_mu=True):
    return any(pred(x) for x in reachable(n, through_mu))


def rebuild(n, args):
    return N(n.op, *args, kind=n.kind)


def subst(n, mapping, memo=None):
    """Replace nodes (by identity) in the term."""
    if memo is None:
        memo = {}

    def rec_arg(a):
        if isinstance(a, Node):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(rec_arg(x) for x in a)
        return a

    def rec(x):
        if x.id in memo:
            return memo[x.id]
        if x in mapping:
            memo[x.id] = mapping[x]
            return memo[x.id]
        new = tuple(rec_arg(a) for a in x.args)
        if all((p is q) or (not isinstance(p, (Node, tuple)) and p == q) or p == q for p, q in zip(new, x.args)):
            r = x
        else:
            old = _cur_loc[0]
            _cur_loc[0] = srcloc.get(x.id, old)
            r = rebuild(x, new)
            _cur_loc[0] = old
        memo[x.id] = r
        return r

    return rec(n)


def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, depth) for x in n) + ")"
        return repr(n)
    if n.op == "const":
        return repr(n.args[0])
    if n.op == "sym":
        return str(n.args[0])
    if depth <= 0:
        return f"#{n.id}"
    return f"{n.op}(" + ",".join(show(a, depth - 1) for a in n.args) + ")"


def where(n):
    l = srcloc.get(n.id)
    return f"{l[0]}:{l[1]} in {l[2]}" if l else "?"
