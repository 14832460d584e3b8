"""Obligation bookkeeping shared by all property checks."""

from __future__ import annotations

import os
import signal
import sys
import time
import traceback

from . import ir, interp, entry
from .ir import N, Node
from .entry import Session, Missing, sym
from .interp import Package, AnalysisLimit
from .interval import Ivl
from .nf import NF
from .facts import Facts, atoms

PROVED, REFUTED, UNDECIDED = "PROVED", "REFUTED", "UNDECIDED"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


EFFECT_ONLY = {"G01", "G02", "G03"}  # these read events, not values


class Ctx:
    def __init__(self, pid, repo="/repo", tier="quick"):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.obs = []
        self.notes = []
        self.counts = {}
        self._session = None
        self._pkg = None
        self.t0 = time.time()
        self.limit = 60 if tier == "quick" else 150
        self.total = 420 if tier == "quick" else 700  # seconds for the whole check

    # -------------------------------------------------------------- sessions
    def package(self):
        if self._pkg is None:
            self._pkg = Package(self.repo)
            spec = os.path.join(ROOT, "spec")
            for f in sorted(os.listdir(spec)):
                if f.endswith(".py"):
                    with open(os.path.join(spec, f), encoding="utf-8") as fh:
                        self._pkg.add_text("spec_" + f[:-3], "spec/" + f, fh.read())
        return self._pkg

    def session(self):
        if self._session is None:
            self._session = Session(package=self.package())
        self._session.reset()
        self._session.I.strict_args = self.pid not in EFFECT_ONLY
        return self._session

    # ------------------------------------------------------------ obligations
    def add(self, status, rule, construct, detail="", loc=None):
        self.obs.append(dict(status=status, rule=rule, construct=construct, detail=str(detail)[:1500], loc=fmt_loc(loc)))

    def proved(self, rule, construct, detail="", loc=None):
        self.add(PROVED, rule, construct, detail, loc)

    def refute(self, rule, construct, detail="", loc=None):
        self.add(REFUTED, rule, construct, detail, loc)

    def undecided(self, rule, construct, detail="", loc=None):
        self.add(UNDECIDED, rule, construct, detail, loc)

    def decide(self, ok, rule, construct, detail="", loc=None):
        """ok: True / False / None"""
        self.add(PROVED if ok is True else REFUTED if ok is False else UNDECIDED, rule, construct, detail, loc)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def run(self, rule, construct, fn, *args, **kw):
        """evaluate one obligation group; analysis failures become UNDECIDED"""
        def onalarm(sig, frm):
            raise Timeout()

        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(max(2, int(min(self.limit, self.total - (time.time() - self.t0)))))
        try:
            return fn(*args, **kw)
        except Timeout:
            self.undecided(rule, construct, f"analysis budget of {self.limit} s exhausted")
        except Missing as e:
            self.undecided(rule, construct, f"public name not found: {e}")
        except (AnalysisLimit, RecursionError, MemoryError) as e:
            self.undecided(rule, construct, f"analysis limit: {type(e).__name__} {e}")
        except Exception as e:  # an unmodelled construct must never become an alarm
            tb = traceback.extract_tb(e.__traceback__)
            self.undecided(rule, construct, f"unmodelled: {type(e).__name__}: {e} @ {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}")
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


def fmt_loc(l):
    if l is None:
        return None
    if isinstance(l, str):
        return l
    if isinstance(l, tuple) and len(l) == 3:
        return f"{l[0]}:{l[1]} in {l[2]}"
    return str(l)


# ---------------------------------------------------------------- comparing terms
def positivity(n):
    lo, _ = Ivl().get(n)
    return lo > 0


def make_nf():
    return NF(positive=positivity)


MAX_SPLIT, MAX_LEAVES = 24, 80


def phi_conds(n):
    out = []
    for x in ir.reachable(n):
        if x.op == "phi" and x.args[0] not in out:
            out.append(x.args[0])
    return out


def eq_subst(cond, val):
    """a substitution implied by the assumption, e.g. window == 1"""
    c, v = cond, val
    while c.op == "not":
        c, v = c.args[0], not v
    if (c.op == "eq" and v) or (c.op == "ne" and not v):
        a, b = c.args
        if a.op == "const" and b.op == "sym":
            return {b: a}
        if b.op == "const" and a.op == "sym":
            return {a: b}
    return {}


def degenerate(cond, val):
    """assumption that only restricts to empty / size-0 or NaN-only data"""
    c, v = cond, val
    while c.op == "not":
        c, v = c.args[0], not v
    if c.op in ("isempty",) and v:
        return True
    if c.op == "and" and v:
        return any(degenerate(x, True) for x in c.args)
    if c.op in ("eq", "le", "lt") and v:
        a, b = c.args
        if a.op in ("sizeof", "dim", "len", "sym") and a.kind == "int" and b.op == "const" and b.args[0] in (0, 1):
            lo, _ = Ivl().get(a)
            return b.args[0] == 0 or lo > b.args[0]
    return False


def congruent(a, b, memo=None):
    """structural congruence (no algebra): the cheap sufficient test"""
    while a.op in ("values", "mkseries", "copy"):
        a = a.args[0]
    while b.op in ("values", "mkseries", "copy"):
        b = b.args[0]
    if a is b:
        return True
    memo = {} if memo is None else memo
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        memo[k] = False
        r = memo[k] = a.op == b.op and len(a.args) == len(b.args) and all(_carg(x, y, memo) for x, y in zip(a.args, b.args))
    return r


def _carg(x, y, memo):
    if isinstance(x, ir.Node) and isinstance(y, ir.Node):
        return congruent(x, y, memo)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_carg(p, q, memo) for p, q in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
        return x == y
    return type(x) is type(y) and x == y


def budget(seconds, fn, *args):
    """run fn with its own time budget inside the obligation's; Timeout on expiry"""
    remaining = signal.alarm(0)
    if remaining and remaining <= seconds:
        signal.alarm(remaining)
        return fn(*args)
    t0 = time.time()
    signal.alarm(seconds)
    try:
        return fn(*args)
    finally:
        signal.alarm(0)
        if remaining:
            signal.alarm(max(1, int(remaining - (time.time() - t0))))


BINDERS = {"maplist", "foldsum", "scan", "scanpart", "mapstore", "mapstore2"}


def free_bound(x, memo):
    """levels of the bound variables that occur free in x (such a term has no value of its own and must not be cut)"""
    r = memo.get(x.id)
    if r is not None:
        return r
    memo[x.id] = frozenset()
    if x.op in ("bv", "acc"):
        r = frozenset([x.args[0]])
    elif x.op in ("combix", "prodix") and isinstance(x.args[0], tuple) and x.args[0][:1] == ("b",):
        r = frozenset([x.args[0][1]])
    else:
        r = frozenset()
    for c in ir.children(x):
        r |= free_bound(c, memo)
    if x.op in BINDERS:
        r -= {c.args[0] for c in x.args if isinstance(c, ir.Node) and c.op == "bv"}
    memo[x.id] = r
    return r


def abstract_common(impl, spec):
    """replace the maximal subterms both sides share by fresh symbols (value numbering cut)"""
    common = {n.id for n in ir.reachable(impl)} & {n.id for n in ir.reachable(spec)}
    table, memo, fmemo = {}, {}, {}

    def cut(x):
        return x.id in common and not free_bound(x, fmemo) and x.op not in ("const", "sym", "idx", "slice", "bv", "list", "tuple", "dict") and (x.kind in interp_arrayish())

    def rec(x):
        if x.id in memo:
            return memo[x.id]
        if cut(x):
            y = table.get(x.id)
            if y is None:
                y = entry.sym(f"shared{x.id}", x.kind, shape_of(x), Ivl().get(x))
                table[x.id] = y
        else:
            new = tuple(arg(a) for a in x.args)
            y = x if new == x.args else ir.rebuild(x, new)
        memo[x.id] = y
        return y

    def arg(a):
        if isinstance(a, ir.Node):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(arg(q) for q in a)
        return a

    return rec(impl), rec(spec), len(table)


def interp_arrayish():
    return ir.ARRAYISH | ir.NUMERIC


def shape_of(x):
    from .shape import shape
    try:
        return shape(x)
    except Exception:
        return None


def equivalent_conds(c, n):
    """guards of n that are algebraically the same as c (or its negation)"""
    out = []
    cs = [x for x in phi_conds(n) if x is not c]
    if not cs:
        return out

    def work():
        nf = make_nf()
        e = nf.cond(c)
        for x in cs:
            f = nf.cond(x)
            if nf.eq(e, f):
                out.append((x, True))
            elif nf.eq(1 - e, f):
                out.append((x, False))
    try:
        budget(15, work)
    except (Timeout, RecursionError):
        pass
    except Exception:
        pass
    return out


LOOPED = {"ix", "combix", "prodix", "loopcond", "while"}


def loop_vars(n):
    """loop-carried values in depth-first order"""
    out, seen = [], set()

    def rec(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == "mu":
            out.append(x)
            d = ir.mu_defs[x.args[0]]
            for k in ("init", "next"):
                if isinstance(d.get(k), ir.Node):
                    rec(d[k])
        for c in ir.children(x):
            rec(c)
    rec(n)
    return out


def rename_loops(n, uids, mus, memo):
    def arg(a):
        if isinstance(a, ir.Node):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(arg(q) for q in a)
        return a

    def rec(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == "mu":
            y = mus.get(x, x)
        else:
            new = tuple(arg(a) for a in x.args)
            if x.op in LOOPED and new and new[0] in uids:
                new = (uids[new[0]],) + new[1:]
            y = x if new == x.args else ir.rebuild(x, new)
        memo[x.id] = y
        return y
    return rec(n)


def align_loops(impl, spec):
    """pair the loops of two terms; yields (impl, spec', [(next, next')], unambiguous) for each pairing of the carried values"""
    import itertools
    va, vb = loop_vars(impl), loop_vars(spec)
    ga, gb = {}, {}
    for v in va:
        ga.setdefault(v.args[0][0], []).append(v)
    for v in vb:
        gb.setdefault(v.args[0][0], []).append(v)
    if not ga or len(ga) != len(gb) or any(len(ga[x]) != len(gb[y]) for x, y in zip(ga, gb)):
        return
    if any(ir.mu_defs[v.args[0]].get("breaks") for v in va + vb) or max(len(v) for v in ga.values()) > 4:
        return
    uids = {y: x for x, y in zip(ga, gb)}
    if any(x == y for x, y in uids.items()):
        return
    options = []
    for perms in itertools.islice(itertools.product(*[itertools.permutations(ga[x]) for x in ga]), 64):
        mus = {b: a for p, y in zip(perms, gb) for a, b in zip(p, gb[y])}
        memo = {}
        ren = lambda t: rename_loops(t, uids, mus, memo)
        good, nexts = True, []
        for b, a in mus.items():
            da, db = ir.mu_defs[a.args[0]], ir.mu_defs[b.args[0]]
            if a.kind != b.kind and not {a.kind, b.kind} <= {"int", "float", "num", "any"}:
                good = False
                break
            la, lb = da["loop"], ren(db["loop"])
            if not (la is lb or congruent(la, lb)) and not (la.op == lb.op == "iter" and proved_equal(la.args[0], lb.args[0])):
                good = False
                break
            if not proved_equal(da["init"], ren(db["init"])):
                good = False
                break
            if (da.get("test") is None) != (db.get("test") is None):
                good = False
                break
            if da.get("test"):
                (ca, pa), (cb, pb) = da["test"], db["test"]
                cb = ren(cb)
                nexts.append((ca if pa else interp.mknot(ca), cb if pb else interp.mknot(cb)))
            nexts.append((da["next"], ren(db["next"])))
        if good:
            options.append((impl, ren(spec), nexts))
    for o in options:
        yield o + (len(options) == 1,)


def proved_equal(a, b):
    if a is b or congruent(a, b):
        return True
    if not isinstance(a, ir.Node) or not isinstance(b, ir.Node):
        return False
    return all(r[0] == PROVED for r in compare_terms(a, b, loops=False))


def nan_guard(x):
    """(kept branch, condition) of a selection whose other branch is nan and whose condition is an (in)equality"""
    if x.op not in ("where", "swhere", "phi"):
        return None
    c, a, b = (x.args[1], x.args[0], x.args[2]) if x.op == "swhere" else x.args[:3]
    keep = b if a.op == "nan" else a if b.op == "nan" else None
    while c.op in ("not", "binv"):
        c = c.args[0]
    return (keep, c) if keep is not None and c.op in ("eq", "ne") else None


def zero_over_zero(impl, spec):
    """one side masks the zeros of something that is a divisor of the other side"""
    def guards(n):
        return {x.id for x in ir.reachable(n) if nan_guard(x)}
    signs = [x for t in (impl, spec) for x in ir.reachable(t) if x.op == "truediv" for y in ir.reachable(x.args[1]) if y.op == "sign"]
    return bool(signs) and guards(impl) != guards(spec)


def sign_free(n):
    """nan masks dropped, |u| as u*sign(u), and 1/sign(u) as sign(u): the same value wherever u is not zero"""
    memo = {}

    def arg(a):
        return rec(a) if isinstance(a, Node) else tuple(map(arg, a)) if isinstance(a, tuple) else a

    def split(d):
        """(sign factors, rest) of a divisor"""
        if d.op == "sign":
            return [d], None
        if d.op == "mul":
            ss, rest = [], []
            for a in d.args:
                s, r = split(a)
                ss += s
                rest += [r] if r is not None else []
            r = rest[0] if rest else None
            for q in rest[1:]:
                r = N("mul", r, q, kind=d.kind)
            return ss, r
        return [], d

    def rec(x):
        if x.id not in memo:
            g = nan_guard(x)
            if g:
                memo[x.id] = rec(g[0])
            else:
                y = ir.rebuild(x, [arg(a) for a in x.args])
                if y.op == "abs":
                    y = N("mul", y.args[0], N("sign", y.args[0], kind=y.kind), kind=y.kind)
                elif y.op == "truediv":
                    ss, r = split(y.args[1])
                    v = y.args[0]
                    for q in ss:
                        v = N("mul", v, q, kind=y.kind)
                    y = v if ss and r is None else N("truediv", v, r, kind=y.kind) if ss else y
                memo[x.id] = y
        return memo[x.id]
    return rec(n)


def compare_terms(impl, spec, nf=None, depth=0, assumptions=(), extra_known=(), loops=True, leaves=None):
    """-> list of (status, detail, assumptions)"""
    if congruent(impl, spec):
        return [(PROVED, "congruent to the reference term", assumptions)]
    if loops and depth == 0:
        best = None
        for i2, s2, nexts, sure in align_loops(impl, spec):
            rs = compare_terms(i2, s2, loops=False, extra_known=extra_known)
            for a, b in nexts:
                rs += [(st, "loop step: " + d if st != PROVED else d, ass) for st, d, ass in compare_terms(a, b, loops=False, extra_known=extra_known)]
            if all(r[0] == PROVED for r in rs):
                return rs
            if not sure:
                rs = [(UNDECIDED if st == REFUTED else st, d, ass) for st, d, ass in rs]
            best = rs
        if best is not None:
            return best
    usable = lambda c: not ir.contains(c, lambda x: x.op in ("phi", "bv"))
    cs = [x for c in phi_conds(impl) + phi_conds(spec) if usable(c) for x in atoms(c) if x.kind not in ir.ARRAYISH]
    if impl.kind == "bool" and spec.kind == "bool" and (depth > 0 or len(set(atoms(impl) + atoms(spec))) > 6):
        cs += [x for x in atoms(impl) + atoms(spec) if usable(x) and x.kind not in ir.ARRAYISH]
    leaves = leaves if leaves is not None else [0]
    if cs and depth < MAX_SPLIT and leaves[0] < MAX_LEAVES:
        c = cs[0]
        out = []
        for v in (True, False):
            if degenerate(c, v):
                out.append((UNDECIDED, f"degenerate data under {ir.show(c, 4)}={v}", assumptions + ((c, v),)))
                continue
            lits = assumptions + ((c, v),)
            for c2, same in equivalent_conds(c, spec) + equivalent_conds(c, impl):
                lits += ((c2, v == same),)
            facts = Facts(lits)
            if facts.bad:
                continue
            i2, s2 = facts.simplify(impl), facts.simplify(spec)
            sub = eq_subst(c, v)
            if sub:
                i2, s2 = ir.subst(i2, sub), ir.subst(s2, sub)
            out += compare_terms(i2, s2, None, depth + 1, lits, extra_known, loops, leaves)
        return out
    leaves[0] += 1
    def attempt(i, s_, expand, nanfree=False):
        nf = NF(positive=positivity, expand_var=expand, nanfree=nanfree)
        es = nf.expr(s_)
        ub = set(nf.unknown)
        ei = nf.expr(i)
        new = nf.unknown - ub - set(extra_known)
        if nf.eq(ei, es):
            return True, "", new
        return False, f"value is {nf.show(ei, 3)} ; documented definition is {nf.show(es, 3)}", new

    ai, as_, k = abstract_common(impl, spec)
    small = None
    if k:
        try:
            small = budget(20, attempt, ai, as_, False)
            if small[0]:
                return [(PROVED, f"equal to the reference term modulo {k} shared subterms", assumptions)]
        except Timeout:
            pass
    full = None
    try:
        full = budget(30, attempt, impl, spec, False)
        if not full[0]:
            full = budget(30, attempt, impl, spec, True)
    except Timeout:
        pass
    if full is None and small is not None and not small[2]:
        try:
            full = budget(20, attempt, ai, as_, True)
        except Timeout:
            full = small
    if full is None:
        return [(UNDECIDED, "normal form exceeds the analysis budget", assumptions)]
    if full[0]:
        return [(PROVED, "equal to the reference term", assumptions)]
    if full[2]:
        return [(UNDECIDED, f"differs, but uses operators without an algebraic model: {sorted(map(str, full[2]))}", assumptions)]
    if cs:
        return [(UNDECIDED, "differs, but more cases than the analysis budget allows", assumptions)]
    if any(x.op in ("ge", "le") and x.kind not in ir.ARRAYISH or x.op in ("where", "getitem", "sqrt", "pow") and x.kind in ir.ARRAYISH for t in (impl, spec) for x in ir.reachable(t)):
        try:
            if budget(10, attempt, impl, spec, True, True)[0]:
                return [(UNDECIDED, "differs at most where a compared number is NaN or a root is undefined", assumptions)]
        except Timeout:
            pass
    if zero_over_zero(impl, spec):
        i0, s0 = sign_free(impl), sign_free(spec)
        try:
            if budget(10, attempt, i0, s0, True)[0]:
                return [(UNDECIDED, "differs at most where the definition divides zero by zero", assumptions)]
        except Timeout:
            pass
    why = full[1]
    if assumptions:
        why = "when " + ", ".join(f"{ir.show(c, 4)} is {v}" for c, v in assumptions) + ": " + why
    return [(REFUTED, why, assumptions)]
