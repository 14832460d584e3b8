"""Symbolic simulation models for the S properties."""
from sa.ir import const, NONE
from .common import dim, real, INF, POSF
from sa.entry import sym

MODELS = {"BrownianMotion": ("drift", "vol"), "GeometricBrownianMotion": ("drift", "vol"), "OrnsteinUhlenbeck": ("mean", "mrr", "vol")}
SHORT = {"BrownianMotion": "bm", "GeometricBrownianMotion": "gbm", "OrnsteinUhlenbeck": "ou"}
RNG = {"vol": POSF, "mrr": POSF}
NS = dim("n", 1)
DT = real("dt", (1e-12, INF))
SEED = sym("seed", "int")
M = dim("m", 2)


class Case:
    def __init__(self, name, m, cor, paths, x0, scalar=(), flat=False):
        self.name, self.m, self.cor, self.paths, self.x0, self.scalar, self.flat = name, m, cor, paths, x0, scalar, flat


def cases():
    P = dim("p", 1)
    for m, mn in ((M, "m variates"), (const(1), "1 variate"), (const(2), "2 variates")):
        for cor in (True, False):
            if m is not M and cor and mn == "1 variate":
                continue
            for p, pn in ((P, "p paths"), (const(1), "1 path")):
                for x0 in ("row", "scalar"):
                    yield Case(f"{mn}, {'correlated' if cor else 'independent'}, {pn}, {x0} start", m, cor, p, x0)
    for cor in (True, False):
        yield Case(f"m variates, one volatility, {'correlated' if cor else 'independent'}, p paths", M, cor, P, "row", ("vol",))
        yield Case(f"m variates, 1-d parameters, {'correlated' if cor else 'independent'}, p paths", M, cor, P, "row", (), True)
    yield Case("numbers as parameters, p paths", const(1), False, P, "scalar", ("drift", "vol", "mean", "mrr"))


def params(S, cls, case, full=False):
    out = {q: real(q + "s", RNG.get(q, (-INF, INF))) if q in case.scalar else
           S.arr(q, "ndarray", (case.m,) if case.flat else (const(1), case.m), rng=RNG.get(q), elem="float") for q in MODELS[cls]}
    if case.cor:
        out["cor"] = S.arr("cor", "ndarray", (case.m, case.m), elem="float")
    elif full:
        out["cor"] = NONE
    return out


def start(S, case, as_row=True):
    if case.x0 == "row":
        return S.arr("x0", "ndarray", (const(1), case.m), rng=POSF, elem="float")
    return real("x0s", POSF)


def model(S, cls, case):
    return S.call("quantfinlib.sim." + cls, **params(S, cls, case))


def path(S, cls, case, **kw):
    return S.meth(model(S, cls, case), "path_sample", x0=start(S, case), dt=DT, num_steps=NS, num_paths=case.paths, random_state=SEED, **kw)


def data(S, T, m, kind):
    if kind in ("series", "1-d array"):
        return S.arr("x", "ndarray" if kind == "1-d array" else "series", (T,), rng=POSF, elem="float")
    return S.arr("x", kind, (T, m), rng=POSF, elem="float")


FIT_KINDS = ("ndarray", "1-d array", "series", "frame", "dated series", "dated frame")


def dated(S, T, m, kind):
    """fitted data of the given kind; dated kinds have a DatetimeIndex"""
    elem = "dtidx" if kind.startswith("dated") else "float"
    kind = kind.replace("dated ", "")
    if kind in ("series", "1-d array"):
        return S.arr("x", "ndarray" if kind == "1-d array" else "series", (T,), rng=POSF, elem=elem)
    return S.arr("x", kind, (T, m), rng=POSF, elem=elem)


def fitted_model(S, cls, kind, m, T, dt=DT):
    """model fitted to data of the given kind (None: constructed with symbolic parameters), and the data"""
    if kind is None:
        return model(S, cls, Case("", m, False, None, "row")), NONE
    mod = S.call("quantfinlib.sim." + cls)
    x = dated(S, T, m, kind)
    S.meth(mod, "fit", x, dt)
    S.I.events.clear()
    S.I.st.pc = ()
    return mod, x


def reference_values(S, cls, mod, x0, dt, p):
    return S.call(f"spec_sim.{SHORT[cls]}_path", **{q: S.I.getattr(mod, q) for q in MODELS[cls] + ("cor",)}, x0=x0, dt=dt, n=NS, p=p, seed=SEED)


PARTS = ("values", "container", "row labels", "column labels")


def part(S, v, what):
    """one component of a simulated result"""
    n = S.I.freeze(v)
    if what == "container":
        return const(n.kind)
    if what == "values":
        return S.I.freeze(v)
    if n.kind == "ndarray":
        return NONE
    if what == "row labels":
        return S.I.getattr(v, "index")
    return S.I.getattr(v, "name" if n.kind == "series" else "columns")
