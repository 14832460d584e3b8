"""Every documented option is dispatched and unknown options are rejected."""
from .drive import *
from . import splits

EXPLAIN = """For every parameter that selects among named options the call is interpreted with a symbolic string assumed different from every
documented option, in every combination with the other arguments that reaches the selection: every path has to end in a raise. A path that returns is reported when a concrete undocumented value (another library's option name, the empty string,
a prefix, an extension or another case of a documented option, None) takes it. Each documented option is interpreted as a constant, has to return, has to equal the
function or reference it stands for and has to differ from every other option."""
ASSUMPTIONS = ["assert statements are executed (python -O is not used)"]

MODEL = ("BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck")
nb, mx = dim("nb", 1), dim("mx", 3)


def Xd(S, kind):
    return S.arr("X", kind, (T_, m_), elem="float")


def Cd(S, kind):
    return S.arr("C", kind, (n, n), elem="float")


def Dd(S, kind):
    return S.arr("D", kind, (n, n), rng=NONNEG)


H = X + "clustering.hierarchical."
CODEP = ("pearson-correlation", "spearman-correlation", "var_info")
KINDS = ("ndarray", "frame")


def selectors():
    """(parameter, construct, documented options, tempting undocumented values, call with the option)"""
    for kind in KINDS:
        yield "corr_to_dist_method", f"corr_to_dist [{kind}]", METHODS, ("squared", "abs"), lambda S, o: S.call(DIST + "corr_to_dist", Cd(S, kind), o)
        for given in ({}, {"corr_transformer": sym("shrink", "func")}, {"min_periods": dim("mp", 1)}):
            tag = f"[{kind}, {list(given)}]"
            yield "corr_method", f"get_corr_distance_matrix {tag}", ("pearson", "spearman"), ("kendall",), lambda S, o: S.call(DIST + "get_corr_distance_matrix", Xd(S, kind), corr_method=o, **given)
            for cm in ("pearson", "spearman"):
                yield "corr_to_dist_method", f"get_corr_distance_matrix {cm} {tag}", METHODS, ("squared", "abs"), lambda S, o: S.call(DIST + "get_corr_distance_matrix", Xd(S, kind), const(cm), o, **given)
        for given in ({}, {"bins": b}, {"norm": const(False)}):
            yield "method", f"get_info_distance_matrix [{kind}, {list(given)}]", ("mutual_info", "var_info"), ("info", "kl_divergence_xy"), lambda S, o: S.call(DIST + "get_info_distance_matrix", Xd(S, kind), o, **given)
        for src in ("X", "corr", "both"):
            kw = lambda S: {**({"X": Xd(S, kind)} if src != "corr" else {}), **({"corr": Cd(S, kind)} if src != "X" else {})}
            yield "codependence_method", f"HC({src}) [{kind}]", CODEP[:2] if src == "corr" else CODEP, ("kendall-correlation", "pearson", "spearman", "mutual_info"), lambda S, o: S.call(H + "HC", codependence_method=o, **kw(S))
            for cm in CODEP[:2]:
                yield "corr_to_dist_method", f"HC({src}) {cm} [{kind}]", METHODS, ("squared", "abs"), lambda S, o: S.call(H + "HC", codependence_method=const(cm), corr_to_dist_method=o, **kw(S))
        yield "metric", f"optimize_n_clusters [{kind}]", ("gap", "silhouette"), ("elbow", "gap_statistic", "silhouette_tstat"), lambda S, o: S.call(H + "optimize_n_clusters", S.arr("Zl", "ndarray", (n, const(4))), Dd(S, kind), mx, o, nb)
        yield "metric", f"HC.get_optimal_nclusters [{kind}]", ("gap", "silhouette"), ("elbow", "gap_statistic", "silhouette_tstat"), lambda S, o: S.meth(S.call(H + "HC", dist=Dd(S, kind)), "get_optimal_nclusters", mx, o, nb)
    for unit in (None, splits.UNIT):
        yield "split_type", f"WalkForward [freq {unit}]", ("expanding", "rolling"), ("anchored", "sliding"), lambda S, o: S.call(splits.WALK, splits.lens("emb"), const(0), splits.lens("trw"), splits.lens("tew"), o, *([const(unit)] if unit else []))
    for cls in MODEL:
        for dt in (DT, NONE):
            tag = "given" if dt is DT else "default"
            yield "x0", f"{cls}.path_sample [not fitted, {tag} dt]", (), ("first", "last", "mean"), lambda S, o: sampled(S, cls, o, None, dt)
            for kind in ("ndarray", "dated frame"):
                yield "x0", f"{cls}.path_sample [fitted on {kind}, {tag} dt]", ("first", "last"), ("mean", "middle"), lambda S, o: sampled(S, cls, o, kind, dt)


def sampled(S, cls, x0, kind, dt):
    mod = S.call(X + "sim." + cls)
    if kind:
        S.meth(mod, "fit", dated(S, dim("T", 3), M, kind), DT)
    if S.I.st is None:
        return None
    return S.meth(mod, "path_sample", x0, dt, NS, dim("p", 1), random_state=SEED)


def check(ctx):
    for param, name, options, tempting, f in selectors():
        ctx.run("unknown options are rejected", f"{name} {param}", unknown, ctx, f"{name} {param}", options, tempting, f)
        ctx.run("documented options are dispatched", f"{name} {param}", known, ctx, f"{name} {param}", options, f)
    for a, bspec in same():
        ctx.run("an option stands for its function", a, equals, ctx, a, *bspec)


def variants(options, tempting):
    out = ["no-such-option", ""]
    out += list(tempting)
    for o in options:
        out += [o.upper(), o[:-1], o[:1], o + "s", " " + o, o.replace("_", "-") if "_" in o else o.replace("-", "_")]
    return [None] + [x for x in dict.fromkeys(out) if x not in options]


def compared(S, o, options, v):
    """constants the option is compared with on some path"""
    out, seen = [], set()
    todo = [v] + [c for e in S.I.events for c, _ in e.pc] + [c for c, _ in S.I.st.pc]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        if not isinstance(x, ir.Node) or id(x) in seen:
            continue
        seen.add(id(x))
        if o in x.args:
            out += [a.args[0] for a in x.args if isinstance(a, ir.Node) and a.op == "const" and isinstance(a.args[0], str)]
        todo += x.args
    return tuple(x for x in out if x not in options)


def unknown(ctx, construct, options, tempting, f):
    S = ctx.session()
    o = sym("option", "str")
    lits = tuple((N("eq", o, const(x), kind="bool"), False) for x in options)
    S.I.st.pc = lits
    v = f(S, o)
    v = None if S.I.st is None else S.I.freeze(v)
    ctx.count("rejections_checked")
    rule = "unknown options are rejected"
    if S.I.st is None and any(e.type == "raise" for e in S.I.events):
        ctx.proved(rule, construct, "every path raises for a string that is none of the options")
        return
    bad = []
    for v in variants(options, tuple(tempting) + compared(S, o, options, v)):
        if v is None and construct.endswith(" x0"):
            continue
        S = ctx.session()
        f(S, const(v))
        ctx.count("undocumented_values_tried")
        if S.I.st is not None:
            opaque = any(e.type in ("unknown-ext", "unsupported", "call-opaque") for e in S.I.events)
            if not opaque:
                bad.append(v)
    if bad:
        ctx.refute(rule, construct, f"accepted: {bad[:6]}")
    else:
        ctx.undecided(rule, construct, "not every path raises for an arbitrary string, but every value tried is rejected")


def term(ctx, f, o):
    S = ctx.session()
    v = f(S, const(o))
    if S.I.st is None:
        return None, list(S.I.events)
    return S.I.freeze(v), list(S.I.events)


def known(ctx, construct, options, f):
    rule = "documented options are dispatched"
    got = {}
    for o in options:
        t, ev = term(ctx, f, o)
        ctx.count("options_dispatched")
        if t is None:
            r = [e for e in ev if e.type == "raise" and not e.data.get("implicit")]
            ctx.refute(rule, f"{construct}={o!r}", "the documented option is rejected", r[-1].loc if r else None)
        else:
            got[o] = t
    for i, p in enumerate(options):
        for q in options[i + 1:]:
            if p in got and q in got:
                if got[p] is got[q]:
                    ctx.refute("options differ", f"{construct}: {p!r} and {q!r}", "both options compute the same")
                else:
                    ctx.proved("options differ", f"{construct}: {p!r} and {q!r}")
    if not options:
        ctx.proved(rule, construct, "no option applies here")


def same():
    for kind in KINDS:
        for me in METHODS:
            yield f"corr_to_dist {me} [{kind}]", (lambda S: S.call(DIST + "corr_to_dist", Cd(S, kind), const(me)), lambda S: S.call("spec_distance." + ("frame_dist" if kind == "frame" else "matrix_dist_checked"), Cd(S, kind), const(me)))
            for cm in ("pearson", "spearman"):
                want = lambda S: S.call("spec_distance.corr_matrix", Xd(S, kind), const(cm), const(me))
                yield f"get_corr_distance_matrix {cm} {me} [{kind}]", (lambda S: S.call(DIST + "get_corr_distance_matrix", Xd(S, kind), const(cm), const(me)), want)
                yield f"HC(X) {cm} {me} [{kind}]", (lambda S: S.I.getattr(S.call(H + "HC", Xd(S, kind), codependence_method=const(cm + "-correlation"), corr_to_dist_method=const(me)), "dist"), want)
        for me in ("mutual_info", "var_info"):
            yield f"get_info_distance_matrix {me} [{kind}]", (lambda S: S.call(DIST + "get_info_distance_matrix", Xd(S, kind), const(me)), lambda S: S.call(f"spec_distance.{me}_matrix", Xd(S, kind)))
        yield f"HC(X) var_info [{kind}]", (lambda S: S.I.getattr(S.call(H + "HC", Xd(S, kind), codependence_method=const("var_info")), "dist"), lambda S: S.call("spec_distance.var_info_matrix", Xd(S, kind)))


def equals(ctx, construct, impl, spec):
    S = ctx.session()
    got = impl(S)
    dead = S.I.st is None
    got = None if dead else S.I.freeze(got)
    S = ctx.session()
    want = S.I.freeze(spec(S))
    ctx.count("options_compared")
    if dead:
        ctx.refute("an option stands for its function", construct, "the documented option is rejected")
        return
    compare_values(ctx, "an option stands for its function", construct, got, want)
