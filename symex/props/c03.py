"""C03: evaluation honours one-sided limits and the closed side; all views agree."""
from ..ctx import Fn
from . import common
from .common import FORMS, apply_op

ID = "C03"


def build(ctx):
    return ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))


def labels_of(ctx, seq):
    return [ctx.dom.unpt(x) for x in list(seq)]


def check_views(ctx, s, F, closed, order="fvcn"):
    """every structural view of s describes F"""
    seen = {}
    for o in order:
        if o == "f":
            seen[o] = s.to_frame()
        elif o == "v":
            seen[o] = s.step_values
        elif o == "c":
            seen[o] = s.step_changes
        elif o == "n":
            seen[o] = (s.number_of_steps, s.step_points)
    n, sp = seen["n"]
    ctx.prove(n == len(sp), "number_of_steps == len(step_points)")
    sv, sch, fr = seen["v"], seen["c"], seen["f"]
    pts = labels_of(ctx, sv.index)
    ctx.prove(len(sv) == n, "one step value per step point")
    ctx.prove(len(sch) == n, "one step change per step point")
    if len(sv) != n or len(sch) != n:
        return
    ctx.prove_same(s.initial_value, F.vals[0], "initial_value is the value towards -inf")
    for a, b in zip(pts, pts[1:]):
        ctx.prove(a < b, "step points strictly increasing")
    if not ctx.dom.instant:  # step_points is a numpy array: timestamps come back as naive datetime64
        for a, b in zip(pts, labels_of(ctx, sp)):
            ctx.prove_same(b, a, "step_points equal the index of step_values")
    for a, b in zip(pts, labels_of(ctx, sch.index)):
        ctx.prove_same(b, a, "step_changes indexed by the step points")
    vals = [ctx.num(v) for v in list(sv.values)]
    ctx.prove_same_fn(Fn(pts, [ctx.num(s.initial_value)] + vals), F, "step_values")
    # tiling
    starts, ends, fv = list(fr["start"]), list(fr["end"]), list(fr["value"])
    ctx.prove(len(starts) == n + 1 and len(ends) == n + 1, "to_frame has one row per piece")
    if len(starts) != n + 1:
        return
    ctx.prove(isinstance(starts[0], type(-ctx.inf)), "to_frame starts at -inf")
    ctx.prove(isinstance(ends[-1], type(ctx.inf)), "to_frame ends at inf")
    for a, b, p in zip(starts[1:], ends[:-1], pts):
        ctx.prove_same(ctx.dom.unpt(a), p, "to_frame starts")
        ctx.prove_same(ctx.dom.unpt(b), p, "to_frame ends")
    for a, b in zip(fv, [ctx.num(s.initial_value)] + vals):
        ctx.prove_same(a, b, "to_frame values")
    ctx.observe("frame", [ctx.num(v) for v in fv])
    # changes
    acc = ctx.num(s.initial_value)
    if not bool(ctx.Or(*[ctx.isnan(v) for v in [acc] + vals])):
        for c, v in zip(list(sch.values), vals):
            acc = acc + ctx.num(c)
            ctx.prove_same(acc, v, "initial value + running sum of step_changes")
    ctx.prove(s.closed == closed, "closed side")


def views(ctx):
    f, F = build(ctx)
    check_views(ctx, f, F, ctx.get("closed", "left"), ctx.get("order", "fvcn"))


def query(ctx, x, how):
    """a scalar query in the flavour asked for"""
    p = ctx.dom.pt(x)
    if how == "np64" and not ctx.dom.numeric:
        return p.to_numpy()
    if how == "py" and not ctx.dom.numeric:
        return p.to_pytimedelta() if ctx.dom.kind == "td" else p.to_pydatetime()
    return p


def check_eval(ctx, s, F, closed, x, q, label=""):
    """scalar forms at one point"""
    for side in ("left", "right"):
        got = s.limit(q, side)
        ctx.prove_same(got, F.limit(x, side), label + "limit(x, %s)" % side)
        r = s.limit(q, side, include_index=True)
        check_indexed(ctx, r, [x], [F.limit(x, side)], label + "limit(x, include_index)")
    at = F.at(x, closed)
    ctx.prove_same(s.sample(q), at, label + "sample(x)")
    ctx.prove_same(s(q), at, label + "f(x)")
    check_indexed(ctx, s.sample(q, include_index=True), [x], [at], label + "sample(x, include_index)")
    ctx.observe("at" + label, at)


def check_indexed(ctx, r, xs, want, label):
    ctx.prove(isinstance(r, ctx.pd.Series), label + " returns a Series")
    if not isinstance(r, ctx.pd.Series):
        return
    idx, vals = list(r.index), list(r.values)
    ctx.prove(len(idx) == len(xs), label + " length")
    if len(idx) != len(xs):
        return
    for i, x, v, w in zip(idx, xs, vals, want):
        ctx.prove_same(ctx.dom.unpt(i), x, label + " index")
        ctx.prove_same(v, w, label + " values")


def evaluate(ctx):
    f, F = build(ctx)
    x = ctx.real("x", dom=True)
    check_eval(ctx, f, F, ctx.get("closed", "left"), x, query(ctx, x, ctx.get("how")))


def container(ctx, xs, how):
    pd, np = ctx.pd, ctx.np
    ps = ctx.dom.pts(xs)
    if how == "list":
        return ps
    if how == "tuple":
        return tuple(ps)
    if how == "array":
        return pd.Series(ps).values if not ctx.dom.numeric else np.array(ps)
    if how == "series":
        return pd.Series(ps, index=[7, 3, 3, 9][:len(ps)])
    if how == "index":
        return pd.Index(ps)
    raise ValueError(how)


def vector(ctx):
    """vector queries agree element by element with scalar evaluation"""
    f, F = build(ctx)
    closed = ctx.get("closed", "left")
    xs = [ctx.real("x%d" % i, dom=True) for i in range(ctx.get("m", 2))]
    if ctx.get("repeat"):
        xs = xs + xs[:1]
    q = container(ctx, xs, ctx.get("how", "list"))
    for side in ("left", "right"):
        want = [F.limit(x, side) for x in xs]
        got = f.limit(q, side)
        ctx.prove(len(got) == len(xs), "limit(vector) length")
        for a, b in zip(list(got), want):
            ctx.prove_same(a, b, "limit(vector, %s)" % side)
        check_indexed(ctx, f.limit(q, side, include_index=True), xs, want, "limit(vector, include_index)")
    want = [F.at(x, closed) for x in xs]
    for got, lab in ((f.sample(q), "sample(vector)"), (f(q), "f(vector)")):
        ctx.prove(len(got) == len(xs), lab + " length")
        for a, b in zip(list(got), want):
            ctx.prove_same(a, b, lab)
    check_indexed(ctx, f.sample(q, include_index=True), xs, want, "sample(vector, include_index)")
    check_indexed(ctx, f(q, include_index=True), xs, want, "f(vector, include_index)")
    ctx.observe("want", want)


def opviews(ctx):
    """views and evaluation of a result agree with one another"""
    c = ctx.get("closed", "left")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), ctx.get("nan", True), c)
    g = G = None
    if ctx.get("op") in common.BINARY:
        g, G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), ctx.get("nan_g", True), c)
    h, _ = apply_op(ctx, ctx.get("op"), f, F, g, G)
    H = ctx.fn(h, key="h")
    check_views(ctx, h, H, h.closed)
    x = ctx.real("x", dom=True)
    q = ctx.dom.pt(x)
    for side in ("left", "right"):
        ctx.prove_same(h.limit(q, side), H.limit(x, side), "limit of the result")
    ctx.prove_same(h(q), H.at(x, h.closed), "sample of the result")
    # after further mutation of a copy both views must still agree
    if ctx.get("then"):
        k = h.copy()
        k.step_values
        k.step_changes
        k.layer(q, None, 1)
        check_views(ctx, k, ctx.fn(k), h.closed, "cvfn")


HARNESSES = {"views": views, "evaluate": evaluate, "vector": vector, "opviews": opviews}
BOUNDS = {
    "quick": "functions with 0..3 step points in every internal form; one arbitrary scalar query, 2-3 vector queries; "
             "results of every catalogued operation on functions with 1 (unary) or 1+1 (binary) step points",
    "thorough": "functions with 0..4 step points; 3 vector queries; results of operations on 2 / 2+1 step points",
}


def configs(tier):
    big = tier == "thorough"
    for n in range(0, 5 if big else 4):
        for form in FORMS if n else ("V",):
            for closed in ("left", "right"):
                for order in ("fvcn", "cnvf", "vfnc"):
                    yield "views", dict(n=n, form=form, closed=closed, order=order)
                if n <= 2 or big or form in ("V", "D"):
                    yield "evaluate", dict(n=n, form=form, closed=closed)
                if n <= 2 and form in ("V", "VD", "D") or big:
                    yield "vector", dict(n=n, form=form, closed=closed)
    for closed in ("left", "right"):
        for how in ("list", "tuple", "array", "series", "index"):
            for n in (0, 1) if not big else (0, 1, 2):
                yield "vector", dict(n=n, how=how, closed=closed, repeat=True)
                yield "vector", dict(n=n, how=how, closed=closed, m=1)
                yield "vector", dict(n=n, how=how, closed=closed, m=3 if big else 2, nan=False)
        for dom in ("int", "ts", "tz", "dst", "td"):
            for n in (0, 1, 2):
                for how in ("ts", "np64", "py"):
                    if how != "ts" and (dom == "int" or (dom in ("tz", "dst"))):
                        continue
                    yield "evaluate", dict(n=n, dom=dom, closed=closed, how=how)
                yield "views", dict(n=n, dom=dom, closed=closed)
                yield "views", dict(n=n, dom=dom, closed=closed, form="D")
                for how in ("list", "series", "index") + (("array",) if dom not in ("tz", "dst") else ()):
                    yield "vector", dict(n=n, dom=dom, closed=closed, how=how, m=2 if n < 2 else 1)
    yield "views", dict(n=2, vtype="i", nan=False)
    for op in common.UNARY:
        for n in (0, 1, 2) if big else (0, 1):
            for form in ("V", "VD", "D") if n else ("V",):
                yield "opviews", dict(op=op, nf=n, ff=form, then=n < 2)
    for op in common.BINARY:
        for nf, ng in ((1, 1), (0, 1), (1, 0)) + (((2, 1), (1, 2)) if big else ()):
            for ff, fg in (("V", "V"), ("D", "D"), ("VD", "D")):
                if (not nf and ff != "V") or (not ng and fg != "V"):
                    continue
                yield "opviews", dict(op=op, nf=nf, ng=ng, ff=ff, fg=fg, then=nf + ng < 2)
