"""C10: min / max / values_in_range over a window respect endpoint closedness exactly."""
from .common import FORMS

ID = "C10"


def taken(ctx, F, fclosed, a, b, iclosed):
    """[(condition, value)]: the values F takes on the interval, with the condition for each to be taken"""
    out = []
    n = len(F.pts)
    for i, v in enumerate(F.vals):
        cs = [ctx.Not(ctx.isnan(v))]
        if i > 0 and b is not None:
            cs.append(F.pts[i - 1] < b)
        if i < n and a is not None:
            cs.append(a < F.pts[i])
        out.append((ctx.And(*cs), v))
    if a is not None and iclosed in ("left", "both"):
        v = F.at(a, fclosed)
        out.append((ctx.Not(ctx.isnan(v)), v))
    if b is not None and iclosed in ("right", "both"):
        v = F.at(b, fclosed)
        out.append((ctx.Not(ctx.isnan(v)), v))
    return out


def is_member(ctx, x, S):
    return ctx.Or(*[ctx.And(c, x == v) for c, v in S])


def prove_extreme(ctx, x, S, low, label, empty_ok=False):
    """x is the least/greatest element of S"""
    x = ctx.num(x)
    some = ctx.Or(*[c for c, v in S])
    if not bool(some):
        if empty_ok:
            ctx.prove(ctx.isnan(x), label + " of nothing is undefined")
        return
    ctx.prove(is_member(ctx, x, S), label + " is a value taken")
    for c, v in S:
        ctx.prove(ctx.Or(ctx.Not(c), x <= v if low else v <= x), label + " is extreme")


def window(ctx, dom=None):
    kinds = ctx.get("w", ["p", "p"])
    xs, labels = [], []
    for i, k in enumerate(kinds):
        if k == "p":
            x = ctx.real("ab"[i], dom=True)
            xs.append(x)
            labels.append(ctx.dom.pt(x))
        else:
            xs.append(None)
            labels.append(None if k == "none" else (-ctx.inf, ctx.inf)[i])
    if xs[0] is not None and xs[1] is not None:
        if ctx.get("point"):
            ctx.assume(xs[0] == xs[1])
        else:
            ctx.assume(xs[0] < xs[1])
    return xs, (list(labels) if ctx.get("list") else tuple(labels))


def setup(ctx):
    closed = ctx.get("closed", "left")
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), closed,
                      vtype=ctx.get("vtype", "f"))
    (a, b), w = window(ctx)
    ic = ctx.get("ic")
    S = taken(ctx, F, closed, a, b, ic or closed)
    args = [] if ctx.get("nowin") else [w]
    kw = {} if ic is None else {"closed": ic}
    return f, S, args, kw


def values(ctx):
    f, S, args, kw = setup(ctx)
    got = [ctx.num(x) for x in list(f.values_in_range(*args, **kw))]
    ctx.observe("v", got)
    for i, x in enumerate(got):
        ctx.prove(is_member(ctx, x, S), "values_in_range has a value not taken")
        for y in got[:i]:
            ctx.prove(ctx.Not(x == y), "values_in_range repeats a value")
    for c, v in S:
        ctx.prove(ctx.Or(ctx.Not(c), *[x == v for x in got]), "values_in_range misses a value")


def minmax(ctx):
    f, S, args, kw = setup(ctx)
    ctx.assume(ctx.Or(*[c for c, v in S]))
    how = ctx.get("how", "agg")
    if how == "method":
        lo, hi = f.min(), f.max()
    elif how == "agg":
        lo, hi = f.agg("min", *args, **kw), f.agg("max", *args, **kw)
    else:
        r = f.agg(["min", "max"], *args, **kw)
        ctx.prove(list(r.index) == ["min", "max"], "labels of agg(['min', 'max'])")
        lo, hi = r["min"], r["max"]
    ctx.observe("m", [ctx.num(lo), ctx.num(hi)])
    prove_extreme(ctx, lo, S, True, "min")
    prove_extreme(ctx, hi, S, False, "max")


HARNESSES = {"values": values, "minmax": minmax}
BOUNDS = {
    "quick": "functions with 0..3 step points, any window (endpoints on, between or outside step points, or unbounded), "
             "4 interval closednesses and the default, both function conventions, every internal form",
    "thorough": "0..4 step points",
}
IC = ("left", "right", "both", "neither", None)


def configs(tier):
    big = tier == "thorough"
    for n in range(0, 5 if big else 4):
        for closed in ("left", "right"):
            for form in FORMS if n else ("V",):
                yield "values", dict(n=n, closed=closed, form=form, nowin=True, w=["none", "none"])
                yield "minmax", dict(n=n, closed=closed, form=form, nowin=True, w=["none", "none"], how="method")
                if n > 2 and form not in ("V", "D"):
                    continue
                if n > 3 and form != "V":
                    continue
                for ic in IC:
                    if form not in ("V", "D") and ic not in ("both", "neither"):
                        continue
                    b = dict(n=n, closed=closed, form=form, ic=ic)
                    yield "values", b
                    yield "minmax", dict(b, how="agg" if n % 2 else "list")
                    if n > 2:
                        continue
                    if form == "V":
                        for w in (["none", "p"], ["p", "none"], ["inf", "p"], ["p", "inf"], ["inf", "inf"],
                                  ["none", "none"]):
                            yield "values", dict(b, w=w)
                            yield "minmax", dict(b, w=w, how="agg" if n != 1 else "list")
        for closed in ("left", "right"):
            yield "values", dict(n=n, closed=closed, ic="both", point=True)
    for n in (1, 2):
        for closed in ("left", "right"):
            for ic in IC:
                yield "values", dict(n=n, closed=closed, ic=ic, vtype="i", nan=False)
                yield "minmax", dict(n=n, closed=closed, ic=ic, vtype="i", nan=False)
                yield "values", dict(n=n, closed=closed, ic=ic, list=True)
    for dom in ("int", "ts", "tz", "dst", "td"):
        for n in (0, 1, 2):
            for closed in ("left", "right"):
                for ic in IC:
                    if n == 2 and ic == "left":
                        continue
                    b = dict(n=n, closed=closed, ic=ic, dom=dom)
                    yield "values", b
                    yield "minmax", dict(b, how="agg" if n % 2 else "list")
                    if n == 1:
                        for w in (["none", "p"], ["p", "inf"]):
                            yield "values", dict(b, w=w)
                            yield "minmax", dict(b, w=w)
                yield "minmax", dict(n=n, closed=closed, dom=dom, nowin=True, w=["none", "none"], how="method")
