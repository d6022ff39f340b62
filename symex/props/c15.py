"""C15: the closed side is preserved, and opposite sides are never silently merged."""
from ..ctx import Fn
from . import c13
from .common import BIN, BINARY, FORMS, METHOD, PYOP, RMETHOD, UNARY, apply_op

ID = "C15"


def mismatch(ctx, e):
    return type(e).__name__ == "ClosedMismatchError"


def good(ctx, h, side, label, H=None):
    ctx.prove(h.closed == side, label + ": closed side")
    sv = h.step_values
    if H is None:
        return
    for p in list(sv.index):  # the side is what sampling at a step point shows
        x = ctx.dom.unpt(p)
        ctx.prove_same(ctx.num(h(p)), H.at(x, side), label + ": value at a step point")


def unary(ctx):
    op, side = ctx.get("op"), ctx.get("closed")
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), side)
    h, H = c13.run(ctx, op, f, F, f, F, "o")
    good(ctx, h, side, op, H)
    if ctx.get("op2"):
        h2, H2 = c13.run(ctx, ctx.get("op2"), h, H, h, H, "p")
        good(ctx, h2, side, "%s then %s" % (op, ctx.get("op2")), H2)


def binary(ctx):
    op, cf, cg = ctx.get("op"), ctx.get("closed"), ctx.get("closed_g")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), ctx.get("nan", True), cf)
    g, G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), ctx.get("nan", True), cg)
    how = ctx.get("how")
    if how == "method":
        h, e = ctx.call(lambda: getattr(f, METHOD[op])(g))
        H = None
    elif how == "rmethod":
        h, e = ctx.call(lambda: getattr(g, RMETHOD[op])(f))
        H = None
    else:
        r, e = ctx.call(lambda: apply_op(ctx, op, f, F, g, G))
        h, H = r or (None, None)
    if F.pts and G.pts and cf != cg:
        ctx.prove(e is not None and mismatch(ctx, e), op + ": opposite closed sides are combined silently")
        return
    if e is not None:
        if mismatch(ctx, e):
            ctx.fail(op + ": ClosedMismatchError on consistently closed operands")
        raise e
    if how == "rmethod" and not F.pts and not G.pts:
        return
    good(ctx, h, cf if F.pts or not G.pts else cg, op, H)


def agg3(ctx):
    """three members"""
    cs, ns, op = ctx.get("cs"), ctx.get("ns"), ctx.get("op")
    ms = [ctx.stairs("fgh"[i], n, ctx.get("form", "V") if n else "V", True, c) for i, (n, c) in enumerate(zip(ns, cs))]
    members = [m for m, _ in ms]
    box = ctx.get("box", "list")
    if box == "tuple":
        members = tuple(members)
    elif box == "dict":
        members = dict(zip("abc", members))
    elif box == "array":
        members = ctx.sc.StairsArray(members)
    h, e = ctx.call(lambda: getattr(ctx.sc, op)(members))
    sides = {c for n, c in zip(ns, cs) if n}
    if len(sides) == 2:
        ctx.prove(e is not None and mismatch(ctx, e), op + ": opposite closed sides are combined silently")
        return
    if e is not None:
        if mismatch(ctx, e):
            ctx.fail(op + ": ClosedMismatchError on consistently closed members")
        raise e
    if sides:
        good(ctx, h, list(sides)[0], op)
    else:
        ctx.prove(h.closed in cs, op + ": closed side")
        if len(set(cs)) == 1:
            good(ctx, h, cs[0], op)


def moments(ctx):
    """cov / corr"""
    op, cf, cg = ctx.get("op"), ctx.get("closed"), ctx.get("closed_g")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), True, cf)
    g, G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), True, cg)
    P = lambda x: ctx.dom.pt(ctx.lit(x))  # noqa: E731
    kw = {"where": (P(0), P(3))}
    if ctx.get("lag") is not None:
        kw["lag"] = ctx.dom.dur(ctx.lit(ctx.get("lag")))
    if op.startswith("sc_"):
        r, e = ctx.call(lambda: getattr(ctx.sc, op[3:])([f, g], where=kw["where"]))
    else:
        r, e = ctx.call(lambda: getattr(f, op)(g, **kw))
    if F.pts and G.pts and cf != cg:
        ctx.prove(e is not None and mismatch(ctx, e), op + ": opposite closed sides are combined silently")
    else:
        ctx.prove(e is None or not mismatch(ctx, e), op + ": ClosedMismatchError on consistently closed operands")


def queries(ctx):
    """no operation on consistently closed inputs raises a mismatch"""
    c = ctx.get("closed")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), True, c)
    g = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), True, ctx.get("closed_g"))[0] \
        if ctx.get("ng") is not None else None
    r, e = ctx.call(lambda: c13.QUERIES[ctx.get("q")](ctx, f, g))
    ctx.prove(e is None or not mismatch(ctx, e), ctx.get("q") + ": ClosedMismatchError on consistently closed inputs")
    ctx.prove(f.closed == c, "closed side after " + ctx.get("q"))


def resample(ctx):
    """the slicer's resample keeps the side"""
    c, sc, pd = ctx.get("closed"), ctx.sc, ctx.pd
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("ff", "V"), True, c)
    P = lambda x: ctx.dom.pt(ctx.lit(x))  # noqa: E731
    if ctx.get("cuts") == "ii":
        cuts = pd.IntervalIndex.from_arrays([P(0), P(2)], [P(1), P(3)], closed=ctx.get("ic", "left"))
    else:
        cuts = [P(-1), P(0), P(2)]
    h, e = ctx.call(lambda: f.slice(cuts).resample(ctx.get("fn")))
    if e is not None:
        if mismatch(ctx, e):
            ctx.fail("resample: ClosedMismatchError on consistently closed inputs")
        raise e
    good(ctx, h, c, "resample")


def built(ctx):
    """construction keeps the requested side; layer does not change it"""
    sc, pd, c = ctx.sc, ctx.pd, ctx.get("closed")
    P = lambda x: ctx.dom.pt(ctx.lit(x))  # noqa: E731
    v = ctx.val("v", False)
    how = ctx.get("how")
    if how == "ctor":
        s = sc.Stairs(start=P(0), end=P(1), value=v, closed=c)
    elif how == "ctor_v":
        s = sc.Stairs(start=[P(0), P(1)], end=[P(1), P(2)], value=[v, 1], closed=c)
    elif how == "frame":
        s = sc.Stairs(pd.DataFrame({"s": [P(0)], "e": [P(1)], "v": [v]}), "s", "e", "v", closed=c)
    elif how == "free":
        s = sc.Stairs(initial_value=v, closed=c)
    else:
        s = sc.Stairs.from_values(initial_value=0, values=pd.Series([v, 1], index=ctx.dom.index([0, 1])), closed=c)
    good(ctx, s, c, how)
    for kind in ("scalar", "vector", "all"):
        c13.mutate(ctx, s, kind, tag=kind)
        good(ctx, s, c, how + " then layer " + kind)


HARNESSES = {"unary": unary, "binary": binary, "agg3": agg3, "moments": moments, "queries": queries,
             "resample": resample, "built": built}
BOUNDS = {
    "quick": "every catalogue operation crossed with closed in {left, right} per operand, 0..2 step points per operand "
             "(symbolic values, possibly undefined), chains of two operations, aggregations of 1..3 members, cov / corr "
             "and %d queries at fixed step points" % len(c13.QUERIES),
    "thorough": "0..3 step points, all internal forms, all two-operation chains",
}
SIDES = ("left", "right")
PT = [0, 1, 2.5]
EX = [o for o in c13.EXTRA if o not in ("ecdf", "fractile", "percentile")]


def configs(tier):
    big = tier == "thorough"
    for op in UNARY + EX:
        for c in SIDES:
            for n in (0, 1, 2) + ((3,) if big else ()):
                for form in FORMS if n == 1 or (big and n == 2) else ("V", "D") if n else ("V",):
                    if n == 2 and c == "left" and not big:
                        continue
                    yield "unary", dict(op=op, n=n, form=form, closed=c, **(dict(fpts=PT[:n]) if n > 1 else {}))
            for op2 in ("shift0", "neg", "mask_none", "add_c", "c_lt", "fillna_c", "clip", "copy", "isna", "agg1_max",
                        "mask_t", "c_sub", "layer") if not big else UNARY + EX:
                for n in (0, 1):
                    if c == "left" and n and not big:
                        continue
                    if op == "slice" or op2 == "slice":
                        continue
                    yield "unary", dict(op=op, op2=op2, n=n, form="D" if n else "V", closed=c, fpts=PT[:n], owin=[0, 2])
        yield "unary", dict(op=op, n=1, form="V", closed="right", dom="ts", fpts=[0], owin=[0, 2])
    for op in BINARY:
        for cf in SIDES:
            for cg in SIDES:
                for nf in (0, 1, 2):
                    for ng in (0, 1, 2):
                        if nf + ng > 2 and not big and (cf == cg or nf + ng > 3):
                            continue
                        for ff, fg in (("V", "V"), ("D", "D"), ("VD", "D")):
                            ff, fg = ff if nf else "V", fg if ng else "V"
                            if nf + ng > 2 and (ff, fg) != ("V", "V"):
                                continue
                            yield "binary", dict(op=op, nf=nf, ng=ng, ff=ff, fg=fg, closed=cf, closed_g=cg,
                                                 fpts=PT[:nf], gpts=[0.5, 1][:ng])
                        for how in ("method", "rmethod"):
                            if op in (METHOD if how == "method" else RMETHOD) and nf + ng <= 2:
                                yield "binary", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", closed=cf, closed_g=cg,
                                                     how=how, fpts=PT[:nf], gpts=[0.5, 1][:ng])
        for nf, ng in ((1, 1), (0, 1)):
            yield "binary", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", closed="right", closed_g="right")
            yield "binary", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", closed="right", closed_g="left", dom="ts",
                                 fpts=PT[:nf], gpts=[0.5][:ng])
    from itertools import product

    for op in ("sum", "mean", "median", "min", "max", "logical_or", "logical_and"):
        for k in (1, 2, 3):
            for ns in product((0, 1), repeat=k):
                for cs in product(SIDES, repeat=k):
                    for box in ("list", "tuple", "dict", "array") if k == 2 else ("list",):
                        yield "agg3", dict(op=op, ns=list(ns), cs=list(cs), box=box, fpts=[0][:ns[0]],
                                           gpts=[1][:ns[1]] if k > 1 else [], hpts=[1][:ns[2]] if k > 2 else [])
    V = {0: [2], 1: [1, 3], 2: [1, 3, 0]}
    W = {0: [0], 1: [None, 2], 2: [4, None, 2]}
    for op in ("cov", "corr", "sc_cov", "sc_corr"):
        for cf in SIDES:
            for cg in SIDES:
                for nf in (0, 1, 2):
                    for ng in (0, 1, 2):
                        for lag in (None, 1):
                            if lag and op.startswith("sc"):
                                continue
                            for fv, gv in ((V, V), (V, W), (W, V)):
                                yield "moments", dict(op=op, nf=nf, ng=ng, closed=cf, closed_g=cg, lag=lag, fpts=PT[:nf],
                                                      gpts=[0.5, 1][:ng], fvals=fv[nf], gvals=gv[ng])
    for q in c13.QUERIES:
        for c in SIDES:
            for nf in (0, 1, 2):
                if q in c13.Q2:
                    for ng, cg in ((0, "left"), (0, "right"), (1, c)):
                        yield "queries", dict(q=q, nf=nf, closed=c, ng=ng, closed_g=cg, fpts=[0, 1][:nf], gpts=[0.5][:ng],
                                              **(dict(fvals=[1, 3, None][:nf + 1], gvals=[2, 5][:ng + 1])
                                                 if q in c13.NONLINEAR else {}))
                else:
                    yield "queries", dict(q=q, nf=nf, closed=c, fpts=[0, 1][:nf],
                                          **(dict(fvals=[1, 3, None][:nf + 1])
                                             if q in c13.NONLINEAR and nf == 2 else {}))
    for c in SIDES:
        for n in (0, 1, 2):
            for fn in ("max", "min", "mean", "median"):
                for cuts in ("ii", "list"):
                    for ff in ("V", "D") if n else ("V",):
                        yield "resample", dict(closed=c, n=n, fn=fn, cuts=cuts, ff=ff, fpts=[0.5, 1.5][:n],
                                               **(dict(fvals=[1, 3, 2][:n + 1]) if fn in ("mean", "median") else {}))
            for ic in ("right", "neither"):
                yield "resample", dict(closed=c, n=n, fn="max", cuts="ii", ic=ic, fpts=[0.5, 1.5][:n])
        for how in ("ctor", "ctor_v", "frame", "free", "from_values"):
            yield "built", dict(how=how, closed=c)
