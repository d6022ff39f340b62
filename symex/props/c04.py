"""C04: relational operators are pointwise 0/1 indicators on the common domain."""
from ..ctx import combine, const
from .common import BIN, FORMS, METHOD, PYOP, cmp2, interval, operands

ID = "C04"
RELS = ("lt", "le", "gt", "ge", "eq", "ne")


def follow(ctx, h, want):
    """the result takes part in a further operation"""
    kind = ctx.get("follow")
    if not kind:
        return
    H = want
    if kind == "layer":
        x = ctx.real("x", dom=True)
        h.layer(ctx.dom.pt(x), None, 2)
        ctx.prove_same_fn(ctx.fn(h, key="k"), combine(lambda a, b: a + 2 * b, H, interval(x, None)), "layer on result")
    elif kind == "vlayer":
        x = ctx.real("x", dom=True)
        h.layer([ctx.dom.pt(x)], None, [2])
        ctx.prove_same_fn(ctx.fn(h, key="k"), combine(lambda a, b: a + 2 * b, H, interval(x, None)), "layer on result")
    elif kind == "add":
        k = h + h
        ctx.prove_same_fn(ctx.fn(k, key="k"), H.map(lambda v: v + v), "result + result")
    elif kind == "mul":
        k = 3 * h - 1
        ctx.prove_same_fn(ctx.fn(k, key="k"), H.map(lambda v: 3 * v - 1), "3 * result - 1")
    elif kind == "not":
        k = ~h
        ctx.prove_same_fn(ctx.fn(k, key="k"), H.map(lambda v: 1 - v), "~result")
    elif kind == "fill":
        k = h.fillna(0)
        ctx.prove_same_fn(ctx.fn(k, key="k"), H.map(lambda v: ctx.ite(ctx.isnan(v), 0, v)), "result.fillna(0)")
    elif kind == "identical":
        ctx.prove(bool(h.identical(h.copy())), "result identical to its copy")
    elif kind == "where":
        k = h.where(h)
        ctx.prove_same_fn(ctx.fn(k, key="k"), H.map(lambda v: ctx.ite(v == 1, v, ctx.nanv())), "result.where(result)")


def binary(ctx):
    op = ctx.get("op")
    (f, F), (g, G) = operands(ctx)
    h = getattr(f, METHOD[op])(g) if ctx.get("method") else PYOP[op](f, g)
    want = cmp2(ctx, BIN[op], F, G)
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, "f %s g" % op)
    follow(ctx, h, want)


def scalar(ctx):
    op = ctx.get("op")
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))
    if ctx.get("c") == "int":
        c = ctx.integer("c", np=ctx.get("np", False))
    else:
        c = ctx.val("c", True, np=ctx.get("np", False))
    if ctx.get("side") == "r":
        h, want = PYOP[op](c, f), cmp2(ctx, BIN[op], const(c), F)
    elif ctx.get("method"):
        h, want = getattr(f, METHOD[op])(c), cmp2(ctx, BIN[op], F, const(c))
    else:
        h, want = PYOP[op](f, c), cmp2(ctx, BIN[op], F, const(c))
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, "f %s scalar (%s)" % (op, ctx.get("side")))
    follow(ctx, h, want)


HARNESSES = {"binary": binary, "scalar": scalar}
BOUNDS = {
    "quick": "operands with 0..2 step points each in every internal form, scalars on either side (NaN included); one "
             "further operation on the result",
    "thorough": "operands with 0..3 step points each, all form combinations",
}
FOLLOW = ("layer", "vlayer", "add", "mul", "not", "fill", "identical", "where")


def configs(tier):
    big = tier == "thorough"
    for op in RELS:
        for n in range(0, 4 if big else 3):
            for form in FORMS if n else ("V",):
                for side in "lr":
                    yield "scalar", dict(op=op, n=n, form=form, side=side)
            for side in "lr":
                yield "scalar", dict(op=op, n=n, side=side, closed="right")
        for fo in FOLLOW:
            for n in (0, 1, 2) if big or fo in ("add", "layer") else (0, 1):
                yield "scalar", dict(op=op, n=n, side="l", follow=fo)
                yield "scalar", dict(op=op, n=n, side="r", follow=fo)
            yield "binary", dict(op=op, nf=1, ng=1, ff="V", fg="V", follow=fo)
            yield "binary", dict(op=op, nf=0, ng=1, ff="V", fg="V", follow=fo)
            yield "binary", dict(op=op, nf=1, ng=0, ff="V", fg="V", follow=fo)
        yield "scalar", dict(op=op, n=1, side="l", method=True)
        for side in "lr":
            yield "scalar", dict(op=op, n=1, side=side, np=True)
            yield "scalar", dict(op=op, n=1, side=side, c="int", vtype="i", nan=False)
            yield "scalar", dict(op=op, n=0, side=side, np=True)
            for dom in ("int", "ts", "tz", "dst", "td"):
                yield "scalar", dict(op=op, n=1, side=side, dom=dom)
        for ik in ("i", "ni"):
            for n in (0, 1):
                for form in ("V", "D") if n else ("V",):
                    for side in "lr":
                        yield "scalar", dict(op=op, n=n, form=form, side=side, ik=ik)
                    for ng in (0, 1):
                        yield "binary", dict(op=op, nf=n, ng=ng, ff=form, fg=form if ng else "V", ik=ik)
        sizes = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
        if big:
            sizes += [(0, 3), (3, 0), (1, 3), (3, 1), (2, 3), (3, 2)]
        for nf, ng in sizes:
            for a in FORMS if nf else ("V",):
                for b in FORMS if ng else ("V",):
                    if nf and ng:
                        if nf + ng >= 4 and not big and (a, b) not in (("V", "V"), ("D", "D")):
                            continue
                        if nf + ng >= 5 and (a, b) not in (("V", "V"), ("D", "D"), ("VD", "V")):
                            continue
                        if not big and nf + ng == 3 and (a, b) not in (("V", "V"), ("D", "V"), ("VL", "D")):
                            continue
                        if not big and nf + ng == 2 and a != b and "V" not in (a, b):
                            continue
                    yield "binary", dict(op=op, nf=nf, ng=ng, ff=a, fg=b, nan=nf + ng < 4 or op in ("lt", "eq"))
        for nf, ng in ((0, 1), (1, 0), (1, 1)):
            yield "binary", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", closed="right", method=True)
        for dom in ("int", "ts", "tz", "dst", "td"):
            yield "binary", dict(op=op, nf=1, ng=1, ff="V", fg="D", dom=dom)
