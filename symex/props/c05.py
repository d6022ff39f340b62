"""C05: logical operators act pointwise on truthiness and propagate undefinedness."""
from ..ctx import const
from .common import BIN, FORMS, METHOD, PYOP, RMETHOD, cmp2, operands

ID = "C05"
OPS = ("and", "or", "xor")


def binary(ctx):
    op = ctx.get("op")
    (f, F), (g, G) = operands(ctx)
    how = ctx.get("how", "op")
    if how == "method":
        h = getattr(f, METHOD[op])(g)
    elif how == "rmethod":
        h, F, G = getattr(f, RMETHOD[op])(g), G, F
    else:
        h = PYOP[op](f, g)
    ctx.prove_same_fn(ctx.fn(h, key="h"), cmp2(ctx, BIN[op], F, G), "f %s g" % op)


def scalar(ctx):
    op = ctx.get("op")
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))
    if ctx.get("c") == "int":
        c = ctx.integer("c")
    else:
        c = ctx.val("c", True, np=ctx.get("np", False))
    if ctx.get("side") == "r":
        h, want = PYOP[op](c, f), cmp2(ctx, BIN[op], const(c), F)
    elif ctx.get("side") == "m":
        h, want = getattr(f, METHOD[op])(c), cmp2(ctx, BIN[op], F, const(c))
    elif ctx.get("side") == "rm":
        h, want = getattr(f, RMETHOD[op])(c), cmp2(ctx, BIN[op], const(c), F)
    else:
        h, want = PYOP[op](f, c), cmp2(ctx, BIN[op], F, const(c))
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, "f %s scalar (%s)" % (op, ctx.get("side")))


def unary(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))
    inv = ~f if not ctx.get("method") else f.invert()
    mb = f.make_boolean()
    ctx.prove_same_fn(ctx.fn(inv, key="inv"), F.map(lambda v: ctx.ind(v == 0, v)), "~f")
    ctx.prove_same_fn(ctx.fn(mb, key="mb"), F.map(lambda v: ctx.ind(ctx.Not(v == 0), v)), "make_boolean")


HARNESSES = {"binary": binary, "scalar": scalar, "unary": unary}
BOUNDS = {
    "quick": "operands with 0..2 step points each in every internal form, arbitrary values; scalars on either side",
    "thorough": "operands with 0..3 step points each, all form combinations",
}


def configs(tier):
    big = tier == "thorough"
    for n in range(0, 5 if big else 4):
        for form in FORMS if n else ("V",):
            for closed in ("left", "right"):
                yield "unary", dict(n=n, form=form, closed=closed, method=closed == "right")
    yield "unary", dict(n=2, vtype="i", nan=False)
    for dom in ("int", "ts", "tz", "dst", "td"):
        yield "unary", dict(n=2, dom=dom)
    for op in OPS:
        for n in range(0, 4 if big else 3):
            for form in FORMS if n else ("V",):
                for side in ("l", "r", "m", "rm"):
                    yield "scalar", dict(op=op, n=n, form=form, side=side)
            for side in "lr":
                yield "scalar", dict(op=op, n=n, side=side, closed="right")
        for side in ("l", "r"):
            yield "scalar", dict(op=op, n=1, side=side, np=True)
            yield "scalar", dict(op=op, n=1, side=side, c="int", vtype="i", nan=False)
            for dom in ("int", "ts", "tz", "dst", "td"):
                yield "scalar", dict(op=op, n=1, side=side, dom=dom)
        for ik in ("i", "ni"):
            for n in (0, 1):
                for form in ("V", "D") if n else ("V",):
                    for side in "lr":
                        yield "scalar", dict(op=op, n=n, form=form, side=side, ik=ik)
                    for ng in (0, 1):
                        yield "binary", dict(op=op, nf=n, ng=ng, ff=form, fg=form if ng else "V", ik=ik)
        sizes = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
        if big:
            sizes += [(0, 3), (3, 0), (1, 3), (3, 1), (2, 3), (3, 2)]
        for nf, ng in sizes:
            for a in FORMS if nf else ("V",):
                for b in FORMS if ng else ("V",):
                    if nf and ng:
                        if nf + ng >= 4 and not big and (a, b) not in (("V", "V"), ("D", "D")):
                            continue
                        if nf + ng >= 5 and (a, b) not in (("V", "V"), ("D", "D"), ("VD", "V")):
                            continue
                        if not big and nf + ng == 3 and (a, b) not in (("V", "V"), ("D", "V"), ("VL", "D")):
                            continue
                    yield "binary", dict(op=op, nf=nf, ng=ng, ff=a, fg=b)
        for nf, ng in ((0, 1), (1, 0), (1, 1), (0, 0)):
            for how in ("method", "rmethod"):
                yield "binary", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", closed="right", how=how)
        for dom in ("int", "ts", "tz", "dst", "td"):
            yield "binary", dict(op=op, nf=1, ng=1, ff="V", fg="D", dom=dom)
