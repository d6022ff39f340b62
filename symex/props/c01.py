"""C01: + - * / and unary minus are pointwise on the common domain."""
from ..ctx import combine, const
from .common import operands

ID = "C01"
OPS = {
    "add": (lambda a, b: a + b, lambda ctx, a, b: a + b),
    "sub": (lambda a, b: a - b, lambda ctx, a, b: a - b),
    "mul": (lambda a, b: a * b, lambda ctx, a, b: a * b),
    "div": (lambda a, b: a / b, lambda ctx, a, b: ctx.div(a, b)),
}


def binary(ctx):
    """f o g for two step functions"""
    op, spec = OPS[ctx.get("op")]
    (f, F), (g, G) = operands(ctx)
    h = op(f, g)
    H = ctx.fn(h, key="h")
    ctx.prove_same_fn(H, combine(lambda a, b: spec(ctx, a, b), F, G), "f %s g" % ctx.get("op"))


def scalar(ctx):
    """f o c and c o f"""
    op, spec = OPS[ctx.get("op")]
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))
    if ctx.get("c") == "int":
        c = ctx.integer("c", np=ctx.get("np", False))
    else:
        c = ctx.val("c", True, np=ctx.get("np", False))
    if ctx.get("side") == "r":
        h, want = op(c, f), combine(lambda a, b: spec(ctx, b, a), F, const(c))
    else:
        h, want = op(f, c), combine(lambda a, b: spec(ctx, a, b), F, const(c))
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, "f %s scalar (%s)" % (ctx.get("op"), ctx.get("side")))


def negate(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"))
    ctx.prove_same_fn(ctx.fn(-f, key="h"), F.map(lambda v: -v), "-f")


HARNESSES = {"binary": binary, "scalar": scalar, "negate": negate}
BOUNDS = {
    "quick": "operands with 0..2 step points each (2x2 only values/values), scalar operands, both orders",
    "thorough": "operands with 0..3 step points each, all form combinations",
}


def configs(tier):
    big = tier == "thorough"
    for op in OPS:
        for n in (2, 1, 0) if not big else (3, 2, 1, 0):
            for form in ("V", "VD", "D", "DV") if n else ("V",):
                for side in "lr":
                    for closed in ("left", "right"):
                        if closed == "right" and not big and (form, n) != ("V", 1):
                            continue
                        yield "scalar", dict(op=op, n=n, form=form, side=side, closed=closed)
        for side in "lr":
            yield "scalar", dict(op=op, n=1, form="V", side=side, np=True)
            yield "scalar", dict(op=op, n=0, form="V", side=side, np=True)
            yield "scalar", dict(op=op, n=1, form="V", side=side, c="int", vtype="i", nan=False)
            for dom in ("int", "ts", "dst", "td"):
                yield "scalar", dict(op=op, n=1, form="V", side=side, dom=dom)
        for ik in ("i", "ni"):
            for n in (0, 1, 2):
                for form in ("V", "D") if n else ("V",):
                    for side in "lr":
                        yield "scalar", dict(op=op, n=n, form=form, side=side, ik=ik)
                        yield "scalar", dict(op=op, n=n, form=form, side=side, ik=ik, c="int", np=side == "l")
                    for ng in (0, 1):
                        yield "binary", dict(op=op, nf=n, ng=ng, ff=form, fg=form if ng else "V", ik=ik)
        sizes = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
        if big:
            sizes += [(0, 3), (3, 0), (1, 3), (3, 1), (2, 3), (3, 2)]
        for nf, ng in sizes:
            forms = ("V", "VD", "D", "DV")
            for a in forms if nf else ("V",):
                for b in forms if ng else ("V",):
                    if not big:
                        if nf + ng == 4 and (a, b) not in (("V", "V"), ("D", "D")):
                            continue
                        if nf + ng == 3 and nf and ng and (a, b) not in (
                                ("V", "V"), ("VD", "V"), ("D", "V"), ("V", "D"), ("V", "VD"), ("D", "D")):
                            continue
                    nan = True
                    for closed in ("left", "right"):
                        if closed == "right" and not (big and nf + ng <= 3) and (nf, ng, a, b) != (1, 1, "V", "V"):
                            continue
                        yield "binary", dict(op=op, nf=nf, ng=ng, ff=a, fg=b, closed=closed, nan=nan)
        for dom in ("int", "ts", "dst", "td"):
            yield "binary", dict(op=op, nf=1, ng=1, ff="V", fg="D", closed="left", nan=True, dom=dom)
    for n in range(0, 4 if big else 3):
        for form in ("V", "VD", "D", "DV") if n else ("V",):
            for closed in ("left", "right"):
                yield "negate", dict(n=n, form=form, closed=closed)
