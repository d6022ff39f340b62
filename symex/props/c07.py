"""C07: fillna fills exactly the undefined regions."""
from .common import FORMS, cmp2, fold_bfill, fold_ffill, operands, spec_fill

ID = "C07"


def scalar(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), True, ctx.get("closed", "left"))
    c = ctx.integer("c") if ctx.get("c") == "int" else ctx.val("c", False, np=ctx.get("np", False))
    h = f.fillna(c)
    ctx.prove_same_fn(ctx.fn(h, key="h"), F.map(lambda v: spec_fill(ctx, v, c)), "fillna(scalar)")
    ctx.prove_same_fn(ctx.fn(f, key="f"), F, "receiver of fillna")


def method(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), True, ctx.get("closed", "left"))
    m = ctx.get("m")
    h = f.fillna(m)
    want = fold_ffill(ctx, F) if m in ("ffill", "pad") else fold_bfill(ctx, F)
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, "fillna(%s)" % m)
    ctx.prove_same_fn(ctx.fn(f, key="f"), F, "receiver of fillna")


def stairs(ctx):
    (f, F), (g, G) = operands(ctx)
    h = f.fillna(g)
    ctx.prove_same_fn(ctx.fn(h, key="h"), cmp2(ctx, spec_fill, F, G), "fillna(g)")


HARNESSES = {"scalar": scalar, "method": method, "stairs": stairs}
BOUNDS = {
    "quick": "functions with 0..4 step points and undefined regions anywhere (scalars, the four methods); pairs with "
             "0..2 step points each for step-function fillers; every internal form",
    "thorough": "0..5 step points; pairs with 0..3 each",
}


def configs(tier):
    big = tier == "thorough"
    for n in range(0, 6 if big else 5):
        for form in FORMS if n else ("V",):
            for closed in ("left", "right"):
                if n > 2 and (form not in ("V", "VD") or closed == "right") and not big:
                    continue
                yield "scalar", dict(n=n, form=form, closed=closed)
                for m in ("ffill", "pad", "bfill", "backfill"):
                    yield "method", dict(n=n, form=form, closed=closed, m=m)
    yield "scalar", dict(n=2, np=True)
    yield "scalar", dict(n=2, c="int")
    for dom in ("int", "ts", "tz", "dst", "td"):
        yield "scalar", dict(n=2, dom=dom)
        yield "method", dict(n=2, dom=dom, m="ffill")
        yield "method", dict(n=2, dom=dom, m="bfill")
        for nf, ng in ((1, 1), (1, 0), (0, 1)):
            yield "stairs", dict(nf=nf, ng=ng, ff="V", fg="V", dom=dom)
    for ik in ("i", "ni"):
        for n in (0, 1, 2):
            yield "scalar", dict(n=n, ik=ik)
            yield "method", dict(n=n, ik=ik, m="ffill")
            yield "method", dict(n=n, ik=ik, m="bfill")
            for ng in (0, 1):
                yield "stairs", dict(nf=n, ng=ng, ff="V", fg="V", ik=ik)
    sizes = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 0), (0, 3)]
    if big:
        sizes += [(1, 3), (2, 3), (3, 2)]
    for nf, ng in sizes:
        for a in FORMS if nf else ("V",):
            for b in FORMS if ng else ("V",):
                if nf and ng:
                    if nf + ng >= 4 and not big and (a, b) not in (("V", "V"), ("V", "D")):
                        continue
                    if nf + ng >= 5 and (a, b) not in (("V", "V"), ("V", "D"), ("VD", "V")):
                        continue
                    if not big and nf + ng == 3 and (a, b) not in (("V", "V"), ("V", "D"), ("VL", "V")):
                        continue
                yield "stairs", dict(nf=nf, ng=ng, ff=a, fg=b)
    for nf, ng in ((0, 1), (1, 0), (1, 1), (0, 0)):
        yield "stairs", dict(nf=nf, ng=ng, ff="V", fg="V", closed="right")
