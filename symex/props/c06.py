"""C06: clip, mask and where restrict the domain; isna / notna are its indicators."""
from ..ctx import const, restrict
from .common import FORMS, cmp2, interval, operands, spec_mask, spec_where, window

ID = "C06"


def build(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))
    if ctx.get("pre"):  # receiver already restricted
        (a, b), (xa, xb) = window(ctx, "pre")
        return f.clip(a, b), restrict(F, xa, xb, ctx.nanv())
    return f, F


def strings(ctx, t):
    """the same bounds written as strings (concrete instants)"""
    return tuple(str(x) if x is not None else None for x in t)


def bounds(ctx):
    """(labels, coordinates) of the bounds asked for by the configuration"""
    lo, hi = ctx.get("lo", "p"), ctx.get("hi", "p")
    if ctx.get("str"):  # string timestamps are concrete: hours 1 and 3 after the origin
        k = ctx.get("str")
        xa, xb = (k[0] if lo == "p" else None), (k[1] if hi == "p" else None)
        lab = [str(ctx.dom.pt(x)) if x is not None else None for x in (xa, xb)]
        if ctx.get("mixed"):
            lab[0] = ctx.dom.pt(xa)
        return tuple(lab), (xa, xb)
    (a, b), (xa, xb) = window(ctx, "w", lo == "p", hi == "p")
    if lo == "inf":
        a = -ctx.inf
    if hi == "inf":
        b = ctx.inf
    return (a, b), (xa, xb)


def clip(ctx):
    f, F = build(ctx)
    (a, b), (xa, xb) = bounds(ctx)
    if ctx.get("kw"):
        kw = {}
        if ctx.get("lo", "p") == "p":
            kw["lower"] = a
        if ctx.get("hi", "p") == "p":
            kw["upper"] = b
        h = f.clip(**kw)
    else:
        h = f.clip(a, b)
    ctx.prove_same_fn(ctx.fn(h, key="h"), restrict(F, xa, xb, ctx.nanv()), "clip")
    ctx.prove_same_fn(ctx.fn(f, key="f"), F, "receiver of clip")


def tuples(ctx):
    f, F = build(ctx)
    (a, b), (xa, xb) = bounds(ctx)
    if ctx.get("which") == "where":
        h, want = f.where((a, b)), restrict(F, xa, xb, ctx.nanv())
    else:
        h, want = f.mask((a, b)), cmp2(ctx, spec_mask, F, interval(xa, xb))
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, ctx.get("which") + "((a, b))")


def stairs(ctx):
    (f, F), (g, G) = operands(ctx)
    if ctx.get("which") == "where":
        h, want = f.where(g), cmp2(ctx, spec_where, F, G)
    else:
        h, want = f.mask(g), cmp2(ctx, spec_mask, F, G)
    ctx.prove_same_fn(ctx.fn(h, key="h"), want, ctx.get("which") + "(g)")


def isna(ctx):
    f, F = build(ctx)
    ctx.prove_same_fn(ctx.fn(f.isna(), key="i"), F.map(lambda v: ctx.ind(ctx.isnan(v))), "isna")
    ctx.prove_same_fn(ctx.fn(f.notna(), key="n"), F.map(lambda v: ctx.ind(ctx.Not(ctx.isnan(v)))), "notna")


HARNESSES = {"clip": clip, "tuples": tuples, "stairs": stairs, "isna": isna}
BOUNDS = {
    "quick": "functions with 0..3 step points (clip, tuple forms, isna/notna), pairs with 0..2 step points each "
             "(mask/where), every internal form; one restriction on top of an earlier one",
    "thorough": "functions with 0..4 step points, pairs with 0..3 each",
}


def configs(tier):
    big = tier == "thorough"
    nmax = 4 if big else 3
    for n in range(0, nmax + 1):
        for form in FORMS if n else ("V",):
            for closed in ("left", "right"):
                if closed == "right" and form not in ("V", "D") and not big:
                    continue
                yield "isna", dict(n=n, form=form, closed=closed)
                for lo in ("p", "none", "inf"):
                    for hi in ("p", "none", "inf"):
                        if n > 2 and "none" in (lo, hi) and not big:
                            continue
                        yield "clip", dict(n=n, form=form, closed=closed, lo=lo, hi=hi)
                        for which in ("mask", "where"):
                            if n == nmax and form not in ("V", "D"):
                                continue
                            yield "tuples", dict(n=n, form=form, closed=closed, lo=lo, hi=hi, which=which)
    for n in (0, 1, 2):
        for which in ("mask", "where"):
            yield "tuples", dict(n=n, pre=True, which=which, nan=n < 2)
        yield "clip", dict(n=n, pre=True, nan=n < 2)
        yield "isna", dict(n=n, pre=True)
        yield "clip", dict(n=n, kw=True, lo="none")
        yield "clip", dict(n=n, kw=True, hi="none")
    yield "clip", dict(n=2, vtype="i", nan=False)
    yield "tuples", dict(n=2, vtype="i", nan=False, which="mask")
    for dom in ("int", "ts", "tz", "dst", "td"):
        for n in (0, 1, 2):
            yield "isna", dict(n=n, dom=dom)
            for lo, hi in (("p", "p"), ("p", "none"), ("inf", "p"), ("none", "none")):
                yield "clip", dict(n=n, dom=dom, lo=lo, hi=hi)
                for which in ("mask", "where"):
                    yield "tuples", dict(n=n, dom=dom, lo=lo, hi=hi, which=which)
        for which in ("mask", "where"):
            for nf, ng in ((1, 1), (1, 0), (0, 1)):
                yield "stairs", dict(which=which, nf=nf, ng=ng, ff="V", fg="V", dom=dom)
        if dom in ("ts", "tz", "dst"):
            for n in (0, 1, 2):
                for lo, hi in (("p", "p"), ("p", "none"), ("none", "p")):
                    yield "clip", dict(n=n, dom=dom, lo=lo, hi=hi, str=[1, 3])
                    yield "clip", dict(n=n, dom=dom, lo=lo, hi=hi, str=[1, 3], kw=True)
                    for which in ("mask", "where"):
                        yield "tuples", dict(n=n, dom=dom, lo=lo, hi=hi, which=which, str=[1, 3])
                yield "clip", dict(n=n, dom=dom, str=[1, 3], mixed=True)
                yield "tuples", dict(n=n, dom=dom, str=[1, 3], mixed=True, which="mask")
    for ik in ("i", "ni"):
        for n in (0, 1, 2):
            yield "clip", dict(n=n, ik=ik)
            yield "isna", dict(n=n, ik=ik)
            for form in ("V", "D") if n else ("V",):
                for which in ("mask", "where"):
                    yield "tuples", dict(n=n, ik=ik, which=which, form=form)
                    for ng in (0, 1, 2):
                        yield "stairs", dict(which=which, nf=n, ng=ng, ff=form, fg=form if ng else "V", ik=ik)
    sizes = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
    if big:
        sizes += [(0, 3), (3, 0), (1, 3), (3, 1), (2, 3), (3, 2)]
    for which in ("mask", "where"):
        for nf, ng in sizes:
            for a in FORMS if nf else ("V",):
                for b in FORMS if ng else ("V",):
                    if nf and ng:
                        if nf + ng >= 4 and not big and (a, b) not in (("V", "V"), ("D", "D"), ("D", "V")):
                            continue
                        if nf + ng >= 5 and (a, b) not in (("V", "V"), ("D", "D"), ("VD", "V")):
                            continue
                        if not big and nf + ng == 3 and (a, b) not in (("V", "V"), ("D", "V"), ("VL", "D")):
                            continue
                    yield "stairs", dict(which=which, nf=nf, ng=ng, ff=a, fg=b)
        for nf, ng in ((0, 1), (1, 0), (1, 1), (0, 0)):
            yield "stairs", dict(which=which, nf=nf, ng=ng, ff="V", fg="V", closed="right")
