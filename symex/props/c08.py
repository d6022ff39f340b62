"""C08: integral, mean, var, std, value_sums are length-weighted over the finite pieces."""
from .common import FORMS
from ..ctx import restrict

ID = "C08"


def pieces(F):
    """finite pieces as (length, value)"""
    return [(q - p, v) for p, q, v in zip(F.pts, F.pts[1:], F.vals[1:])]


def total(ctx, ps):
    """(total defined length, integral)"""
    t = i = ctx.lit(0)
    for l, v in ps:
        n = ctx.isnan(v)
        t = t + ctx.ite(n, 0, l)
        i = i + ctx.ite(n, 0, v * l)
    return t, i


def build(ctx):
    n, form, closed = ctx.get("n"), ctx.get("form", "V"), ctx.get("closed", "left")
    f, F = ctx.stairs("f", n, form, ctx.get("nan", True), closed, vtype=ctx.get("vtype", "f"))
    if ctx.get("clip"):
        lo, hi = ctx.get("clip")
        win = ctx.get("win")
        a = (ctx.lit(win[0]) if win else ctx.real("a", dom=True)) if lo else None
        b = (ctx.lit(win[1]) if win else ctx.real("b", dom=True)) if hi else None
        if lo and hi:
            ctx.assume(a < b)
        P = lambda x: None if x is None else ctx.dom.pt(x)  # noqa: E731
        F = restrict(F, a, b, ctx.nanv())
        if ctx.get("agg"):
            w = (P(a) if lo else -ctx.inf, P(b) if hi else ctx.inf)
            if ctx.get("agg") == "none":
                w = (P(a), P(b))
            return f, F, w
        f = f.clip(P(a), P(b))
    return f, F, None


def need_piece(ctx, ps):
    if not ps:
        ctx.assume(False)
    ctx.assume(ctx.Or(*[ctx.Not(ctx.isnan(v)) for l, v in ps]))


def dur(ctx, d, label):
    if not ctx.dom.numeric:
        ctx.prove(isinstance(d, ctx.pd.Timedelta), label + " is a Timedelta")
    return ctx.dom.undur(d)


def stat(ctx, f, name, w, args=()):
    if w is None:
        if ctx.get("agg"):
            return f.agg(name)
        return getattr(f, name)()
    return f.agg(name, w)


def integral_mean(ctx):
    f, F, w = build(ctx)
    ps = pieces(F)
    need_piece(ctx, ps)
    T, I = total(ctx, ps)
    if ctx.get("agg") == "list":
        r = f.agg(["mean", "integral"]) if w is None else f.agg(["mean", "integral"], w)
        ctx.prove(list(r.index) == ["mean", "integral"], "labels of agg(list)")
        i, m = r["integral"], r["mean"]
    elif ctx.get("first") == "mean":
        m = stat(ctx, f, "mean", w)
        i = stat(ctx, f, "integral", w)
    else:
        i = stat(ctx, f, "integral", w)
        m = stat(ctx, f, "mean", w)
    i, m = dur(ctx, i, "integral"), ctx.num(m)
    ctx.observe("im", [i, m])
    ctx.prove_same(i, I, "integral")
    ctx.prove_same(m * T, I, "mean")


def value_sums(ctx):
    f, F, w = build(ctx)
    ps = pieces(F)
    need_piece(ctx, ps)
    kw = {}
    if ctx.get("dropna") is not None:
        kw["dropna"] = ctx.get("dropna")
    vs = f.value_sums(**kw)
    keys = [ctx.num(k) for k in list(vs.index)]
    sums = [dur(ctx, d, "length in value_sums") for d in list(vs)]
    ctx.observe("vs", [[k, s] for k, s in zip(keys, sums)])
    defined = []
    for k, s in zip(keys, sums):
        if bool(ctx.isnan(k)):
            ctx.prove(ctx.get("dropna") is False, "value_sums has an entry for undefined regions")
            want = ctx.lit(0)
            for l, v in ps:
                want = want + ctx.ite(ctx.isnan(v), l, 0)
            ctx.prove_same(s, want, "value_sums of the undefined regions")
            continue
        want = ctx.lit(0)
        for l, v in ps:
            want = want + ctx.ite(ctx.same(v, k), l, 0)
        ctx.prove_same(s, want, "value_sums")
        for o in defined:
            ctx.prove(ctx.Not(o == k), "value_sums repeats a value")
        defined.append(k)
    for l, v in ps:
        ctx.prove(ctx.Or(ctx.isnan(v), *[v == k for k in defined]), "value_sums misses a value")
    for k in defined:
        ctx.prove(ctx.Or(*[ctx.same(v, k) for l, v in ps]), "value_sums has a value not taken")


def var(ctx):
    f, F, w = build(ctx)
    ps = pieces(F)
    need_piece(ctx, ps)
    T, I = total(ctx, ps)
    sq = ctx.lit(0)
    for l, v in ps:
        sq = sq + ctx.ite(ctx.isnan(v), 0, l * (v * T - I) * (v * T - I))
    got = ctx.num(stat(ctx, f, "var", w))
    ctx.observe("var", got)
    ctx.prove_same(got * T * T * T, sq, "var")
    if ctx.get("std"):
        s = ctx.num(stat(ctx, f, "std", w))
        ctx.prove(ctx.And(s >= 0, ctx.same(s * s, got)), "std is the square root of var")


HARNESSES = {"integral_mean": integral_mean, "value_sums": value_sums, "var": var}
BOUNDS = {
    "quick": "integral/mean/value_sums: up to 4 step points (3 finite pieces; 4 with concrete lengths), every internal form; var/std: up to 3 "
             "finite pieces with symbolic lengths and values, 4 with concrete lengths; windows around 0..3 step points",
    "thorough": "integral/mean/value_sums: up to 5 step points; var/std: up to 4 pieces with concrete lengths",
}


def configs(tier):
    big = tier == "thorough"
    for n in (2, 3, 4) + ((5,) if big else ()):
        for form in FORMS:
            for closed in ("left", "right"):
                if n > 3 and form not in ("V", "D") and not big:
                    continue
                if n > 4 and form not in ("V", "D"):
                    continue
                if closed == "right" and form not in ("V", "D") and not big:
                    continue
                yield "integral_mean", dict(n=n, form=form, closed=closed)
                yield "value_sums", dict(n=n, form=form, closed=closed)
    for n in (2, 3):
        yield "integral_mean", dict(n=n, first="mean")
        yield "integral_mean", dict(n=n, agg="list")
        yield "integral_mean", dict(n=n, agg="one")
        yield "value_sums", dict(n=n, dropna=False)
        yield "value_sums", dict(n=n, vtype="i", nan=False)
        yield "integral_mean", dict(n=n, vtype="i", nan=False)
    for n in (0, 1, 2, 3):
        for c in ([1, 1], [1, 0], [0, 1]):
            for closed in ("left", "right"):
                if closed == "right" and n > 2 and not big:
                    continue
                yield "integral_mean", dict(n=n, clip=c, closed=closed)
                yield "integral_mean", dict(n=n, clip=c, agg="one", closed=closed)
                yield "integral_mean", dict(n=n, clip=c, agg="list", closed=closed)
                yield "value_sums", dict(n=n, clip=c, closed=closed)
        yield "integral_mean", dict(n=n, clip=[1, 0], agg="none")
        yield "integral_mean", dict(n=n, clip=[0, 1], agg="none")
    for dom in ("int", "ts", "tz", "dst", "td"):
        for n in (2, 3):
            yield "integral_mean", dict(n=n, dom=dom)
            yield "integral_mean", dict(n=n, dom=dom, form="D")
            yield "value_sums", dict(n=n, dom=dom)
        yield "integral_mean", dict(n=2, dom=dom, vtype="i", nan=False)
        yield "integral_mean", dict(n=1, clip=[1, 1], dom=dom)
        yield "integral_mean", dict(n=1, clip=[1, 1], agg="one", dom=dom)
        yield "value_sums", dict(n=1, clip=[1, 1], dom=dom)
        yield "value_sums", dict(n=2, dom=dom, dropna=False)
    for form in FORMS:
        yield "var", dict(n=2, form=form, std=True)
        yield "var", dict(n=3, form=form)
    yield "var", dict(n=2, closed="right", std=True)
    yield "var", dict(n=3, closed="right")
    yield "var", dict(n=3, pts=[0, 1, 3], std=True)
    yield "var", dict(n=4, pts=[0, 1, 3, 8])
    yield "var", dict(n=4, pts=[0, 2, 3, 4], closed="right")
    for dom in ("int", "ts", "tz", "dst", "td"):
        yield "var", dict(n=2, dom=dom, std=True)
        yield "var", dict(n=3, dom=dom)
        yield "var", dict(n=1, dom=dom, clip=[1, 1], agg="one")
    for n in (0, 1, 2):
        for c in ([1, 1], [1, 0], [0, 1]):
            if n == 2 and c == [1, 1]:
                continue
            yield "var", dict(n=n, clip=c)
            yield "var", dict(n=n, clip=c, agg="one", std=n < 2)
    for win in ([-1, 2], [1, 3], [1, 6], [-1, 6]):
        yield "var", dict(n=2, pts=[0, 4], clip=[1, 1], win=win, std=True)
        yield "var", dict(n=2, pts=[0, 4], clip=[1, 1], win=win, agg="one")
        if big or win != [-1, 6]:
            yield "var", dict(n=3, pts=[0, 2, 4], clip=[1, 1], win=win, agg="one", closed="right")
    for dom in ("ts", "td"):
        yield "var", dict(n=3, pts=[0, 2, 4], clip=[1, 1], win=[1, 6], agg="one", dom=dom)
        yield "integral_mean", dict(n=3, pts=[0, 2, 4], clip=[1, 1], win=[1, 6], agg="one", dom=dom)
    for n, pts in ((5, [0, 1, 3, 8, 10]),) + (((6, [0, 5, 6, 8, 9, 12]),) if big else ()):
        yield "var", dict(n=n, pts=pts)
        yield "integral_mean", dict(n=n, pts=pts)
        yield "value_sums", dict(n=n, pts=pts)
    if big:
        yield "var", dict(n=4)
        yield "var", dict(n=4, form="VD")
