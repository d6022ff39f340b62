"""C09: ecdf, percentiles, median, mode, hist, describe follow the value distribution."""
from .c08 import build, need_piece, pieces, dur
from .common import FORMS

ID = "C09"


def dist(ctx, ps):
    """sorted distinct defined values with their lengths -> [(value, length)], total"""
    out = []
    for l, v in ps:
        if bool(ctx.isnan(v)):
            continue
        i = 0
        while i < len(out) and out[i][0] < v:
            i += 1
        if i < len(out) and bool(out[i][0] == v):
            out[i] = (out[i][0], out[i][1] + l)
        else:
            out.insert(i, (v, l))
    T = ctx.lit(0)
    for v, l in out:
        T = T + l
    return out, T


def setup(ctx):
    f, F, w = build(ctx)
    ps = pieces(F)
    need_piece(ctx, ps)
    D, T = dist(ctx, ps)
    return f, D, T


def mass(ctx, D, pred):
    m = ctx.lit(0)
    for v, l in D:
        m = m + ctx.ite(pred(v), l, 0)
    return m


def quantile_at(ctx, D, T, p):
    """midpoint of the lower and upper p-quantile, p in [0, 1]"""
    lo = hi = D[-1][0]
    acc, cums = ctx.lit(0), []
    for v, l in D:
        acc = acc + l
        cums.append(acc)
    for (v, l), c in zip(reversed(D), reversed(cums)):
        lo = ctx.ite(c >= p * T, v, lo)
        hi = ctx.ite(c > p * T, v, hi)
    lo = ctx.ite(p == 0, D[0][0], lo)
    hi = ctx.ite(p == 1, D[-1][0], hi)
    lo = ctx.ite(p == 1, D[-1][0], lo)
    hi = ctx.ite(p == 0, D[0][0], hi)
    return (lo + hi) / 2


def ecdf(ctx):
    f, D, T = setup(ctx)
    e = f.ecdf
    y = ctx.real("y", np=ctx.get("np", False))
    ctx.prove_same(ctx.num(e(y)) * T, mass(ctx, D, lambda v: v <= y), "ecdf(y)")
    ctx.prove_same(ctx.num(e.limit(y, "left")) * T, mass(ctx, D, lambda v: v < y), "left limit of the ecdf")
    ctx.prove_same(ctx.num(e.limit(y, "right")) * T, mass(ctx, D, lambda v: v <= y), "right limit of the ecdf")
    if ctx.get("arr"):
        z = ctx.real("z")
        got = [ctx.num(x) for x in list(e([y, z]))]
        ctx.prove_same(got[0] * T, mass(ctx, D, lambda v: v <= y), "ecdf([y, z])")
        ctx.prove_same(got[1] * T, mass(ctx, D, lambda v: v <= z), "ecdf([y, z])")
    ctx.prove_same(ctx.num(e(ctx.lit(0) + D[-1][0])), ctx.lit(1), "ecdf(max)")


def percentile(ctx):
    f, D, T = setup(ctx)
    p = ctx.real("p")
    ctx.assume(ctx.And(p >= 0, p <= 1))
    if ctx.get("share"):  # p at the boundary of a cumulative share
        k = ctx.get("share")
        c = ctx.lit(0)
        for v, l in D[:k]:
            c = c + l
        ctx.assume(p * T == c)
    want = quantile_at(ctx, D, T, p)
    how = ctx.get("how", "percentile")
    if how == "percentile":
        got = f.percentile(p * 100)
    elif how == "fractile":
        got = f.fractile(p)
    elif how == "list":
        q = ctx.real("q")
        ctx.assume(ctx.And(q >= 0, q <= 1))
        r = list(f.percentile([p * 100, q * 100]))
        got = r[0]
        ctx.prove_same(ctx.num(r[1]), quantile_at(ctx, D, T, q), "percentile([p, q])")
    elif how == "conv":
        got = f.fractile.to_percentiles()(p * 100)
    got = ctx.num(got)
    ctx.observe("x", got)
    ctx.prove_same(got, want, how)


def fixed_ps(ctx):
    """median, quantiles and the percentiles at 0 and 100"""
    f, D, T = setup(ctx)
    half = ctx.lit(1) / 2
    m = f.agg("median") if ctx.get("agg") else f.median()
    m = ctx.num(m)
    ctx.prove_same(m, quantile_at(ctx, D, T, half), "median")
    ctx.prove_same(ctx.num(f.percentile(0)), D[0][0], "percentile(0)")
    ctx.prove_same(ctx.num(f.percentile(100)), D[-1][0], "percentile(100)")
    ctx.prove_same(ctx.num(f.fractile(1)), D[-1][0], "fractile(1)")
    q = ctx.get("q", 4)
    r = [ctx.num(x) for x in list(f.quantiles(q))]
    ctx.prove(len(r) == q - 1, "number of quantiles")
    for i, x in enumerate(r):
        ctx.prove_same(x, quantile_at(ctx, D, T, ctx.lit(i + 1) / q), "quantiles(%d)" % q)
    ctx.observe("m", [m, r])


def mode(ctx):
    f, D, T = setup(ctx)
    m = ctx.num(f.agg("mode") if ctx.get("agg") else f.mode())
    ctx.prove(ctx.Or(*[m == v for v, l in D]), "mode is a value taken")
    got = mass(ctx, D, lambda v: v == m)
    for v, l in D:
        ctx.prove(got >= l, "mode has maximal length")


def _hist_check(ctx, got, ivs, closed, D, T, stat, label="hist"):
    inb = lambda iv: (lambda v: ctx.And(iv[0] <= v, v < iv[1]) if closed == "left"  # noqa: E731
                      else ctx.And(iv[0] < v, v <= iv[1]))
    sums = [mass(ctx, D, inb(iv)) for iv in ivs]
    widths = [b - a for a, b in ivs]
    allin = ctx.lit(0)
    for s in sums:
        allin = allin + s
    if stat == "sum":
        for g, s in zip(got, sums):
            ctx.prove_same(g, s, label + " sum")
    elif stat == "frequency":
        for g, s, w in zip(got, sums, widths):
            ctx.prove_same(g * w, s, label + " frequency")
    elif stat == "density":
        area = ctx.lit(0)
        for s, w in zip(sums, widths):
            area = area + s * w
        for g, s in zip(got, sums):
            ctx.prove(ctx.Or(area == 0, ctx.same(g * area, s)), label + " density")
    else:
        # the share of the total length; when the bins leave values out, a share of the
        # binned length ("sums to 1") is as good a reading
        A = ctx.And(*[ctx.same(g * T, s) for g, s in zip(got, sums)])
        B = ctx.And(*[ctx.same(g * allin, s) for g, s in zip(got, sums)])
        ctx.prove(ctx.Or(A, ctx.And(B, allin > 0)), label + " probability")


def hist(ctx):
    f, D, T = setup(ctx)
    sc, pd = ctx.sc, ctx.pd
    closed, stat = ctx.get("side", "left"), ctx.get("stat", "sum")
    edges = ctx.get("edges")
    if isinstance(edges, int):
        e = [ctx.real("e0")]
        for i in range(1, edges):
            e.append(ctx.real("e%d" % i))
            ctx.assume(e[-2] < e[-1])
    else:
        e = [ctx.lit(x) for x in edges]
    kw = {} if stat == "sum" and not ctx.get("explicit") else {"stat": stat}
    if ctx.get("bins") == "ii":
        if ctx.get("gap"):
            ivs = [(e[0], e[1]), (e[2], e[3])]
            bins = pd.IntervalIndex.from_arrays([e[0], e[2]], [e[1], e[3]], closed=closed)
        else:
            ivs = list(zip(e, e[1:]))
            bins = pd.IntervalIndex.from_breaks(e, closed=closed)
    else:
        ivs = list(zip(e, e[1:]))
        bins = {"list": list, "tuple": tuple, "array": ctx.np.array, "index": pd.Index}[ctx.get("bins", "list")](e)
        if closed != "left" or ctx.get("explicit"):
            kw["closed"] = closed
    h = f.hist(bins, **kw) if ctx.get("pos", True) else f.hist(bins=bins, **kw)
    idx = h.index
    ctx.prove(isinstance(idx, pd.IntervalIndex), "hist is indexed by intervals")
    ctx.prove(idx.closed == closed, "closed side of the bins")
    ctx.prove(len(h) == len(ivs), "one entry per bin")
    for iv, l, r in zip(ivs, list(idx.left), list(idx.right)):
        ctx.prove(ctx.And(ctx.num(l) == iv[0], ctx.num(r) == iv[1]), "the bins asked for")
    vals = list(h)
    if ctx.dom.numeric or stat in ("probability",):
        got = [ctx.num(x) for x in vals]
    elif stat == "density":
        got = [ctx.num(x) for x in vals]
    else:
        got = [dur(ctx, x, "hist") for x in vals]
    ctx.observe("h", got)
    _hist_check(ctx, got, ivs, closed, D, T, stat)


def unit(ctx):
    """unit bins: unit length, cover all values"""
    f, F, w = build(ctx)
    for v in F.vals[1:-1]:
        ctx.assume(ctx.Or(ctx.isnan(v), ctx.And(v >= -1, v <= 2)))
    ps = pieces(F)
    need_piece(ctx, ps)
    D, T = dist(ctx, ps)
    closed, stat = ctx.get("side", "left"), ctx.get("stat", "sum")
    h = f.hist(closed=closed, stat=stat) if stat != "sum" or closed != "left" else f.hist()
    idx = h.index
    ctx.prove(idx.closed == closed, "closed side of the unit bins")
    ivs = [(ctx.num(l), ctx.num(r)) for l, r in zip(list(idx.left), list(idx.right))]
    for a, b in ivs:
        ctx.prove(b - a == 1, "unit bins have unit length")
    for a, b in zip(ivs, ivs[1:]):
        ctx.prove(a[1] == b[0], "unit bins are adjacent")
    a, b = ivs[0][0], ivs[-1][1]
    for v, l in D:
        ctx.prove(ctx.And(a <= v, v < b) if closed == "left" else ctx.And(a < v, v <= b), "unit bins cover the values")
    got = [ctx.num(x) for x in list(h)]
    ctx.observe("h", [got, [list(i) for i in ivs]])
    _hist_check(ctx, got, ivs, closed, D, T, stat, "unit hist")


def describe(ctx):
    f, F, w = build(ctx)
    ps = pieces(F)
    need_piece(ctx, ps)
    D, T = dist(ctx, ps)
    percs = ctx.get("percs")
    kw = {} if percs is None else {"percentiles": percs}
    percs = [25, 50, 75] if percs is None else percs
    d = f.describe(**kw) if w is None else f.describe(w, **kw)
    lab = ["unique", "mean", "std", "min"] + ["%s%%" % p for p in percs] + ["max"]
    ctx.prove(sorted(list(d.index)) == sorted(set(lab)), "labels of describe")
    ctx.prove_same(ctx.num(d["unique"]), ctx.lit(len(D)), "unique")
    I = ctx.lit(0)
    for v, l in D:
        I = I + v * l
    ctx.prove_same(ctx.num(d["mean"]) * T, I, "mean")
    sq = ctx.lit(0)
    for v, l in D:
        sq = sq + l * (v * T - I) * (v * T - I)
    std = ctx.num(d["std"])
    ctx.prove(ctx.And(std >= 0, ctx.same(std * std * T * T * T, sq)), "std")
    # over an unbounded window the extremes may include the unbounded pieces
    mn, mx = ctx.num(d["min"]), ctx.num(d["max"])
    lo, hi = D[0][0], D[-1][0]
    alo, ahi = lo, hi
    for v in (F.vals[0], F.vals[-1]):
        alo = ctx.ite(ctx.And(ctx.Not(ctx.isnan(v)), v < alo), v, alo)
        ahi = ctx.ite(ctx.And(ctx.Not(ctx.isnan(v)), v > ahi), v, ahi)
    ctx.prove(ctx.Or(ctx.same(mn, lo), ctx.same(mn, alo)), "min")
    ctx.prove(ctx.Or(ctx.same(mx, hi), ctx.same(mx, ahi)), "max")
    for p in percs:
        ctx.prove_same(ctx.num(d["%s%%" % p]), quantile_at(ctx, D, T, ctx.lit(p) / 100), "percentile in describe")
    ctx.observe("d", [ctx.num(d[k]) for k in lab])


HARNESSES = {"ecdf": ecdf, "percentile": percentile, "fixed": fixed_ps, "mode": mode, "hist": hist, "unit": unit,
             "describe": describe}
BOUNDS = {
    "quick": "functions with 2..4 step points (3 finite pieces), any query point y, any p in [0, 100] (including every "
             "cumulative-share boundary), up to 4 bin edges (symbolic) or concrete unequal edges, unit bins for values "
             "in [-1, 2], all four stats, both sides; describe over every kind of window",
    "thorough": "4 finite pieces",
}
STATS = ("sum", "frequency", "density", "probability")


def configs(tier):
    big = tier == "thorough"
    P4, P5 = [0, 1, 3, 8], [0, 1, 3, 8, 10]
    for n in (2, 3):
        for form in FORMS:
            for closed in ("left", "right"):
                if closed == "right" and form not in ("V", "D") and not big:
                    continue
                b = dict(n=n, form=form, closed=closed)
                yield "ecdf", b
                yield "mode", b
                yield "fixed", b
                if n == 2 or form in ("V", "D"):
                    yield "percentile", b
    sizes = [(4, P4)] + ([(5, P5)] if big else [])
    for n, pts in sizes:
        b = dict(n=n, pts=pts)
        yield "ecdf", b
        yield "mode", b
        yield "percentile", b
        yield "fixed", b
        yield "fixed", dict(b, q=2)
        yield "fixed", dict(b, q=8)
        for k in (1, 2):
            for how in ("percentile", "fractile"):
                yield "percentile", dict(b, share=k, how=how)
    yield "ecdf", dict(n=3, arr=True, pts=[0, 1, 3])
    yield "ecdf", dict(n=3, np=True)
    for how in ("fractile", "list", "conv"):
        yield "percentile", dict(n=2, how=how)
        yield "percentile", dict(n=3, how=how, pts=[0, 1, 3])
        yield "percentile", dict(n=3, how=how, pts=[0, 1, 3], share=1)
    yield "fixed", dict(n=3, agg=True)
    yield "mode", dict(n=3, agg=True)
    yield "mode", dict(n=3, vtype="i", nan=False)
    yield "fixed", dict(n=3, vtype="i", nan=False)
    for n in (0, 1, 2):
        for c in ([1, 1], [1, 0], [0, 1]):
            if n == 2 and c == [1, 1]:
                continue
            for h in ("ecdf", "fixed", "mode"):
                yield h, dict(n=n, clip=c)
    for win in ([-1, 2], [1, 3], [1, 6], [-1, 6]):
        for h in ("ecdf", "fixed", "mode", "percentile"):
            yield h, dict(n=2, pts=[0, 4], clip=[1, 1], win=win)
    # histograms
    for stat in STATS:
        for side in ("left", "right"):
            for bins in ("list", "ii"):
                yield "hist", dict(n=2, side=side, stat=stat, bins=bins, edges=3)
                yield "hist", dict(n=3, pts=[0, 1, 3], side=side, stat=stat, bins=bins, edges=[-1, 1, 2])
                if big:
                    yield "hist", dict(n=3, side=side, stat=stat, bins=bins, edges=3)
            yield "hist", dict(n=3, pts=[0, 1, 3], side=side, stat=stat, bins="ii", gap=True, edges=[0, 1, 2, 5])
            for dom in ("ts", "td"):
                if stat != "density":
                    yield "hist", dict(n=3, pts=[0, 1, 3], side=side, stat=stat, edges=[-1, 1, 2], dom=dom)
            yield "unit", dict(n=3, pts=[0, 1, 3], side=side, stat=stat)
    for side in ("left", "right"):
        yield "hist", dict(n=3, pts=[0, 1, 3], side=side, edges=2)
        yield "hist", dict(n=3, pts=[0, 1, 3], side=side, edges=[0, 1, 3, 4], explicit=True, pos=False)
        yield "hist", dict(n=4, pts=P4, side=side, edges=[0, 1, 3])
        for bins in ("tuple", "array", "index"):
            yield "hist", dict(n=2, side=side, edges=3, bins=bins)
        yield "unit", dict(n=2, side=side)
        yield "unit", dict(n=3, pts=[0, 1, 3], side=side, closed="right")
        for form in ("VD", "D", "VL"):
            yield "hist", dict(n=2, side=side, edges=3, form=form)
        yield "hist", dict(n=1, clip=[1, 1], side=side, edges=3)
    for dom in ("int", "ts", "tz", "dst", "td"):
        for n in (2, 3):
            yield "ecdf", dict(n=n, dom=dom)
            yield "fixed", dict(n=n, dom=dom)
            yield "mode", dict(n=n, dom=dom)
        yield "percentile", dict(n=2, dom=dom)
        yield "percentile", dict(n=3, dom=dom, pts=[0, 1, 3])
        yield "describe", dict(n=2, dom=dom, pts=[0, 3])
        yield "describe", dict(n=2, pts=[0, 4], clip=[1, 1], win=[1, 6], agg="one", dom=dom)
    # describe
    for form in FORMS:
        yield "describe", dict(n=2, form=form, pts=[0, 3])
        yield "describe", dict(n=3, form=form, pts=[0, 1, 3])
    yield "describe", dict(n=3, closed="right", pts=[0, 1, 3])
    yield "describe", dict(n=3, pts=[0, 1, 3], percs=[0, 12.5, 100])
    yield "describe", dict(n=3, pts=[0, 1, 3], percs=[])
    for win in ([-1, 2], [1, 3], [1, 6]):
        yield "describe", dict(n=2, pts=[0, 4], clip=[1, 1], win=win, agg="one")
        yield "describe", dict(n=2, pts=[0, 4], clip=[1, 1], win=win, agg="one", closed="right", percs=[10])
    for c in ([1, 0], [0, 1]):
        yield "describe", dict(n=2, pts=[0, 4], clip=c, win=[2, 2], agg="one")
        yield "describe", dict(n=3, pts=[0, 4, 5], clip=c, win=[2, 2], agg="none")
