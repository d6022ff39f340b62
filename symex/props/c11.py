"""C11: slicing evaluates each statistic on the function restricted to each interval."""
from ..ctx import Fn, combine, restrict
from .c08 import dur, pieces, total
from .c09 import _hist_check, dist, quantile_at
from .c10 import prove_extreme, taken
from .common import FORMS

ID = "C11"


def slices(ctx):
    """-> (argument of slice(), keywords, [(left, right)], closed side)"""
    kind, pd, dom = ctx.get("cuts", "breaks"), ctx.pd, ctx.dom
    ic = ctx.get("ic")
    kw = {}
    e = ctx.get("at")
    if kind in ("breaks", "tuple", "array", "index", "iib"):
        k = ctx.get("k", 2)
        if e is None:
            e = []
            for i in range(k + 1):
                e.append(ctx.real("e%d" % i, dom=True))
                if i:
                    ctx.assume(e[-2] < e[-1])
        else:
            e = [ctx.lit(x) for x in e]
        ivs = list(zip(e, e[1:]))
        if kind == "iib":
            cuts = pd.IntervalIndex.from_breaks(dom.index(e), closed=ic or "right")
            return cuts, {}, ivs, ic or "right"
        cuts = dom.pts(e)
        cuts = {"breaks": list, "tuple": tuple, "array": ctx.np.array, "index": pd.Index}[kind](cuts)
        if ic:
            kw["closed"] = ic
        return cuts, kw, ivs, ic or "left"
    if kind == "ii":  # overlapping, nested, gapped, unordered
        k = ctx.get("k", 2)
        ivs = []
        for i in range(k):
            if e is None:
                a, b = ctx.real("a%d" % i, dom=True), ctx.real("b%d" % i, dom=True)
                ctx.assume(a < b)
            else:
                a, b = ctx.lit(e[i][0]), ctx.lit(e[i][1])
            ivs.append((a, b))
        cuts = pd.IntervalIndex.from_arrays(dom.index([a for a, b in ivs]), dom.index([b for a, b in ivs]),
                                            closed=ic or "right")
        return cuts, {}, ivs, ic or "right"
    if kind == "period":  # two hours from the origin
        cuts = pd.period_range("2020-04-04 03:00", periods=ctx.get("k", 2), freq="h")
        ivs = [(ctx.lit(i), ctx.lit(i + 1)) for i in range(ctx.get("k", 2))]
        if ic:
            kw["closed"] = ic
        return cuts, kw, ivs, ic or "left"
    raise ValueError(kind)


def setup(ctx):
    closed = ctx.get("closed", "left")
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), closed,
                      vtype=ctx.get("vtype", "f"))
    cuts, kw, ivs, ic = slices(ctx)
    s = f.slice(cuts, **kw)
    rs = [restrict(F, a, b, ctx.nanv()) for a, b in ivs]
    return f, F, s, ivs, ic, [pieces(r) for r in rs]


def some(ctx, ps):
    return ctx.Or(*[ctx.Not(ctx.isnan(v)) for l, v in ps])


def check_index(ctx, idx, ivs, ic):
    ctx.prove(isinstance(idx, ctx.pd.IntervalIndex), "indexed by the slices")
    ctx.prove(idx.closed == ic, "closed side of the slices")
    ctx.prove(len(idx) == len(ivs), "one entry per slice")
    for (a, b), l, r in zip(ivs, list(idx.left), list(idx.right)):
        ctx.prove(ctx.And(ctx.dom.unpt(l) == a, ctx.dom.unpt(r) == b), "slices in the order given")


def one(ctx, name, x, F, iv, ic, ps, closed):
    """x is the statistic `name` of F restricted to iv"""
    if name in ("min", "max"):
        prove_extreme(ctx, x, taken(ctx, F, closed, iv[0], iv[1], ic), name == "min", name, empty_ok=True)
        return
    if not bool(some(ctx, ps)):
        if name in ("mean", "integral"):
            ctx.prove(ctx.isnan(x), name + " of an undefined slice")
        return
    T, I = total(ctx, ps)
    if name == "integral":
        ctx.prove_same(dur(ctx, x, "integral"), I, "integral of a slice")
    elif name == "mean":
        ctx.prove_same(ctx.num(x) * T, I, "mean of a slice")
    elif name == "median":
        D, T = dist(ctx, ps)
        ctx.prove_same(ctx.num(x), quantile_at(ctx, D, T, ctx.lit(1) / 2), "median of a slice")
    elif name == "mode":
        D, T = dist(ctx, ps)
        m = ctx.num(x)
        ctx.prove(ctx.Or(*[m == v for v, l in D]), "mode of a slice is a value taken")
        got = ctx.lit(0)
        for v, l in D:
            got = got + ctx.ite(m == v, l, 0)
        for v, l in D:
            ctx.prove(got >= l, "mode of a slice has maximal length")


def stat(ctx):
    f, F, s, ivs, ic, pss = setup(ctx)
    names = ctx.get("stat")
    if any(x in ("median", "mode") for x in names):
        for ps in pss:
            ctx.assume(some(ctx, ps))
    how = ctx.get("how", "method")
    if how == "method":
        cols = {x: getattr(s, x)() for x in names}
    elif how == "agg":
        df = s.agg(names if len(names) > 1 else names[0])
        ctx.prove(list(df.columns) == names, "columns of agg")
        check_index(ctx, df.index, ivs, ic)
        cols = {x: df[x] for x in names}
    elif how == "apply":
        table = {"mean": lambda st: st.mean(), "integral": ctx.sc.Stairs.integral, "min": lambda st: st.agg("min"),
                 "max": lambda st: st.agg("max"), "median": lambda st, k=1: st.median() * k}
        cols = {x: s.apply(table[x]) for x in names}
    for x in names:
        col = cols[x]
        check_index(ctx, col.index, ivs, ic)
        ctx.prove(len(col) == len(ivs), "one value per slice")
        for i, (iv, ps) in enumerate(zip(ivs, pss)):
            one(ctx, x, list(col.values)[i] if ctx.dom.numeric else list(col)[i], F, iv, ic, ps,
                ctx.get("closed", "left"))
    ctx.prove_same_fn(ctx.fn(f, key="f"), F, "the sliced function afterwards")


def apply_args(ctx):
    """extra arguments reach the function applied"""
    f, F, s, ivs, ic, pss = setup(ctx)
    k = ctx.real("k")
    got = s.apply(lambda st, c, d=0: st.integral() * c + d, 2, d=k)
    for x, ps in zip(list(got), pss):
        if bool(some(ctx, ps)):
            T, I = total(ctx, ps)
            ctx.prove_same(ctx.num(x), I * 2 + k, "apply with arguments")


def hist(ctx):
    f, F, s, ivs, ic, pss = setup(ctx)
    for ps in pss:
        ctx.assume(some(ctx, ps))
    side, st = ctx.get("side", "left"), ctx.get("stat", "sum")
    edges = ctx.get("edges")
    if edges == "unit":
        for v in F.vals:
            ctx.assume(ctx.Or(ctx.isnan(v), ctx.And(v >= 0, v <= 1)))
        kw = {} if side == "left" else {"closed": side}
        if st != "sum":
            kw["stat"] = st
        h = s.hist(**kw)
    else:
        kw = {}
        if side != "left":
            kw["closed"] = side
        if st != "sum":
            kw["stat"] = st
        e = [ctx.lit(x) for x in edges]
        h = s.hist(e, **kw) if ctx.get("pos") else s.hist(bins=e, **kw)
    check_index(ctx, h.index, ivs, ic)
    cols = list(h.columns)
    bins = [(ctx.num(c.left), ctx.num(c.right)) for c in cols]
    for c in cols:
        ctx.prove(c.closed == side, "closed side of the bins")
    if edges != "unit":
        ctx.prove(len(bins) == len(e) - 1, "the bins asked for")
        for (a, b), p, q in zip(bins, e, e[1:]):
            ctx.prove(ctx.And(a == p, b == q), "the bins asked for")
    rows = [list(h.iloc[i]) for i in range(len(ivs))]
    for row, ps in zip(rows, pss):
        D, T = dist(ctx, ps)
        if ctx.dom.numeric or st in ("probability", "density"):
            got = [ctx.num(x) for x in row]
        else:
            got = [dur(ctx, x, "hist") for x in row]
        _hist_check(ctx, got, bins, side, D, T, st, "hist of a slice")
        if edges == "unit":
            for v, l in D:
                ctx.prove(ctx.Or(*[(ctx.And(a <= v, v < b) if side == "left" else ctx.And(a < v, v <= b))
                                   for a, b in bins]), "unit bins cover the values")


def resample(ctx):
    f, F, s, ivs, ic, pss = setup(ctx)
    name = ctx.get("stat")[0]
    closed = ctx.get("closed", "left")
    if not ctx.get("undef"):
        for ps in pss:
            ctx.assume(some(ctx, ps))
    h = s.resample(name)
    H = ctx.fn(h, key="h")
    ctx.prove(h.closed == closed, "closed side of the resampled function")
    lo, hi = ivs[0][0], ivs[-1][1]
    ctx.prove_same(H.vals[0], F.vals[0], "resample outside the slices")
    for p in [x for x in F.pts + H.pts]:
        if bool(ctx.Or(p < lo, p >= hi)):
            ctx.prove_same(H.right(p), F.right(p), "resample outside the slices")
    ctx.prove_same(H.right(hi), F.right(hi), "resample outside the slices")
    ctx.prove_same(H.left(lo), F.left(lo), "resample outside the slices")
    for iv, ps in zip(ivs, pss):
        c = H.right(iv[0])
        for p in H.pts:
            if bool(ctx.And(iv[0] <= p, p < iv[1])):
                ctx.prove_same(H.right(p), c, "resample is constant on a slice")
        if name in ("min", "max"):
            S = taken(ctx, F, closed, iv[0], iv[1], ic)
            prove_extreme(ctx, c, S, name == "min", "resampled " + name, empty_ok=True)
        elif bool(some(ctx, ps)):
            one(ctx, name, c, F, iv, ic, ps, closed)
        else:
            ctx.prove(ctx.isnan(c), "resample on an undefined slice is undefined")
    ctx.prove_same_fn(ctx.fn(f, key="f"), F, "the sliced function afterwards")


HARNESSES = {"stat": stat, "apply": apply_args, "hist": hist, "resample": resample}
BOUNDS = {
    "quick": "functions with 0..2 step points (3 with concrete cuts), up to 3 slices with any real endpoints "
             "(tiling, overlapping, nested, gapped, unordered), every closed side of slices x function, PeriodIndex",
    "thorough": "0..3 step points",
}
ATS = ([-1, 1], [0, 1], [0, 2], [1, 2], [1, 3], [2, 3], [-1, 0], [3, 4], [-1, 3], [-1, 1, 3], [0, 1, 2], [0, 2, 3],
       [1, 2, 5], [-2, -1, 0, 2])
CL = ("left", "right")
IC = ("left", "right", "both", "neither")


def configs(tier):
    big = tier == "thorough"
    for closed in CL:
        for n in (0, 1, 2):
            for ic in IC:
                yield "stat", dict(n=n, closed=closed, ic=ic, k=1 if n == 2 else 2, stat=["min", "max"])
                yield "stat", dict(n=n, closed=closed, ic=ic, k=1, cuts="ii", stat=["min", "max"])
                if n < 2:
                    yield "stat", dict(n=n, closed=closed, ic=ic, cuts="ii", k=2, stat=["max", "min"], how="agg")
                if n < 2 or big:
                    yield "resample", dict(n=n, closed=closed, ic=ic, k=1, stat=["mean"])
                yield "resample", dict(n=n, closed=closed, ic=ic, k=1, stat=["min"])
                yield "resample", dict(n=n, closed=closed, ic=ic, k=1, stat=["max"], undef=True)
                yield "stat", dict(n=3, closed=closed, ic=ic, pts=[0, 2, 3], at=[0, 2, 4], stat=["min", "max"])
                yield "stat", dict(n=3, closed=closed, ic=ic, pts=[0, 2, 3], at=[1, 3, 5], stat=["min", "max"])
            for st in ("mean", "integral", "median", "mode"):
                k = 1 if n == 2 or n == 1 and st in ("mean", "median") else 2
                yield "stat", dict(n=n, closed=closed, k=k, stat=[st])
                yield "stat", dict(n=n, closed=closed, k=k, stat=[st], cuts="ii")
                if n == 2 and st in ("mean", "median"):  # non-linear: concrete placements
                    for at in ATS:
                        yield "resample", dict(n=n, pts=[0, 2], at=at, closed=closed, stat=[st])
                        yield "resample", dict(n=n, pts=[0, 2], at=at, closed=closed, stat=[st], cuts="iib")
                else:
                    yield "resample", dict(n=n, closed=closed, k=k, stat=[st])
                    yield "resample", dict(n=n, closed=closed, k=k, stat=[st], cuts="iib")
            yield "stat", dict(n=n, closed=closed, k=1, stat=["mean", "integral", "min"], how="agg")
            yield "stat", dict(n=n, closed=closed, k=1, stat=["mean"], how="agg")
            yield "resample", dict(n=n, closed=closed, k=1 if n else 2, stat=["mean"], undef=True)
            yield "stat", dict(n=n, closed=closed, k=1, stat=["mean", "integral", "median"], how="apply",
                               cuts="ii")
            yield "apply", dict(n=n, closed=closed, k=1)
        for at, pts in (([0, 2, 4], [0, 2, 3]), ([1, 3, 5], [0, 2, 3]), ([-1, 1, 3, 4], [0, 2, 3])):
            for st in ("mean", "integral", "median", "mode"):
                yield "stat", dict(n=3, pts=pts, at=at, closed=closed, stat=[st])
                yield "resample", dict(n=3, pts=pts, at=at, closed=closed, stat=[st])
            yield "resample", dict(n=3, pts=pts, at=at, closed=closed, stat=["mean"], undef=True)
            for ic in IC[:2] + IC[3:]:
                yield "resample", dict(n=3, pts=pts, at=at, closed=closed, stat=["max"], undef=True, ic=ic, cuts="iib")
                yield "resample", dict(n=3, pts=pts, at=at, closed=closed, stat=["min"], ic=ic)
        for at in ([[0, 3], [1, 2]], [[2, 4], [0, 1]], [[0, 1], [3, 5]], [[0, 2], [1, 3], [0, 2]]):
            for st in (["mean", "integral"], ["min", "max"], ["median"], ["mode"]):
                yield "stat", dict(n=2, pts=[0, 2], at=at, cuts="ii", closed=closed, stat=st)
                yield "stat", dict(n=2, pts=[0, 2], at=at, cuts="ii", closed=closed, stat=st, ic="both", how="agg")
            yield "hist", dict(n=2, pts=[0, 2], at=at, cuts="ii", closed=closed, edges=[-1, 0, 2])
        for side in CL:
            for st in ("sum", "frequency", "density", "probability"):
                yield "hist", dict(n=2, pts=[0, 2], at=[1, 3], closed=closed, edges=[-1, 0, 2], side=side, stat=st)
                yield "hist", dict(n=2, pts=[0, 2], at=[-1, 1, 3], closed=closed, edges="unit", side=side, stat=st)
            yield "hist", dict(n=2, pts=[0, 2], at=[-1, 1, 3], closed=closed, edges=[-1, 0, 2], side=side, pos=True)
            yield "hist", dict(n=0, at=[-1, 1, 3], closed=closed, edges=[-1, 0, 2], side=side)
            yield "hist", dict(n=0, at=[-1, 1, 3], closed=closed, edges="unit", side=side)
            yield "hist", dict(n=1, at=[-1, 1, 3], closed=closed, edges=[0, 1], side=side)
    for form in FORMS:
        yield "stat", dict(n=2, form=form, k=1, stat=["mean", "integral"])
        yield "stat", dict(n=2, form=form, k=1, stat=["min", "max"], ic="both")
        yield "resample", dict(n=2, form=form, pts=[0, 2], at=[-1, 1, 3], stat=["mean"], undef=True)
        yield "resample", dict(n=1, form=form, k=1, stat=["max"], undef=True)
    for cuts in ("tuple", "array", "index"):
        yield "stat", dict(n=1, cuts=cuts, stat=["mean"])
        yield "stat", dict(n=1, cuts=cuts, stat=["max"], ic="both")
    yield "stat", dict(n=2, k=1, vtype="i", nan=False, stat=["min", "max"], ic="both")
    for dom in ("int", "ts", "tz", "dst", "td"):
        for cuts in ("breaks", "iib"):
            for closed in CL:
                yield "stat", dict(n=1, cuts=cuts, dom=dom, stat=["min", "max"], ic="both", closed=closed)
                yield "stat", dict(n=1, cuts=cuts, dom=dom, stat=["mean", "integral"], closed=closed)
                yield "resample", dict(n=1, cuts=cuts, dom=dom, stat=["mean"], closed=closed, undef=True)
        yield "stat", dict(n=2, pts=[0, 2], at=[[0, 3], [1, 2]], cuts="ii", dom=dom, stat=["median"])
        yield "stat", dict(n=2, pts=[0, 2], at=[[0, 3], [1, 2]], cuts="ii", dom=dom, stat=["mode"])
        yield "stat", dict(n=2, pts=[0, 2], at=[[0, 3], [1, 2]], cuts="ii", dom=dom, stat=["mean", "integral"],
                           how="agg")
        yield "hist", dict(n=2, pts=[0, 2], at=[-1, 1, 3], dom=dom, edges=[-1, 0, 2])
        yield "hist", dict(n=2, pts=[0, 2], at=[-1, 1, 3], dom=dom, edges="unit")
        yield "hist", dict(n=2, pts=[0, 2], at=[-1, 1, 3], dom=dom, edges="unit", stat="probability")
        yield "hist", dict(n=0, at=[-1, 1, 3], dom=dom, edges=[-1, 0, 2])
    for closed in CL:
        for n in (0, 1, 2):
            for ic in IC:
                yield "stat", dict(n=n, dom="ts", cuts="period", ic=ic, stat=["min", "max"], closed=closed)
            yield "stat", dict(n=n, dom="ts", cuts="period", stat=["mean", "integral"], closed=closed)
            yield "stat", dict(n=n, dom="ts", cuts="period", stat=["median"], closed=closed)
            yield "resample", dict(n=n, dom="ts", cuts="period", stat=["mean"], closed=closed, undef=True)
    if big:
        for closed in CL:
            for ic in IC:
                yield "stat", dict(n=2, closed=closed, ic=ic, k=2, stat=["min", "max"])
                yield "stat", dict(n=2, closed=closed, ic=ic, k=2, cuts="ii", stat=["min", "max"])
                yield "resample", dict(n=2, closed=closed, ic=ic, k=2, stat=["max"], undef=True)
                yield "stat", dict(n=3, closed=closed, ic=ic, k=1, stat=["min", "max"])
            yield "stat", dict(n=2, closed=closed, k=2, stat=["mean", "integral"])
            yield "stat", dict(n=3, closed=closed, k=1, stat=["mean", "integral"])
            yield "resample", dict(n=2, closed=closed, k=2, stat=["mean"], undef=True)
