"""C13: only layer mutates; operands are never changed and results never alias them."""
from ..ctx import Fn, combine
from .common import BIN, BINARY, FORMS, PYOP, UNARY, apply_op, interval, operands

ID = "C13"


def unchanged(ctx, s, S, closed, label, minimal=True):
    K = ctx.fn(s)
    ctx.prove_same_fn(K, S, label)
    if minimal:
        ctx.prove(len(K.pts) == len(S.pts), label + ": step points")
    ctx.prove(s.closed == closed, label + ": closed side")


def changes(ctx, s):
    ch = s.step_changes
    return [ctx.dom.unpt(p) for p in list(ch.index)], [ctx.num(v) for v in list(ch.values)]


def same_changes(ctx, got, want, label):
    ctx.prove(len(got[0]) == len(want[0]), label + ": number of step changes")
    for a, b in zip(got[0], want[0]):
        ctx.prove(a == b, label + ": label of a step change")
    for a, b in zip(got[1], want[1]):
        ctx.prove_same(a, b, label + ": step change")


def mutate(ctx, s, kind, tag="m"):
    """layer onto s, -> the function added"""
    at = ctx.get("mwin", (0, 1))
    a, b = ctx.lit(at[0]), ctx.lit(at[1])
    v = ctx.val(tag + "v", False)
    P = ctx.dom.pt
    if kind == "scalar":
        s.layer(P(a), P(b), v)
    elif kind == "vector":
        s.layer([P(a)], [P(b)], [v])
    elif kind == "start":
        s.layer(P(a), None, v)
        return Fn([a], [0, v])
    elif kind == "end":
        s.layer(None, P(b), v)
        return Fn([b], [v, 0])
    elif kind == "all":
        s.layer(None, None, v)
        return Fn([], [v])
    return Fn([a, b], [0, v, 0])


def history(ctx):
    """operate, look, layer onto the result or an operand, look at everything again"""
    op, who, kind = ctx.get("op"), ctx.get("who"), ctx.get("mut")
    cf, cg = ctx.get("closed", "left"), ctx.get("closed", "left")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), True, cf)
    g = G = None
    if op in BINARY:
        if ctx.get("same"):
            g, G = f, F
        else:
            g, G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), True, cg)
    if ctx.get("pre"):  # the first operand is itself the result of an operation
        f, F = run(ctx, ctx.get("pre"), f, F, f, F, "r")
    h, H = run(ctx, op, f, F, g, G, "o")
    h2, H2 = run(ctx, op, f, F, g, G, "p")
    if ctx.get("read"):  # look at everything before the mutation
        H, H2 = ctx.fn(h), ctx.fn(h2)
        ch, ch2, cfs = changes(ctx, h), changes(ctx, h2), changes(ctx, f)
    hc, h2c = h.closed, h2.closed
    if who == "none":
        unchanged(ctx, f, F, cf, "first operand after " + op)
        if g is not None:
            unchanged(ctx, g, G, cg, "second operand after " + op)
        return
    target = {"f": f, "g": g, "h": h}[who]
    dlt = mutate(ctx, target, kind)

    def after(s, S, name, closed):
        if s is target and name == {"f": "first operand", "g": "second operand", "h": "result"}[who]:
            return
        if name in ("first operand", "second operand") and s is target:
            return
        unchanged(ctx, s, S, closed, "%s after layering onto the %s (%s)" % (
            name, {"f": "first operand", "g": "second operand", "h": "result"}[who], op), False)

    after(f, F, "first operand", cf)
    if g is not None:
        after(g, G, "second operand", cg)
    after(h, H, "result", hc)
    after(h2, H2, "sibling result", h2c)
    if ctx.get("read"):
        if who != "h":
            same_changes(ctx, changes(ctx, h), ch, "result")
        same_changes(ctx, changes(ctx, h2), ch2, "sibling result")
        if who == "h":
            same_changes(ctx, changes(ctx, f), cfs, "operand")


EXTRA = ["clip_all", "clip_none", "where_all", "mask_none", "pos_ctor", "agg1_sum", "agg1_max", "agg1_logical_or",
         "agg_logical_and0", "fillna_self", "slice", "ecdf", "fractile", "percentile", "array_neg",
         "array_add", "pipe", "shift0", "layer_none"]


def run(ctx, op, f, F, g, G, tag):
    """-> (result, the function it denotes)"""
    sc, pd = ctx.sc, ctx.pd
    if op == "clip_all":
        return f.clip(), F
    if op == "clip_none":
        return f.clip(None, None), F
    if op == "where_all":
        return f.where((None, None)), F
    if op == "mask_none":
        return f.mask(sc.Stairs(closed=f.closed)), F
    if op == "pos_ctor":
        return f + 0, F
    if op.startswith("agg1_"):
        h = getattr(sc, op[5:])([f])
        if "logical" in op:
            return h, F.map(lambda v: ctx.ind(ctx.Not(v == 0), v))
        return h, F
    if op == "agg_logical_and0":
        return sc.logical_and([f, f]), F.map(lambda v: ctx.ind(ctx.Not(v == 0), v))
    if op == "fillna_self":
        return f.fillna(f), F
    if op == "slice":
        P = lambda x: ctx.dom.pt(ctx.lit(x))  # noqa: E731
        out = []
        f.slice(pd.IntervalIndex.from_breaks([P(-1), P(0), P(2)])).apply(lambda s: out.append(s) or 0)
        h = out[-1]
        return h, ctx.fn(h)
    if op in ("ecdf", "fractile", "percentile"):
        h = getattr(f, op)
        return h, num_fn(ctx, h)
    if op == "array_neg":
        h = (-sc.StairsArray([f, f]))[1]
        return h, F.map(lambda v: -v)
    if op == "array_add":
        h = (sc.StairsArray([f, f]) + 0)[0]
        return h, F
    if op == "pipe":
        return f.pipe(lambda s: s.copy()), F
    if op == "shift0":
        return f.shift(ctx.dom.dur(ctx.lit(0))), F
    if op == "layer_none":
        h = f.copy()
        h.layer(None, None, 0)
        return h, F
    return apply_op(ctx, op, f, F, g, G, tag=tag)


def num_fn(ctx, s):
    """a step function over numbers, whatever the configured domain"""
    sv = s.step_values
    return Fn([ctx.num(p) for p in list(sv.index)], [ctx.num(v) for v in [s.initial_value] + list(sv.values)])


def derived(ctx):
    """distribution accessors: the functions they return belong to the caller"""
    op = ctx.get("op")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), True, ctx.get("closed", "left"))
    ctx.assume(ctx.Or(*[ctx.Not(ctx.isnan(v)) for v in F.vals[1:-1]]))
    h = getattr(f, op)
    H = num_fn(ctx, h)
    a, b = ctx.get("mwin", (0, 1))
    v = ctx.val("mv", False)
    if ctx.get("mut") == "scalar":
        h.layer(a, b, v)
    else:
        h.layer([a], [b], [v])
    unchanged(ctx, f, F, f.closed, "operand after layering onto its " + op, False)
    K = num_fn(ctx, getattr(f, op))
    ctx.prove_same_fn(K, H, op + " after layering onto an earlier one")


def queries(ctx):
    """no query changes the function, its closed side or its step changes"""
    c = ctx.get("closed", "left")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), True, c)
    g = G = None
    q = QUERIES[ctx.get("q")]
    if ctx.get("ng") is not None:
        g, G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), True, c)
    if ctx.get("read"):
        cf = changes(ctx, f)
    try:
        q(ctx, f, g)
    except Exception:  # noqa: BLE001  (whether the query has an answer is not at stake here)
        if ctx.get("strict"):
            raise
    unchanged(ctx, f, F, c, "operand after " + ctx.get("q"), False)
    if g is not None:
        unchanged(ctx, g, G, c, "second operand after " + ctx.get("q"), False)
    if ctx.get("read"):
        same_changes(ctx, changes(ctx, f), cf, "operand after " + ctx.get("q"))


def _pts(ctx, *xs):
    return [ctx.dom.pt(ctx.lit(x)) for x in xs]


def _slicer(ctx, f):
    return f.slice(_pts(ctx, -1, 0, 2))


QUERIES = {
    "integral": lambda ctx, f, g: f.integral(),
    "mean": lambda ctx, f, g: f.mean(),
    "median": lambda ctx, f, g: f.median(),
    "mode": lambda ctx, f, g: f.mode(),
    "var": lambda ctx, f, g: f.var(),
    "std": lambda ctx, f, g: f.std(),
    "min": lambda ctx, f, g: f.min(),
    "max": lambda ctx, f, g: f.max(),
    "describe": lambda ctx, f, g: f.describe(),
    "value_sums": lambda ctx, f, g: f.value_sums(dropna=False),
    "values_in_range": lambda ctx, f, g: f.values_in_range(tuple(_pts(ctx, 0, 1))),
    "agg": lambda ctx, f, g: f.agg(["mean", "max"], tuple(_pts(ctx, 0, 1))),
    "hist": lambda ctx, f, g: f.hist(bins=[-5, 0, 5]),
    "ecdf": lambda ctx, f, g: f.ecdf(0),
    "fractile": lambda ctx, f, g: f.fractile(0.5),
    "percentile": lambda ctx, f, g: f.percentile([10, 50]),
    "quantiles": lambda ctx, f, g: f.quantiles(4),
    "sample": lambda ctx, f, g: f.sample(_pts(ctx, 0, 1)),
    "call": lambda ctx, f, g: f(_pts(ctx, 0)[0], include_index=True),
    "limit": lambda ctx, f, g: f.limit(_pts(ctx, 0, 1), "left", include_index=True),
    "step_values": lambda ctx, f, g: edit(f.step_values),
    "step_changes": lambda ctx, f, g: edit(f.step_changes),
    "to_frame": lambda ctx, f, g: edit(f.to_frame()["value"]),
    "bool": lambda ctx, f, g: bool(f),
    "str": lambda ctx, f, g: f.number_of_steps,
    "rolling_mean": lambda ctx, f, g: f.rolling_mean((ctx.dom.dur(ctx.lit(-1)), ctx.dom.dur(ctx.lit(1))),
                                                     tuple(_pts(ctx, -4, 4))),
    "slice_mean": lambda ctx, f, g: _slicer(ctx, f).mean(),
    "slice_max": lambda ctx, f, g: _slicer(ctx, f).max(),
    "slice_agg": lambda ctx, f, g: _slicer(ctx, f).agg(["min", "mode"]),
    "slice_hist": lambda ctx, f, g: _slicer(ctx, f).hist(bins=[-5, 0, 5]),
    "slice_resample": lambda ctx, f, g: _slicer(ctx, f).resample("max"),
    "slice_layer": lambda ctx, f, g: _slicer(ctx, f).apply(lambda s: s.layer(None, None, 1).number_of_steps),
    "cov": lambda ctx, f, g: f.cov(g, tuple(_pts(ctx, 0, 2))),
    "cov_lag": lambda ctx, f, g: f.cov(g, tuple(_pts(ctx, 0, 2)), lag=ctx.dom.dur(ctx.lit(1))),
    "corr": lambda ctx, f, g: f.corr(g, tuple(_pts(ctx, 0, 2))),
    "identical": lambda ctx, f, g: f.identical(g),
    "sc_sample": lambda ctx, f, g: ctx.sc.sample([f, g], _pts(ctx, 0, 1)),
    "sc_limit": lambda ctx, f, g: ctx.sc.limit([f, g], _pts(ctx, 0, 1), "left"),
    "sc_cov": lambda ctx, f, g: ctx.sc.cov([f, g], tuple(_pts(ctx, 0, 2))),
    "array_ops": lambda ctx, f, g: (ctx.sc.StairsArray([f, g]) + g, ctx.sc.StairsArray([f, g]) * 2),
    "array_layer": lambda ctx, f, g: [s.layer(None, None, 1) for s in ctx.sc.StairsArray([f, g]) + 0],
}
Q2 = ("cov", "cov_lag", "corr", "identical", "sc_sample", "sc_limit", "sc_cov", "array_ops", "array_layer")
NONLINEAR = ("var", "std", "describe", "cov", "cov_lag", "corr", "sc_cov", "mode", "hist", "slice_hist")


def edit(series):
    """what a query hands out belongs to the caller"""
    if len(series):
        series.iloc[0] = 77
    return series


def user_data(ctx):
    """from_values and layer leave the caller's data alone, and do not keep looking at it"""
    sc, pd = ctx.sc, ctx.pd
    n = ctx.get("n")
    pts = ctx.points("fp", n)
    vals = [ctx.val("v%d" % i, ctx.get("how") == "from_values") for i in range(n)]
    if ctx.get("how") == "from_values":
        v0 = ctx.val("v", True)
        ser = pd.Series(vals, index=ctx.dom.index(pts), dtype="float64" if not ctx.symbolic else None)
        s = sc.Stairs.from_values(initial_value=v0, values=ser)
        S = Fn(pts, [v0] + vals)
        if ctx.get("read"):
            s.step_changes
        if ctx.get("mutate") == "data":
            ser.iloc[0] = 5.5
            unchanged(ctx, s, S, "left", "function after editing the Series it was built from", False)
        else:
            mutate(ctx, s, ctx.get("mutate"))
            ctx.prove(len(ser) == n, "length of the caller's Series")
            for got, want in zip(list(ser.values), vals):
                ctx.prove_same(ctx.num(got), want, "caller's Series")
        return
    starts = ctx.dom.pts(pts)
    df = pd.DataFrame({"a": starts, "v": vals})
    s = sc.Stairs(df, "a", None, "v")
    tot, out = ctx.lit(0), [ctx.lit(0)]
    for v in vals:
        tot = tot + v
        out.append(tot)
    S = Fn(pts, out)
    if ctx.get("mutate") == "data":
        df["v"] = [5.5] * n
        unchanged(ctx, s, S, "left", "function after editing the frame it was built from", False)
    else:
        mutate(ctx, s, ctx.get("mutate"))
        ctx.prove(list(df.columns) == ["a", "v"], "columns of the caller's frame")
        for got, want in zip(list(df["v"].values), vals):
            ctx.prove_same(ctx.num(got), want, "caller's frame")


HARNESSES = {"history": history, "derived": derived, "queries": queries, "user_data": user_data}
BOUNDS = {
    "quick": "every catalogue operation and %d special ones on operands with 0..2 step points at fixed places, symbolic "
             "values (possibly undefined); a second application of the operation as sibling; then one scalar / vector / "
             "half-unbounded layer with a symbolic value onto the result or an operand; every object observed again; "
             "%d queries" % (len(EXTRA), len(QUERIES)),
    "thorough": "as quick, all internal forms, symbolic step points, mutation at several places",
}
HALF = ("shift", "diff", "clip", "clip_lo", "clip_hi", "where_t", "where_t_lo", "where_t_hi", "mask_t", "mask_t_lo",
        "mask_t_hi", "layer", "layer_v")


def configs(tier):
    big = tier == "thorough"
    muts = ("scalar", "vector") if not big else ("scalar", "vector", "start", "end", "all")
    for op in UNARY + EXTRA:
        if op in ("ecdf", "fractile", "percentile"):
            continue
        for nf in (0, 1, 2):
            for ff in FORMS if nf == 1 or (big and nf) else ("V", "D") if nf else ("V",):
                for owin in ([0, 1], [-1, 0.5], [1, 3]) if op in HALF and nf else ([0, 1],):
                    base = dict(op=op, nf=nf, ff=ff, fpts=[0, 1][:nf], owin=owin)
                    if owin[0] and (nf == 2 or ff not in ("V", "D")) and not big:
                        continue
                    yield "history", dict(base, who="none")
                    for who in ("f", "h"):
                        for mut in muts:
                            for read in (False, True):
                                if ff not in ("V", "D", "VD") and (mut == "vector" or read) and not big:
                                    continue
                                yield "history", dict(base, who=who, mut=mut, read=read)
        for who in ("f", "h"):
            o = dict(op=op, who=who, owin=[0, 1])
            yield "history", dict(o, nf=1, ff="V", fpts=[0], mut="scalar", closed="right")
            yield "history", dict(o, nf=0, ff="V", mut="all")
            yield "history", dict(o, nf=0, ff="V", mut="scalar", ik="ni")
            yield "history", dict(o, nf=1, ff="D", fpts=[0], mut="all", ik="ni")
            yield "history", dict(o, nf=1, ff="V", fpts=[0], mut="scalar", dom="ts")
            if big:
                yield "history", dict(op=op, nf=1, ff="D", who=who, mut="scalar", fpts=[0])
    for pre in UNARY + BINARY + EXTRA:
        if pre in ("ecdf", "fractile", "percentile"):
            continue
        for op in ("copy", "clip_all", "pos_ctor", "neg", "fillna_c", "clip_hi", "mask_none") if not big else UNARY:
            for nf in (0, 1):
                for ff in ("V", "D") if nf else ("V",):
                    for who in ("f", "h"):
                        for mut in ("all", "scalar") if not big else ("all", "start", "vector"):
                            if op != "copy" and (mut, nf) != ("all", 0) and (mut, nf, ff) != ("scalar", 1, "D") \
                                    and not big:
                                continue
                            yield "history", dict(pre=pre, op=op, nf=nf, ff=ff, fpts=[0, 1][:nf], who=who, mut=mut,
                                                  owin=[-1, 1])
    for op in BINARY:
        for nf, ng in ((0, 0), (0, 1), (1, 0), (1, 1)) + (((1, 2), (2, 1)) if big else ()):
            for a in FORMS if nf else ("V",):
                for b in FORMS if ng else ("V",):
                    if nf and ng and (a, b) not in (("V", "V"), ("D", "D"), ("VD", "VD"), ("V", "D"), ("D", "V")):
                        continue
                    base = dict(op=op, nf=nf, ng=ng, ff=a, fg=b, fpts=[0, 2][:nf], gpts=[1, 3][:ng])
                    yield "history", dict(base, who="none")
                    for who in ("f", "g", "h"):
                        for mut in muts:
                            if mut == "vector" and a != "V" and not big:
                                continue
                            yield "history", dict(base, who=who, mut=mut)
                            yield "history", dict(base, who=who, mut=mut, read=True)
        for who in ("f", "h"):
            yield "history", dict(op=op, nf=1, ng=1, ff="V", fg="D", fpts=[0], gpts=[0], who=who, mut="scalar")
            yield "history", dict(op=op, nf=0, ng=0, who=who, mut="all")
            for ff in ("V", "D"):
                yield "history", dict(op=op, nf=1, same=True, ff=ff, fpts=[0], who=who, mut="scalar")
    for op in ("ecdf", "fractile", "percentile"):
        for ff in ("V", "D", "VD"):
            for mut in ("scalar", "vector"):
                yield "derived", dict(op=op, nf=2, ff=ff, fpts=[0, 1], mut=mut)
        yield "derived", dict(op=op, nf=3, ff="V", fpts=[0, 1, 3], mut="scalar")
        yield "derived", dict(op=op, nf=2, ff="V", fpts=[0, 1], mut="scalar", dom="ts")
    for q in QUERIES:
        two = q in Q2
        for nf in (0, 1, 2):
            for ff in ("V", "D", "VD") if nf else ("V",):
                for read in (False, True):
                    d = dict(q=q, nf=nf, ff=ff, fpts=[0, 1][:nf], read=read)
                    if q in NONLINEAR and nf == 2:
                        d["fvals"] = [1, 3, None] if ff == "V" else [1, 3, 0]
                    if two:
                        for ng, fg in ((0, "V"), (1, "V"), (1, "D")):
                            e = dict(d, ng=ng, fg=fg, gpts=[0.5][:ng])
                            if q in NONLINEAR:
                                e["gvals"] = [2, 5][:ng + 1]
                            yield "queries", e
                    else:
                        yield "queries", d
        if q not in ("hist", "slice_hist"):
            yield "queries", dict(q=q, nf=2, ff="V", fpts=[0, 1], fvals=[1, 3, None], dom="ts",
                                  **(dict(ng=1, fg="V", gpts=[0.5], gvals=[2, 5]) if two else {}))
    for n in (1, 2):
        for how in ("from_values", "frame"):
            for m in ("data", "scalar", "vector"):
                for read in (False, True) if how == "from_values" else (False,):
                    yield "user_data", dict(how=how, n=n, mutate=m, read=read, fpts=[0, 1][:n])
